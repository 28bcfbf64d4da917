From dbd4f90eba503fc822ce4ec6a52a168707021f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 01/17] Add guarded phase marks for deterministic simulation
 (OPENMPS_SIM)

---
 src/OpenMps/Computer.hpp | 5 +++++
 src/OpenMps/defines.hpp  | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 3fa81f8..89fc351 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1708,9 +1708,11 @@ namespace { namespace OpenMps
 			// 近傍粒子探索
 			// ※近傍粒子半径を大きめにとっているので1回で良い
 			SearchNeighbor();
+			OPENMPS_SIM_PHASE("search")
 
 			// 粒子数密度を計算する
 			ComputeNeighborDensities();
+			OPENMPS_SIM_PHASE("density1")
 
 #ifdef MPS_ECS
 			ComputeErrorCorrection();
@@ -1723,9 +1725,11 @@ namespace { namespace OpenMps
 			// 過剰接近粒子の補正
 			ModifyTooNear();
 #endif
+			OPENMPS_SIM_PHASE("explicit")
 
 			// 粒子数密度を計算する
 			ComputeNeighborDensities();
+			OPENMPS_SIM_PHASE("density2")
 
 #ifdef MPS_DS
 			// 圧力勾配の前の位置を保存
@@ -1734,6 +1738,7 @@ namespace { namespace OpenMps
 
 			// 第二段階の計算
 			ComputeImplicitForces();
+			OPENMPS_SIM_PHASE("implicit")
 
 #ifdef MPS_DS
 			// DS法による人工斥力の追加
diff --git a/src/OpenMps/defines.hpp b/src/OpenMps/defines.hpp
index 5c2a889..c2c297b 100644
--- a/src/OpenMps/defines.hpp
+++ b/src/OpenMps/defines.hpp
@@ -74,6 +74,15 @@
 	#endif
 #endif
 
+// 決定論的シミュレーション（検証用）のためのフック
+// ※OPENMPS_SIMを定義しない限り何もしない
+#ifdef OPENMPS_SIM
+	extern "C" void openmps_sim_phase(const char* name);
+	#define OPENMPS_SIM_PHASE(name) openmps_sim_phase(name);
+#else
+	#define OPENMPS_SIM_PHASE(name)
+#endif
+
 #include <cstddef>
 
 namespace { namespace OpenMps
-- 
2.43.0


From 57d94800034edf9d3f3487a549f7a73eaf65e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 02/17] fix: allow the number of particles to grow between
 steps

ViennaCL matrices and vectors can not be assigned from ones of another size
(assertion failure); resize them instead.
---
 src/OpenMps/Computer.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 89fc351..32b1a3a 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1162,12 +1162,13 @@ namespace { namespace OpenMps
 			if (n != ppe.b.size())
 			{
 				// サイズを変えて作り直し
-				ppe.A = typename Ppe::Matrix {n, n};
-				ppe.x = typename Ppe::LongVector(n);
-				ppe.b = typename Ppe::LongVector(n);
-				ppe.cg.r = typename Ppe::LongVector(n);
-				ppe.cg.p = typename Ppe::LongVector(n);
-				ppe.cg.Ap = typename Ppe::LongVector(n);
+				// ※ViennaCLは大きさの異なる行列・ベクトルの代入ができないのでresizeする
+				ppe.A.resize(n, n, false);
+				ppe.x.resize(n, false);
+				ppe.b.resize(n, false);
+				ppe.cg.r.resize(n, false);
+				ppe.cg.p.resize(n, false);
+				ppe.cg.Ap.resize(n, false);
 
 #ifdef USE_VIENNACL
 				ppe.tempA = typename Ppe::TempMatrix(n, n);
-- 
2.43.0


From 0e94993b39c1b23bfc1eaa906e637b7aaa470cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 03/17] fix: the time step ignores disabled particles and works
 without particles

Particles that left the computational domain no longer limit the time step,
and an empty particle list no longer dereferences end().
---
 src/OpenMps/Computer.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 32b1a3a..2ac7448 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -760,16 +760,16 @@ namespace { namespace OpenMps
 		{
 			namespace ublas = boost::numeric::ublas;
 
-			// 最大速度を取得
-			const auto maxUParticle = *std::max_element(particles.cbegin(), particles.cend(),
-				[](const Particle& base, const Particle& target)
+			// 最大速度を取得（無効粒子は除く）
+			double maxU2 = 0;
+			for (const auto& particle : particles)
 			{
-				const auto& baseU = base.U();
-				const auto& targetU = target.U();
-				return (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));
-			});
-			const auto maxU = ublas::norm_2(maxUParticle.U());
-
+				if (particle.TYPE() != Particle::Type::Disabled)
+				{
+					maxU2 = std::max(maxU2, ublas::inner_prod(particle.U(), particle.U()));
+				}
+			}
+			const auto maxU = std::sqrt(maxU2);
 
 			// CFL条件より時間刻みを決定する
 			const auto dt = (maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt));
-- 
2.43.0


From 7f0be4f0138ad2bd804c22e054ca604f9ac4c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 04/17] fix: particles that left the domain are not moved as
 walls

The wall position callback was applied to disabled particles too.
---
 src/OpenMps/Computer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 2ac7448..aeda965 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1009,8 +1009,8 @@ namespace { namespace OpenMps
 					particles[i].U() += a[i] * dt;
 					particles[i].X() += particles[i].U()* dt;
 				}
-				// 壁の位置
-				else
+				// 壁の位置（無効粒子は動かさない）
+				else if(particles[i].TYPE() != Particle::Type::Disabled)
 				{
 					const Vector x = positionWall(i, t, dt);
 					const Vector u = (x - particles[i].X()) / dt; // 速度は位置から微分
-- 
2.43.0


From f90e6ee0ea7b2b727a846bb52062e7260e12ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 05/17] fix: the pressure solver does not return an unsolved
 pressure

With an allowable residual of zero (or one whose square underflows) the
solver took the initial guess for the solution.
---
 src/OpenMps/Computer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index aeda965..27d63bd 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1387,7 +1387,8 @@ namespace { namespace OpenMps
 			const double residual0 = rr*ppe.allowableResidual*ppe.allowableResidual;
 
 			// 初期値で既に収束している場合は即時終了
-			bool isConverged = (residual0 == 0);
+			// ※許容誤差が0（または小さすぎて2乗が0）でも、解かずに終了してはならない
+			bool isConverged = (rr == 0);
 			const auto n = x.size();
 			// 未知数分だけ繰り返す
 			for (auto i = decltype(n){0}; (i < n) && (!isConverged); i++)
@@ -1406,7 +1407,7 @@ namespace { namespace OpenMps
 
 				// 収束判定
 				const auto residual = rrNew;
-				isConverged = (residual < residual0);
+				isConverged = (residual <= residual0);
 
 				// 収束していなければ、残りの計算を実行
 				if (!isConverged)
-- 
2.43.0


From 91876ee5d388af63e6dd36d64990c1dbf3d1903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 06/17] fix: a failed resize of the pressure equation is
 retried by the next step

---
 src/OpenMps/Computer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 27d63bd..df8f2df 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1165,7 +1165,6 @@ namespace { namespace OpenMps
 				// ※ViennaCLは大きさの異なる行列・ベクトルの代入ができないのでresizeする
 				ppe.A.resize(n, n, false);
 				ppe.x.resize(n, false);
-				ppe.b.resize(n, false);
 				ppe.cg.r.resize(n, false);
 				ppe.cg.p.resize(n, false);
 				ppe.cg.Ap.resize(n, false);
@@ -1181,6 +1180,9 @@ namespace { namespace OpenMps
 					ppe.a_ij[i].reserve(MaxNeighborCount());
 				}
 #endif
+
+				// ※途中で失敗した時に次回作り直せるよう、作り直しの判定に使うものは最後
+				ppe.b.resize(n, false);
 			}
 
 			OMP_PARALLEL_FOR
-- 
2.43.0


From 9cdb284288f512dc31fbf9d45d687daf4e4416ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 07/17] fix: a failed addition of particles leaves the computer
 unchanged

---
 src/OpenMps/Computer.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index df8f2df..a558f74 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1763,12 +1763,9 @@ namespace { namespace OpenMps
 		template<typename PARTICLES>
 		void AddParticles(PARTICLES&& src)
 		{
-			particles.insert(particles.end(),
-				std::make_move_iterator(src.begin()),
-				std::make_move_iterator(src.end()));
-
-			const auto n = particles.size();
+			const auto n = particles.size() + static_cast<std::size_t>(std::distance(src.begin(), src.end()));
 
+			// ※途中で失敗しても粒子だけが増えた状態にならないよう、粒子の追加は最後
 			neighbor.resize(boost::extents
 				[static_cast<NeighborIndex>(n)]
 				[1 + static_cast<NeighborIndex>(grid.MaxParticles()*Grid::MAX_NEIGHBOR_BLOCK)]); // 先頭は近傍粒子数
@@ -1783,6 +1780,10 @@ namespace { namespace OpenMps
 #ifdef MPS_SPP
 			nWithoutSpp.resize(n);
 #endif
+
+			particles.insert(particles.end(),
+				std::make_move_iterator(src.begin()),
+				std::make_move_iterator(src.end()));
 		}
 
 		// 粒子リストを取得する
-- 
2.43.0


From f754c3a439b7f02ca8cb66199d8ae2b94b503f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 08/17] fix: enumerating a full grid block does not read past
 it

---
 src/OpenMps/Grid.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 1ea3925..76d00f9 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -1,6 +1,7 @@
 ﻿#ifndef GRID_INCLUDED
 #define GRID_INCLUDED
 
+#include <algorithm>
 #include <iterator>
 #include <array>
 #include <boost/multi_array.hpp>
@@ -257,17 +258,17 @@ namespace { namespace OpenMps
 #ifdef DIM3
 		auto ParticleCount(const Index i, const Index j, const Index k) const
 		{
-			return data[i][j][k][0]; // 先頭は粒子数を格納してある
+			return std::min(data[i][j][k][0], MaxParticles()); // 先頭は粒子数を格納してある（満杯のブロックに格納しようとした分は除く）
 		}
 #else
 		auto ParticleCount(const Index i, const Index k) const
 		{
-			return data[i][k][0]; // 先頭は粒子数を格納してある
+			return std::min(data[i][k][0], MaxParticles()); // 先頭は粒子数を格納してある（満杯のブロックに格納しようとした分は除く）
 		}
 #endif
 
 		// 1ブロック内の最大粒子数
-		auto MaxParticles() const
+		ParticleID MaxParticles() const
 		{
 			return static_cast<ParticleID>(data.shape()[AXIS_Z + 1]) - 1; // 先頭の粒子数の格納分を除く
 		}
-- 
2.43.0


From e793744c9792549b5e36e3ba65198246f643de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 09/17] fix: clear the whole search grid in three dimensions

---
 src/OpenMps/Grid.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 76d00f9..16c99a0 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -167,7 +167,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -196,7 +196,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -230,7 +230,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
-- 
2.43.0


From 5d8835256b0e4982034a4e23bfe3a6caa4f38942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 10/17] fix: setting up the pressure equation recovers from a
 failed allocation

---
 src/OpenMps/Computer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index a558f74..c50078a 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1229,7 +1229,9 @@ namespace { namespace OpenMps
 #else
 			auto& A = ppe.A;
 #endif
-			A.clear();
+			// ※前回の設定が途中で失敗していても使えるように、消去ではなく作り直す
+			auto emptyA = std::decay_t<decltype(A)>(n, n, A.nnz_capacity());
+			A.swap(emptyA);
 
 			// 全粒子で
 			OMP_PARALLEL_FOR
-- 
2.43.0


From 5ca957029064b9fbd4d9d1dee60002c38ec95c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 11/17] fix: a full search cell stops the program like any
 other failed step

---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 4769219..172bbdf 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -384,7 +384,7 @@ int main(const int argc, const char* const argv[])
 			printTime(tComputer, iteration, outputCount + outputIterationOffset, count);
 		}
 		// 計算で例外があったら
-		catch(decltype(computer)::Exception ex)
+		catch(const std::exception& ex)
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-- 
2.43.0


From 95f3ea3d31b3806efcceb2c799df09223305a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 12/17] fix: the error message reports the simulated time
 including the start time

---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 172bbdf..ecf0edb 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -388,7 +388,7 @@ int main(const int argc, const char* const argv[])
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-				<< boost::format("#%3%: t=%1% (%2%)") % tComputer % iteration % (outputCount + outputIterationOffset) << std::endl
+				<< boost::format("#%3%: t=%1% (%2%)") % (tComputer + condition.StartTime) % iteration % (outputCount + outputIterationOffset) << std::endl
 				<< ex.what() << std::endl;
 			break;
 		}
-- 
2.43.0


From 88e955b1dc6589d3f1a9632ae0c4de425d7cfd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 13/17] fix: a snapshot that could not be written completely is
 an error

---
 src/OpenMps/Main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index ecf0edb..a2d776b 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -63,6 +63,13 @@ namespace
 			}
 		}
 
+		// 最後まで書き込めたことを確認
+		output.close();
+		if (!output)
+		{
+			throw std::runtime_error("Failed to write " + filename);
+		}
+
 		return nonDisalbeCount;
 	}
 
-- 
2.43.0


From c9317eaa18a5875a63ccb506ad835282c7933480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 14/17] fix: the number of snapshots does not depend on
 round-off and is not negative

---
 src/OpenMps/Main.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index a2d776b..9228cae 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -5,6 +5,7 @@
 #include <sstream>
 #include <unordered_map>
 #include <algorithm>
+#include <cmath>
 #include <boost/format.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/property_tree/ptree.hpp>
@@ -280,6 +281,17 @@ namespace
 		);
 	}
 
+	// 出力回数を計算する
+	inline auto CountOutput(const double time, const double interval)
+	{
+		const auto ratio = time / interval;
+		const auto nearest = std::round(ratio);
+
+		// 10進数では割り切れる場合に、丸め誤差で1回多く数えないようにする
+		const auto isDivisible = std::abs(ratio - nearest) <= 1e-9 * std::max(1.0, std::abs(nearest));
+		return static_cast<std::size_t>(std::max(0.0, isDivisible ? nearest : std::ceil(ratio)));
+	}
+
 	template<typename T>
 	static void System(T&& arg)
 	{
@@ -340,7 +352,7 @@ int main(const int argc, const char* const argv[])
 	timer.Start();
 	boost::format timeFormat("#%3$05d: t=%1$8.4lf (%2$05d), %10$12d particles, @ %4$02d/%5$02d %6$02d:%7$02d:%8$02d (%9$8.2lf)");
 
-	const auto outputIterationOffset = static_cast<std::size_t>(std::ceil(condition.StartTime / condition.OutputInterval));
+	const auto outputIterationOffset = CountOutput(condition.StartTime, condition.OutputInterval);
 
 	// 開始時間を画面表示
 	const auto printTime = [&timeFormat, &timer](const auto tComputer, const auto iteration, const auto outputCount, const auto count)
@@ -366,7 +378,7 @@ int main(const int argc, const char* const argv[])
 	// 計算が終了するまで
 	double nextOutputT = 0;
 	std::size_t iteration = 0;
-	const auto endCount = static_cast<std::size_t>(std::ceil((condition.EndTime - condition.StartTime) / condition.OutputInterval));
+	const auto endCount = CountOutput(condition.EndTime - condition.StartTime, condition.OutputInterval);
 	for(auto outputCount = decltype(endCount){1}; outputCount <= endCount; outputCount++)
 	{
 		double tComputer = computer.GetEnvironment().T();
-- 
2.43.0


From f25ee9b7e7bfe14029a525d89ac014d6d080233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 15/17] fix: malformed particle tables are rejected

---
 src/OpenMps/Main.cpp | 61 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 9228cae..edd0ff1 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -74,6 +74,36 @@ namespace
 		return nonDisalbeCount;
 	}
 
+	// 文字列全体を数値に変換する
+	template<typename T>
+	inline auto ToNumber(const std::string& str)
+	{
+		std::size_t length = 0;
+		const auto value = stov<T>(str, &length);
+		if ((length != str.size()) || !std::isfinite(value))
+		{
+			throw std::runtime_error("Illegal number in input csv");
+		}
+		return value;
+	}
+
+	// 文字列を粒子タイプに変換する
+	inline auto ToParticleType(const std::string& str)
+	{
+		const auto value = ToNumber<std::underlying_type_t<OpenMps::Particle::Type>>(str);
+		const auto type = static_cast<OpenMps::Particle::Type>(value);
+		switch (type)
+		{
+		case OpenMps::Particle::Type::IncompressibleNewton:
+		case OpenMps::Particle::Type::Wall:
+		case OpenMps::Particle::Type::Dummy:
+		case OpenMps::Particle::Type::Disabled:
+			return type;
+		default:
+			throw std::runtime_error("Illegal particle type in input csv");
+		}
+	}
+
 	// 粒子を読み込む
 	inline auto InputFromCsv(const std::string& csv)
 	{
@@ -84,7 +114,11 @@ namespace
 
 		// 先頭の空行は飛ばす
 		auto itr = input.cbegin();
-		for (; itr->size() == 0; ++itr) {}
+		for (; (itr != input.cend()) && (itr->size() == 0); ++itr) {}
+		if (itr == input.cend())
+		{
+			throw std::runtime_error("No header in input csv");
+		}
 
 		// 行をカンマ区切りで分割する関数
 		const auto GetItems = [](std::string str)
@@ -158,32 +192,37 @@ namespace
 			const auto data = GetItems(line);
 			if (data.size() > 0) // 空行は飛ばす
 			{
-				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]])));
+				auto particle = OpenMps::Particle(ToParticleType(data.at(header["Type"])));
 
 				// 位置ベクトル
-				particle.X()[OpenMps::AXIS_X] = stov<double>(data[header["x"]]);
+				particle.X()[OpenMps::AXIS_X] = ToNumber<double>(data.at(header["x"]));
 #ifdef DIM3
-				particle.X()[OpenMps::AXIS_Y] = stov<double>(data[header["y"]]);
+				particle.X()[OpenMps::AXIS_Y] = ToNumber<double>(data.at(header["y"]));
 #endif
-				particle.X()[OpenMps::AXIS_Z] = stov<double>(data[header["z"]]);
+				particle.X()[OpenMps::AXIS_Z] = ToNumber<double>(data.at(header["z"]));
 
 				// 速度ベクトル
-				particle.U()[OpenMps::AXIS_X] = stov<double>(data[header["u"]]);
+				particle.U()[OpenMps::AXIS_X] = ToNumber<double>(data.at(header["u"]));
 #ifdef DIM3
-				particle.U()[OpenMps::AXIS_Y] = stov<double>(data[header["v"]]);
+				particle.U()[OpenMps::AXIS_Y] = ToNumber<double>(data.at(header["v"]));
 #endif
-				particle.U()[OpenMps::AXIS_Z] = stov<double>(data[header["w"]]);
+				particle.U()[OpenMps::AXIS_Z] = ToNumber<double>(data.at(header["w"]));
 
 				// 圧力
-				particle.P() = stov<double>(data[header["p"]]);
+				particle.P() = ToNumber<double>(data.at(header["p"]));
 
 				// 粒子数密度
-				particle.N() = stov<double>(data[header["n"]]);
+				particle.N() = ToNumber<double>(data.at(header["n"]));
 
 				particles.push_back(std::move(particle));
 			}
 		}
 
+		if (particles.empty())
+		{
+			throw std::runtime_error("No particle in input csv");
+		}
+
 		// 粒子数を表示
 		std::cout << particles.size() << " particles" << std::endl;
 
@@ -194,7 +233,7 @@ namespace
 	inline decltype(auto) LoadParticles(const boost::property_tree::ptree& xml)
 	{
 		// 粒子データの読み込み
-		const auto type = xml.get_optional<std::string>("openmps.particles.<xmlattr>.type").get();
+		const auto type = xml.get<std::string>("openmps.particles.<xmlattr>.type");
 		if (type == "csv")
 		{
 			auto&& txt = xml.get<std::string>("openmps.particles");
-- 
2.43.0


From 2bd014e31bd939620dc211c2152a18192b489418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 16/17] fix: a step without particles succeeds with ViennaCL
 too

---
 src/OpenMps/Computer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index c50078a..6d8b9bb 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1066,6 +1066,12 @@ namespace { namespace OpenMps
 				particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);
 			}
 #else
+			// 粒子がなければ何もしない（ViennaCLは大きさ0の行列・ベクトルを扱えない）
+			if (n == 0)
+			{
+				return;
+			}
+
 			// 圧力方程式を設定
 			SetPressurePoissonEquation();
 
-- 
2.43.0


From 67a789a02677f87d83aada365737b627f0f7688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:03 +0000
Subject: [PATCH 17/17] fix: a snapshot with numbers very close to zero can be
 read again

std::stod treats denormal values as out of range, so a run could not be
continued from a snapshot it had written itself.
---
 src/OpenMps/Main.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index edd0ff1..19e575a 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -6,6 +6,7 @@
 #include <unordered_map>
 #include <algorithm>
 #include <cmath>
+#include <cstdlib>
 #include <boost/format.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/property_tree/ptree.hpp>
@@ -79,8 +80,19 @@ namespace
 	inline auto ToNumber(const std::string& str)
 	{
 		std::size_t length = 0;
-		const auto value = stov<T>(str, &length);
-		if ((length != str.size()) || !std::isfinite(value))
+		T value{};
+		if constexpr (std::is_same<T, double>::value)
+		{
+			// ※std::stodは0に近すぎる値（非正規化数）も範囲外として受け付けないので使わない
+			char* end = nullptr;
+			value = std::strtod(str.c_str(), &end);
+			length = static_cast<std::size_t>(end - str.c_str());
+		}
+		else
+		{
+			value = stov<T>(str, &length);
+		}
+		if ((length == 0) || (length != str.size()) || !std::isfinite(value))
 		{
 			throw std::runtime_error("Illegal number in input csv");
 		}
-- 
2.43.0

