// Executable reference model of one MPS step: plain loops over ALL pairs, long double,
// written from the method's definition (README / comments), not from the engine's structure.
// Every quantity carries a tolerance: rounding of the engine's double sums plus the full
// size of any contribution whose presence is ambiguous (pair exactly at the radius, ...).
#pragma once
#include "engine.hpp"
#include <cmath>
#include <vector>
#include <algorithm>
#include <limits>

namespace ref
{
	using R = long double;
	struct V { R c[3] = { 0, 0, 0 }; };
	inline V operator+(const V& a, const V& b) { V r; for (int k = 0; k < 3; k++) { r.c[k] = a.c[k] + b.c[k]; } return r; }
	inline V operator-(const V& a, const V& b) { V r; for (int k = 0; k < 3; k++) { r.c[k] = a.c[k] - b.c[k]; } return r; }
	inline V operator*(R s, const V& a) { V r; for (int k = 0; k < 3; k++) { r.c[k] = s * a.c[k]; } return r; }
	inline R dot(const V& a, const V& b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2]; }
	inline R norm(const V& a) { return std::sqrt(dot(a, a)); }
	inline V vec(const double* x) { V r; for (int k = 0; k < 3; k++) { r.c[k] = x[k]; } return r; }

	static constexpr R REL = 1e-11L;      // relative rounding allowance on sums of absolute values
	static constexpr R EDGE = 1e-10L;     // relative width of an ambiguous threshold

	enum { FLUID = 0, WALL = 1, DUMMY = 2, DISABLED = 3 };

	struct Val { R v = 0, tol = 0; };
	struct VVal { V v; R tol = 0; };

	struct Model
	{
		EngineFlags f; EnvParams e;
		R re, l0, n0, lambda, nl, maxDx, maxDt, d;
		V g;

		Model(const EngineFlags& f_, const EnvParams& e_) : f(f_), e(e_)
		{
			l0 = e.l0; re = static_cast<R>(e.re) * l0;
			nl = re * (1 + 2 * static_cast<R>(e.courant));
			maxDx = static_cast<R>(e.courant) * l0;
			maxDt = f.pexp ? std::min<R>(e.maxDt, maxDx / e.c) : (!(e.g > 0) ? static_cast<R>(e.maxDt) : std::min<R>(e.maxDt, std::sqrt(2 * maxDx / e.g)));
			g.c[2] = -static_cast<R>(e.g);
			d = l0 - maxDx;
			n0 = 0; lambda = 0;
			const int m = static_cast<int>(std::ceil(e.re)) + 1;
			for (int i = -m; i <= m; i++) { for (int j = -m; j <= m; j++) { for (int k = f.dim == 3 ? -m : 0; k <= (f.dim == 3 ? m : 0); k++)
			{
				if (!i && !j && !k) { continue; }
				const R r = l0 * std::sqrt(static_cast<R>(i * i + j * j + k * k));
				if (r < re) { const R w = re / r - 1; n0 += w; lambda += r * r * w; }
			} } }
			lambda /= n0;
		}
		R W(R r) const { return (r > 0 && r < re) ? re / r - 1 : 0; }

		// ---- one configuration of particles
		struct Conf
		{
			std::vector<int> type; std::vector<V> x, u; std::vector<R> p, n;
			std::size_t size() const { return type.size(); }
			static Conf of(const std::vector<PState>& s)
			{
				Conf c;
				for (auto& q : s) { c.type.push_back(q.type); c.x.push_back(vec(q.x)); c.u.push_back(vec(q.u)); c.p.push_back(q.p); c.n.push_back(q.n); }
				return c;
			}
		};
		struct Nb { std::size_t j; R r; V dx; bool sure; };
		// neighbours of every active particle at positions x; search: positions at the neighbour search
		using Nbs = std::vector<std::vector<Nb>>;
		Nbs neighbours(const Conf& c, const std::vector<V>& search) const
		{
			const auto n = c.size();
			Nbs nb(n);
			for (std::size_t i = 0; i < n; i++)
			{
				if (c.type[i] == DISABLED) { continue; }
				for (std::size_t j = 0; j < n; j++)
				{
					if (j == i || c.type[j] == DISABLED) { continue; }
					const V dx = c.x[j] - c.x[i];
					const R r = norm(dx);
					if (!(r < re * (1 + EDGE))) { continue; }
					bool sure = r < re * (1 - EDGE);
					const R r0 = norm(search[j] - search[i]);
					if (!(r0 < nl * (1 - EDGE))) { sure = false; }
					if (r < l0 * 1e-9L) { sure = false; }
					nb[i].push_back(Nb{ j, r, dx, sure });
				}
			}
			return nb;
		}
		// every pair within range was also within the search radius at the search
		static bool allSure(const Nbs& nb) { for (auto& l : nb) { for (auto& k : l) { if (!k.sure) { return false; } } } return true; }

		struct Density { std::vector<Val> raw, n; };
		Density density(const Conf& c, const Nbs& nb) const
		{
			Density o; o.raw.resize(c.size()); o.n.resize(c.size());
			for (std::size_t i = 0; i < c.size(); i++)
			{
				if (c.type[i] == DUMMY || c.type[i] == DISABLED) { o.raw[i].v = n0; continue; }
				R s = 0, t = 0;
				for (auto& k : nb[i])
				{
					const R w = W(k.r);
					s += w;
					t += REL * (w + 1) * (1 + (posScale(c, i, k.j) / k.r)) ;
					if (!k.sure) { t += w + 1e-9L; }
				}
				o.raw[i].v = s; o.raw[i].tol = t + REL;
				o.n[i].v = f.spp ? std::max(s, n0) : s; o.n[i].tol = o.raw[i].tol;
			}
			return o;
		}
		// coordinates far from the origin lose digits in differences
		R posScale(const Conf& c, std::size_t i, std::size_t j) const
		{
			R m = 0;
			for (int k = 0; k < 3; k++) { m = std::max(m, std::max(std::fabs(c.x[i].c[k]), std::fabs(c.x[j].c[k]))); }
			return m * 1e-4L; // eps/REL
		}

		// ---- virtual surface particle of particle i
		struct Spp { bool exists = false; bool ambiguous = false; V x; R r = 0; R w = 0; R dirTol = 0; R dw = 0; };
		Spp spp(const Conf& c, const Nbs& nb, const Density& dn, std::size_t i) const
		{
			Spp s;
			if (!f.spp) { return s; }
			const R raw = dn.raw[i].v;
			const R edge = dn.raw[i].tol + EDGE * n0;
			if (raw >= n0 + edge) { return s; }
			if (raw > n0 - edge) { s.ambiguous = true; }
			V dg; R sc = 0, unc = 0;
			for (auto& k : nb[i])
			{
				const R w = W(k.r);
				dg = dg + w * k.dx; sc += w * k.r + 0.1L * (w + re / k.r) * posScale(c, i, k.j) * 1e4L; // 1e-15 of the coordinates
				if (!k.sure) { unc += (w + 1e-9L) * k.r; }
			}
			dg = (1 / n0) * dg; sc /= n0; unc /= n0;
			const R rg = norm(dg);
			const R eps = std::numeric_limits<double>::epsilon();
			const R err = sc * 1e-14L + unc;
			if (rg + err <= eps) { return s; }
			if (rg - err <= eps) { s.ambiguous = true; }
			if (rg <= 0) { s.ambiguous = true; return s; }
			s.exists = true;
			s.w = n0 - raw;
			if (s.w <= 0) { s.w = 0; }
			s.r = re / (s.w + 1);
			s.x = c.x[i] - (s.r / rg) * dg;
			s.dw = dn.raw[i].tol;
			s.dirTol = std::min<R>(2, err / rg) + std::min<R>(2, dn.raw[i].tol / (s.w + 1));
			return s;
		}

		// ---- dn/dt
		Val speed(const Conf& c, const Nbs& nb, const Density& dn, std::size_t i, R dt) const
		{
			Val o;
			if (!f.hs)
			{
				o.v = (dn.n[i].v - n0) / dt; o.tol = (dn.n[i].tol + REL * n0) / dt;
				return o;
			}
			R s = 0, t = 0;
			for (auto& k : nb[i])
			{
				const V du = c.u[k.j] - c.u[i];
				const R a = re * dot(k.dx, du) / (k.r * k.r * k.r);
				const R mag = re * norm(du) / (k.r * k.r);
				s -= a;
				t += REL * (mag * (1 + posScale(c, i, k.j) / k.r) + 3 * re * (std::fabs(c.u[i].c[0]) + std::fabs(c.u[i].c[1]) + std::fabs(c.u[i].c[2])) * 1e-4L / (k.r * k.r));
				if (!k.sure) { t += std::fabs(a) + REL * mag; }
			}
			// a virtual particle has the velocity of i: no contribution
			if (f.spp)
			{
				const R edge = dn.raw[i].tol + EDGE * n0;
				if (dn.raw[i].v < n0 - edge) { return o; }
				if (dn.raw[i].v < n0 + edge) { o.v = s; o.tol = t + std::fabs(s); return o; }
			}
			o.v = s; o.tol = t;
			return o;
		}
		Val ecs(const Val& sp, const Val& n) const
		{
			Val o;
			if (!f.ecs) { return o; }
			const R err = (n.v - n0) / n0, et = (n.tol + REL * n0) / n0;
			o.v = std::fabs(err) * sp.v + std::fabs(sp.v) * err;
			o.tol = 2 * (std::fabs(err) * sp.tol + et * (std::fabs(sp.v) + sp.tol)) + REL * std::fabs(o.v);
			return o;
		}
		bool surface(const Val& n, bool& amb) const
		{
			const R r = n.v / n0;
			amb = std::fabs(r - e.surfaceRatio) <= n.tol / n0 + EDGE;
			return r < e.surfaceRatio;
		}

		// ---- explicit phase: acceleration of fluid particle i
		VVal accel(const Conf& c, const Nbs& nb, std::size_t i) const
		{
			VVal o; V s; R t = 0;
			for (auto& k : nb[i])
			{
				if (c.type[k.j] == DUMMY) { continue; }
				const V du = c.u[k.j] - c.u[i];
				const R co = f.hl ? static_cast<R>(e.nu) * (5 - f.dim) * re / n0 / (k.r * k.r * k.r) : static_cast<R>(e.nu) * 2 * f.dim / lambda / n0 * W(k.r);
				s = s + co * du;
				t += REL * std::fabs(co) * (norm(du) + norm(c.u[i]) * 1e-4L) * (1 + 3 * posScale(c, i, k.j) / k.r);
				if (!k.sure) { t += std::fabs(co) * norm(du) + 1e-12L * norm(du); }
			}
			if (f.central)
			{
				const R r = norm(c.x[i]);
				if (r >= l0 * 0.01L) { s = s + (-static_cast<R>(e.g) / r) * c.x[i]; }
				if (std::fabs(r - l0 * 0.01L) < 1e-9L * l0) { t += e.g; }
			}
			else { s = s + g; }
			o.v = s; o.tol = t + REL * (norm(s) + std::fabs(static_cast<R>(e.g)));
			return o;
		}

		// ---- pressure gradient velocity change of fluid particle i
		VVal gradient(const Conf& c, const Nbs& nb, const Density& dn, std::size_t i, R dt) const
		{
			VVal o; V s; R t = 0;
			const Spp sp = spp(c, nb, dn, i);
			if (f.gc)
			{
				R m[3][3] = {}, sc = 0, amb = 0;
				auto addM = [&](const V& dx, R r, bool sure)
				{
					const R w = W(r);
					for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) { m[a][b] += w / (r * r) * dx.c[a] * dx.c[b]; } }
					sc += w;
					if (!sure) { amb += w + 1e-9L; }
				};
				for (auto& k : nb[i]) { addM(k.dx, k.r, k.sure); }
				if (sp.exists) { addM(sp.x - c.x[i], sp.r, !sp.ambiguous); amb += sp.dirTol * W(sp.r) + sp.dw; }
				R C[3][3]; R cn = 0, det;
				const bool inv = invert(m, C, det);
				for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) { cn = std::max(cn, std::fabs(C[a][b])); } }
				const R scd = f.dim == 2 ? sc * sc : sc * sc * sc;
				const bool degenerate = !inv || std::fabs(det) < 1e-9L * scd;
				const R co = dt * dn.n[i].v / (e.rho * n0);
				R mag = 0;
				auto add = [&](const V& dx, R r, R p, bool sure)
				{
					const R q = (p + c.p[i]) / (r * r) * W(r);
					V cd;
					for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) { cd.c[a] += C[a][b] * dx.c[b]; } }
					s = s + (-co * q) * cd;
					const R mg = co * std::fabs(q) * cn * r * 3;
					mag += mg;
					if (!sure) { t += mg; }
				};
				for (auto& k : nb[i]) { if (c.type[k.j] != DUMMY) { add(k.dx, k.r, c.p[k.j], k.sure); } }
				if (sp.exists) { add(sp.x - c.x[i], sp.r, 0, !sp.ambiguous); t += sp.dirTol * mag + co * std::fabs(c.p[i]) / re * (2 * (sp.w + sp.dw) + 2) * sp.dw * cn * 3; }
				// relative error of the inverse: condition number of m
				const R cond = sc * cn * 9;
				t += mag * (1e-14L * cond * 100 + amb * cn * 9) * 10 + REL * mag * 10;
				if (degenerate) { t += 1e30L; } // singular matrix: the engine switches formula on det == 0 exactly
				o.v = s; o.tol = 4 * t + dn.n[i].tol / n0 * mag;
				return o;
			}
			const R co = dt / e.rho * f.dim / n0;
			auto add = [&](const V& dx, R r, R p, bool sure, R dirTol, R ps)
			{
				const R q = co * (p + c.p[i]) / (r * r) * W(r);
				s = s + (-q) * dx;
				const R mag = (co * (std::fabs(p) + std::fabs(c.p[i])) / r) * (W(r) + 1e-4L * re / r);
				t += REL * mag * (1 + 3 * ps / r) + dirTol * mag;
				if (!sure) { t += mag; }
			};
			for (auto& k : nb[i]) { if (c.type[k.j] != DUMMY) { add(k.dx, k.r, c.p[k.j], k.sure, 0, posScale(c, i, k.j)); } }
			if (sp.exists)
			{
				add(sp.x - c.x[i], sp.r, 0, !sp.ambiguous, sp.dirTol, 0);
				t += co * std::fabs(c.p[i]) / re * (2 * (sp.w + sp.dw) + 2) * sp.dw; // weight and distance vary with the density
			}
			o.v = s; o.tol = 4 * t;
			return o;
		}
		bool invert(const R (&m)[3][3], R (&C)[3][3], R& det) const
		{
			for (auto& r : C) { for (auto& v : r) { v = 0; } }
			if (f.dim == 2)
			{
				const R a = m[0][0], b = m[0][2], c = m[2][0], d2 = m[2][2];
				det = a * d2 - b * c;
				if (det == 0) { C[0][0] = C[2][2] = f.dim / n0; return false; }
				C[0][0] = d2 / det; C[0][2] = -b / det; C[2][0] = -c / det; C[2][2] = a / det;
				return true;
			}
			det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
			if (det == 0) { C[0][0] = C[1][1] = C[2][2] = f.dim / n0; return false; }
			for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++)
			{
				const int a = (j + 1) % 3, b = (j + 2) % 3, p = (i + 1) % 3, q = (i + 2) % 3;
				C[i][j] = (m[a][p] * m[b][q] - m[a][q] * m[b][p]) / det;
			} }
			return true;
		}

		// ---- dynamic stabilisation velocity change of fluid particle i
		// x: positions after the gradient; o: positions before it; xtol: uncertainty of x
		// search: positions at the neighbour search; pairs that came from beyond the search radius may be missed
		VVal stabilise(const Conf& c, const std::vector<V>& orig, const std::vector<V>& search, std::size_t i, R dt, R xtol) const
		{
			VVal o; V s; R t = 0;
			if (!f.ds) { return o; }
			const R co = 1 / (2 * dt * n0);
			for (std::size_t j = 0; j < c.size(); j++)
			{
				if (j == i || c.type[j] == DISABLED || c.type[j] == DUMMY) { continue; }
				const V dx = c.x[j] - c.x[i];
				const R r2 = dot(dx, dx), w = std::max<R>(d * EDGE, 4 * xtol);
				const R r = std::sqrt(r2);
				if (r > d + w || d <= 0) { continue; }
				const V dx0 = orig[j] - orig[i];
				const R r0 = norm(dx0);
				if (r0 <= l0 * 1e-9L) { t += 1e30L; continue; }
				const V ev = (1 / r0) * dx0;
				const R par = dot(dx, ev);
				const V pv = dx - par * ev;
				const R q = d * d - dot(pv, pv);
				const R root = q > 0 ? std::sqrt(q) : 0;
				const R mag = root - par;
				const R scale = posScale(c, i, j) * 1e-11L + xtol;
				const R rt = scale * 8 + (root > 0 ? d * scale * 8 / root : 0) + (root * root < 100 * d * scale ? 20 * std::sqrt(d * scale) : 0);
				t += co * (rt + REL * d + std::fabs(mag) * scale * 8 / r0 );
				if (!(norm(search[j] - search[i]) < nl * (1 - EDGE))) { t += co * (std::fabs(mag) + d); }
				if (std::fabs(r - d) <= w) { t += co * std::fabs(mag); if (r >= d) { continue; } }
				s = s + (-co * mag) * ev;
			}
			o.v = s; o.tol = t + REL * norm(s);
			return o;
		}

		// ---- pressure Poisson equation
		struct Ppe
		{
			std::vector<std::size_t> rows;              // particles with an equation
			std::vector<char> fixed;                    // per particle: 0 unknown, 1 identity row (x = 0), 2 no equation (isolated), 
			std::vector<std::vector<R>> A; std::vector<R> b, btol, x0;
			R atol = 0; bool ambiguous = false;
		};
		Ppe ppe(const Conf& c, const Nbs& nb, const Density& dn, const std::vector<Val>& ec, const std::vector<R>& pPrev, R dt) const
		{
			Ppe q; const auto n = c.size();
			q.fixed.assign(n, 0);
			std::vector<std::size_t> pos(n, n);
			for (std::size_t i = 0; i < n; i++)
			{
				if (c.type[i] == DUMMY || c.type[i] == DISABLED) { q.fixed[i] = 1; continue; }
				if (!f.spp)
				{
					bool amb; const bool sf = surface(dn.n[i], amb);
					if (amb) { q.ambiguous = true; }
					if (sf) { q.fixed[i] = 1; continue; }
				}
				pos[i] = q.rows.size(); q.rows.push_back(i);
			}
			const auto m = q.rows.size();
			q.A.assign(m, std::vector<R>(m, 0)); q.b.resize(m); q.btol.resize(m); q.x0.resize(m);
			for (std::size_t a = 0; a < m; a++)
			{
				const auto i = q.rows[a];
				R diag = 0;
				auto coef = [&](R r) { return f.hl ? (5 - f.dim) * re / n0 / (r * r * r) : 2 * f.dim / lambda / n0 * W(r); };
				for (auto& k : nb[i])
				{
					if (!k.sure) { q.ambiguous = true; }
					if (c.type[k.j] == DUMMY) { continue; }
					const R v = coef(k.r);
					diag -= v;
					if (pos[k.j] < n) { q.A[a][pos[k.j]] += v; }
				}
				const Spp sp = spp(c, nb, dn, i);
				if (sp.ambiguous) { q.ambiguous = true; }
				if (sp.exists) { diag -= coef(sp.r); }
				q.A[a][a] += diag;
				q.atol = std::max(q.atol, std::fabs(diag));
				const Val s = speed(c, nb, dn, i, dt);
				const R k = e.rho / (n0 * dt);
				q.b[a] = -k * (s.v + ec[i].v);
				q.btol[a] = k * (s.tol + ec[i].tol) + REL * std::fabs(q.b[a]);
				q.x0[a] = pPrev[i];
				if (diag == 0) { q.fixed[i] = 2; }
			}
			q.atol *= REL;
			return q;
		}
	};

	// dense LU with partial pivoting; returns false when numerically singular; inv: explicit inverse norm (inf)
	struct Lu
	{
		std::vector<std::vector<R>> a; std::vector<std::size_t> piv; bool ok = true;
		explicit Lu(std::vector<std::vector<R>> m) : a(std::move(m))
		{
			const auto n = a.size(); piv.resize(n);
			for (std::size_t k = 0; k < n; k++)
			{
				std::size_t p = k;
				for (std::size_t i = k + 1; i < n; i++) { if (std::fabs(a[i][k]) > std::fabs(a[p][k])) { p = i; } }
				piv[k] = p;
				if (a[p][k] == 0) { ok = false; return; }
				std::swap(a[p], a[k]);
				for (std::size_t i = k + 1; i < n; i++)
				{
					const R f = a[i][k] / a[k][k];
					a[i][k] = f;
					if (f != 0) { for (std::size_t j = k + 1; j < n; j++) { a[i][j] -= f * a[k][j]; } }
				}
			}
		}
		std::vector<R> solve(std::vector<R> b) const
		{
			const auto n = a.size();
			for (std::size_t k = 0; k < n; k++) { std::swap(b[k], b[piv[k]]); }
			for (std::size_t k = 0; k < n; k++) { for (std::size_t i = k + 1; i < n; i++) { b[i] -= a[i][k] * b[k]; } }
			for (std::size_t k = n; k-- > 0;) { for (std::size_t j = k + 1; j < n; j++) { b[k] -= a[k][j] * b[j]; } b[k] /= a[k][k]; }
			return b;
		}
	};
}
