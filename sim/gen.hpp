// seed -> plan
#pragma once
#include "plan.hpp"
#include <algorithm>

struct Gen
{
	sim::Rng r; EngineFlags f; Plan p; double l0; bool thorough, longRun = false, knots = false, middle = false;
	Gen(unsigned long long seed, const EngineFlags& fl, bool th) : r(sim::mix(seed, 0x9E11)), f(fl), thorough(th) { p.seed = seed; }

	template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + static_cast<long>(r.below(l.size()))); }
	bool is(const char* q) const { return p.prop == q; }

	void add(int type, double x, double y, double z, double jit, int group = 0)
	{
		PlanParticle q{}; q.group = group; q.s.type = type;
		q.s.x[0] = x + jit * r.range(-1, 1);
		q.s.x[1] = f.dim == 3 ? y + jit * r.range(-1, 1) : 0;
		q.s.x[2] = z + jit * r.range(-1, 1);
		p.ps.push_back(q);
	}
	double dist2(const PState& a, const PState& b) const { double s = 0; for (int k = 0; k < 3; k++) { s += (a.x[k] - b.x[k]) * (a.x[k] - b.x[k]); } return s; }
	void separate(double minDist)
	{
		std::vector<PlanParticle> keep;
		for (auto& q : p.ps)
		{
			bool ok = true;
			for (auto& k : keep) { if (dist2(k.s, q.s) < minDist * minDist) { ok = false; break; } }
			if (ok) { keep.push_back(q); }
		}
		p.ps = keep;
	}
	int ydim(int n) const { return f.dim == 3 ? n : 1; }

	void block(int type, double ox, double oy, double oz, int nx, int nz, double jit, double ux = 0, double uz = 0)
	{
		const auto first = p.ps.size();
		for (int i = 0; i < nx; i++) { for (int j = 0; j < ydim(std::min(nx, 3)); j++) { for (int k = 0; k < nz; k++)
		{
			add(type, ox + i * l0, oy + j * l0, oz + k * l0, jit);
		} } }
		for (auto i = first; i < p.ps.size(); i++) { p.ps[i].s.u[0] = ux; p.ps[i].s.u[2] = uz; }
	}

	// the search grid alone
	void gridPlan()
	{
		auto& e = p.env;
		p.family = "grid";
		const double nl = e.re * l0 * (1 + 2 * e.courant);
		const double per = std::ceil(nl / l0) + 1;
		const int cap = static_cast<int>(f.dim == 3 ? per * per * per : per * per);
		int b[3];
		for (int k = 0; k < 3; k++)
		{
			b[k] = f.dim == 2 && k == 1 ? 1 : 1 + static_cast<int>(r.below(r.chance(0.7) ? 4 : 9));
			e.min[k] = r.chance(0.3) ? 0 : l0 * r.range(-50, 50);
			e.max[k] = e.min[k] + nl * (b[k] - (r.chance(0.4) ? 0.0 : r.uni()));
		}
		if (f.dim == 2) { e.min[1] = e.max[1] = 0; }
		auto coord = [&](int k)
		{
			if (f.dim == 2 && k == 1) { return 0.0; }
			const double c = static_cast<double>(r.below(static_cast<unsigned>(b[k]) + 1));
			switch (r.below(12))
			{
			case 0: return e.min[k];
			case 1: return e.max[k];
			case 2: return e.min[k] + c * nl;
			case 3: return std::nextafter(e.min[k] + c * nl, -1e9);
			case 4: return e.max[k] + nl * r.range(0, 3.5);
			case 5: return e.min[k] - l0 * r.range(0, 4);
			default: return r.range(e.min[k], e.max[k]);
			}
		};
		int g = 0;
		auto group = [&](bool inside)
		{
			const int n = r.chance(0.1) ? static_cast<int>(r.below(2)) : 1 + static_cast<int>(r.below(40));
			const int mode = static_cast<int>(r.below(4));
			double cell[3];
			for (int k = 0; k < 3; k++) { cell[k] = e.min[k] + nl * static_cast<double>(r.below(static_cast<unsigned>(b[k]))); }
			const int lim = r.chance(0.4) ? cap + 1 + static_cast<int>(r.below(5)) : cap - 2;
			for (int i = 0; i < (mode == 0 ? lim : n); i++)
			{
				double x[3];
				for (int k = 0; k < 3; k++)
				{
					x[k] = mode == 0 || mode == 1 ? cell[k] + nl * r.range(0.001, mode == 0 ? 0.999 : 1.999) : coord(k);
					if (inside) { x[k] = std::max(e.min[k], std::min(e.max[k], x[k])); }
				}
				add(0, x[0], x[1], x[2], 0, g);
			}
			return g++;
		};
		const int rounds = 1 + static_cast<int>(r.below(3));
		for (int k = 0; k < rounds; k++)
		{
			Op o; o.kind = "gclear"; p.ops.push_back(o);
			const int m = 1 + static_cast<int>(r.below(3));
			for (int i = 0; i < m; i++)
			{
				Op st; st.kind = "gstore"; st.v = r.chance(0.85); st.g = group(false); p.ops.push_back(st);
				if (r.chance(0.8)) { Op q; q.kind = "gquery"; q.v = r.chance(0.4); q.g = r.chance(0.4) ? st.g : group(true); p.ops.push_back(q); }
			}
		}
		schedule();
	}

	Plan make(const std::string& prop)
	{
		p.prop = prop;
		auto& e = p.env;
		l0 = e.l0 = r.chance(0.6) ? 0.1 : pick({ 0.008, 1.0, 0.0123, 0.37 });
		e.re = r.chance(0.55) ? 2.4 : pick({ 2.1, 2.9, 3.1, 2.0, 1.7 });
		if (f.dim == 3) { e.re = pick({ 2.1, 2.1, 1.7, 2.4 }); }
		e.courant = r.chance(0.6) ? 0.1 : pick({ 0.2, 0.05, 0.3, 0.01 });
		e.g = r.chance(0.75) ? 9.8 : pick({ 0.0, 1.6, 100.0, -9.8 });
		e.rho = pick({ 1000.0, 998.2, 1.0 });
		e.nu = pick({ 1e-6, 1e-6, 0.01, 1.0, 0.0 }) * (r.chance(0.5) ? 1 : l0);
		e.surfaceRatio = pick({ 0.97, 0.95, 0.8 });
		e.c = pick({ 1.5, 15.0, 100.0 });
		e.eps = pick({ 1e-6, 1e-8, 1e-10 });
		const double ffDt = std::sqrt(2 * e.courant * l0 / std::max(e.g, 0.1));
		e.maxDt = r.chance(0.5) ? ffDt * 2 : ffDt * pick({ 0.5, 0.1, 0.01 });
		p.fill = static_cast<int>(pick({ 0xA5, 0xFF, 0x00, 0x7F }));
		p.vclMin = 5000;

		if (is("C13")) { gridPlan(); return p; }
		const double jit = l0 * pick({ 0.0, 1e-3, 0.05, 0.2, 0.02 });
		double jitter = jit;
		const bool still = is("C24") && r.chance(0.2); // a lattice at rest without gravity
		if (is("C01") || is("C10") || is("C12") || is("C14") || is("C04")) { jitter = std::max(jit, 1e-3 * l0); }
		const double fastU = e.courant * l0 / ffDt;   // velocity at which the CFL limit starts to act
		double umax = fastU * pick({ 0.0, 0.1, 1.0, 5.0, 50.0 });
		double ox = 0, oz = 0, oy = 0;
		if (r.chance(0.4)) { ox = l0 * r.range(-50, 50); oz = l0 * r.range(-50, 50); oy = l0 * r.range(-50, 50); }
		else if (r.chance(0.1)) { ox = l0 * r.range(-5000, 5000); oz = l0 * r.range(-5000, 5000); }
		if (f.dim == 2) { oy = 0; }

		int fam = static_cast<int>(r.below(10));
		if (is("C04")) { fam = r.chance(0.8) ? 4 : fam; }
		if (is("C02") && r.chance(0.5)) { fam = pick({ 0, 3, 5, 6 }); }
		if ((is("C14") || is("C12") || is("C10") || is("C01")) && r.chance(0.6)) { fam = pick({ 0, 3, 0, 1 }); }
		if ((is("C12") || is("C24")) && r.chance(0.15)) { fam = 10; }
		if (still) { fam = 0; jitter = 0; umax = 0; e.g = 0; }
		if ((is("C03") || is("C08") || is("C09")) && r.chance(is("C03") ? 0.08 : 0.03)) { fam = 11; }
		if (f.gc && (is("C09") ? r.chance(0.2) : is("C14") && r.chance(0.1))) { fam = 12; }
		longRun = !is("C01") && !is("C24") && !is("C25") && r.chance(is("C10") || is("C11") || is("C05") ? 0.03 : 0.012);
		if (longRun) { fam = 8; }
		const bool small = is("C01") || is("C02") || is("C25") || is("C06");
		const int big = thorough ? 12 : 8;
		double margin = l0 * r.range(0.2, 8);
		static const char* names[] = { "dam", "drop", "edge", "movingwall", "eject", "collide", "dense", "mixed", "few", "clusters", "crush", "knots", "line" };
		p.family = names[fam];
		const int w = 2 + static_cast<int>(r.below(static_cast<unsigned>(small ? 4 : big - 2))), hgt = 2 + static_cast<int>(r.below(static_cast<unsigned>(small ? 4 : big - 2)));
		double sep = 0.35 * l0;
		if (r.chance(0.1)) { sep = 0.12 * l0; }

		auto walls = [&](int nx, int nz, int layers)
		{
			// floor and side walls around the block [0,nx) x [0,nz)
			for (int i = -layers; i < nx + layers; i++) { for (int j = 0; j < ydim(3); j++) { for (int k = -layers; k < nz + 1; k++)
			{
				const bool inside = i >= 0 && i < nx && k >= 0;
				if (inside) { continue; }
				const bool wall = i >= -1 && i <= nx && k >= -1;
				add(wall ? 1 : 2, ox + i * l0, oy + j * l0, oz + k * l0, 0);
			} } }
		};

		switch (fam)
		{
		case 0: case 3:
			walls(w, hgt, f.dim == 3 ? 1 : 1 + static_cast<int>(r.below(3)));
			block(0, ox, oy, oz, w, hgt, jitter);
			if (fam == 3) { p.wallKind = pick({ 2, 3, 2, 1 }); }
			// walls moved as a function of time would see a different time in a newly created computer
			if (p.wallKind == 1 && (is("C04") || is("C10") || is("C12"))) { p.wallKind = 2; }
			break;
		case 1:
			block(0, ox, oy, oz, w, hgt, jitter);
			break;
		case 2:
		{
			// particles placed on and next to cell borders and domain edges
			const double nl = e.re * l0 * (1 + 2 * e.courant);
			const int n = 6 + static_cast<int>(r.below(40));
			e.min[0] = ox; e.min[1] = oy; e.min[2] = oz;
			const int bx = 1 + static_cast<int>(r.below(4)), bz = 1 + static_cast<int>(r.below(4)), by = ydim(1 + static_cast<int>(r.below(2)));
			const double frac = r.chance(0.5) ? 0.0 : r.uni();
			e.max[0] = ox + nl * (bx - frac); e.max[1] = oy + nl * (by - frac); e.max[2] = oz + nl * (bz - frac);
			for (int i = 0; i < n; i++)
			{
				auto coord = [&](double mn, double mx, int b)
				{
					const int m = static_cast<int>(r.below(6));
					const double k = static_cast<double>(r.below(static_cast<unsigned>(b) + 1));
					if (m == 0) { return mn; }
					if (m == 1) { return mx; }
					if (m == 2) { return std::min(mn + k * nl, mx); }
					if (m == 3) { return std::max(mn, std::min(mx, mn + k * nl + r.range(-1, 1) * l0)); }
					return r.range(mn, mx);
				};
				const int t = static_cast<int>(r.below(10));
				add(t < 6 ? 0 : t < 8 ? 1 : 2, coord(e.min[0], e.max[0], bx), coord(e.min[1], e.max[1], by), coord(e.min[2], e.max[2], bz), 0);
			}
			margin = 0;
			break;
		}
		case 4:
		{
			if (r.chance(0.7)) { walls(w, hgt, 1); }
			block(0, ox, oy, oz, w, hgt, jitter);
			const int n = 1 + static_cast<int>(r.below(4));
			for (int i = 0; i < n; i++)
			{
				const int t = static_cast<int>(r.below(8));
				add(t < 5 ? 0 : t < 7 ? 1 : 2, ox + l0 * r.range(-3, w + 3), oy, oz + l0 * (hgt + r.range(0.6, 4)), 0);
				auto& q = p.ps.back().s;
				const double sp = fastU * pick({ 1.0, 10.0, 100.0 });
				q.u[0] = sp * r.range(-1, 1); q.u[2] = sp * r.range(-1, 1);
			}
			margin = l0 * r.range(0.05, 1.5);
			if (r.chance(0.2)) { p.wallKind = 4; p.wallA[0] = l0 * e.courant * r.range(-2, 2); p.wallA[2] = l0 * e.courant * r.range(-2, 2); }
			break;
		}
		case 5:
		{
			const double v = fastU * pick({ 1.0, 5.0, 30.0 });
			block(0, ox, oy, oz, w, hgt, jitter, v, 0);
			block(0, ox + (w + e.re * (1 + r.range(-0.6, 2.2 * e.courant)) - 1) * l0, oy, oz + l0 * r.range(-1, 1), w, hgt, jitter, -v, 0);
			break;
		}
		case 6: case 7:
		{
			const int n = 10 + static_cast<int>(r.below(small ? 25 : thorough ? 120 : 70));
			const double box = l0 * std::pow(n, 1.0 / f.dim) * (fam == 6 ? r.range(0.75, 1.0) : r.range(1.0, 2.0));
			for (int i = 0; i < n; i++)
			{
				const int t = fam == 6 ? (r.chance(0.9) ? 0 : 1) : static_cast<int>(r.below(3));
				add(t, ox + r.range(0, box), oy + r.range(0, box), oz + r.range(0, box), 0);
			}
			if (fam == 6) { sep = 0.55 * l0; }
			if (fam == 7 && r.chance(0.3)) { p.wallKind = 3; }
			break;
		}
		case 8:
		{
			const int n = static_cast<int>(r.below(4)) + (is("C05") && r.chance(0.2) ? 0 : 1) + (longRun ? static_cast<int>(r.below(8)) : 0);
			for (int i = 0; i < n; i++) { add(static_cast<int>(r.below(3)), ox + l0 * r.range(0, longRun ? 8 : 3), oy, oz + l0 * r.range(0, longRun ? 8 : 3), 0); }
			break;
		}
		case 10:
		{
			// so dense that cells of the search grid may overflow
			const double pitch = l0 * r.range(0.55, 0.85);
			const int m = 4 + static_cast<int>(r.below(4));
			for (int i = 0; i < m; i++) { for (int k = 0; k < m; k++)
			{
				add(r.chance(0.9) ? 0 : 1, ox + pitch * i, oy, oz + pitch * k, 0.1 * pitch);
				auto& q = p.ps.back().s;
				if (q.type == 0) { q.u[0] = fastU * 5 * (0.5 * m - i); q.u[2] = fastU * 5 * (0.5 * m - k); }
			} }
			sep = 0.3 * l0;
			break;
		}
		case 12:
		{
			// almost in a straight line: the correction matrix is close to singular
			const int n = 3 + static_cast<int>(r.below(12)); const double off = l0 * pick({ 0.1, 1e-2, 3e-3, 1e-3, 5e-4, 2e-4, 1e-4 });
			const bool up = r.chance(0.5);
			// close enough together for a pressure of their own, most of the time
			const double lo = r.chance(0.75) ? pick({ 0.3, 0.36, 0.42 }) : 0.75;
			double at = 0; sep = 0.28 * l0;
			for (int i = 0; i < n; i++)
			{
				const double o[2] = { off * r.range(-1, 1), off * r.range(-1, 1) };
				add(r.chance(0.85) ? 0 : 1, up ? ox + o[0] : ox + at, oy + (f.dim == 3 ? o[1] : 0), up ? oz + at : oz + o[0], 0);
				at += l0 * r.range(lo, 1.3 * lo);
			}
			break;
		}
		case 11:
		{
			// knots of many particles around corners of the cells of the search grid, each cell still within its capacity
			if (f.dim == 3) { e.re = pick({ 1.5, 1.3, 1.2 }); e.courant = 0.01; }
			const double nl = e.re * l0 * (1 + 2 * e.courant);
			const int per = static_cast<int>(std::ceil(nl / l0)) + 1, cap = f.dim == 3 ? per * per * per : per * per;
			margin = nl; knots = true; sep = 0.1 * l0;
			if (r.chance(0.5))
			{
				// as many as possible within reach of one particle: every cell around it full on the near side
				const int m = std::min(cap - 1, f.dim == 3 ? 22 : 15) - static_cast<int>(r.below(4));
				add(0, ox, oy, oz, 0);
				for (int i = -1; i <= 1; i++) { for (int j = f.dim == 3 ? -1 : 0; j <= (f.dim == 3 ? 1 : 0); j++) { for (int k = -1; k <= 1; k++)
				{
					for (int q = 0, tries = 0; q < m && tries < 4000; tries++)
					{
						double x[3] = { nl * (i + r.range(-0.49, 0.49)), f.dim == 3 ? nl * (j + r.range(-0.49, 0.49)) : 0.0, nl * (k + r.range(-0.49, 0.49)) };
						if (x[0] * x[0] + x[1] * x[1] + x[2] * x[2] >= nl * nl * 0.99) { continue; }
						add(r.chance(0.9) ? 0 : 1, ox + x[0], oy + x[1], oz + x[2], 0); q++;
					}
				} } }
				sep = 0.01 * l0; middle = true;
				break;
			}
			const int c = 1 + static_cast<int>(r.below(3));
			for (int q = 0; q < c; q++)
			{
				const double pitch = l0 * r.range(0.15, 0.45);
				const int m = std::min(per * 2 - static_cast<int>(r.below(4)), static_cast<int>(nl * 1.4 / pitch));
				for (int i = 0; i < m; i++) { for (int k = 0; k < m; k++)
				{
					add(r.chance(0.9) ? 0 : 1, ox + nl * 3 * q + pitch * (i - 0.5 * (m - 1)), oy, oz + pitch * (k - 0.5 * (m - 1)), 0.02 * pitch);
				} }
			}
			break;
		}
		case 9:
		{
			const int c = 2 + static_cast<int>(r.below(4));
			for (int k = 0; k < c; k++)
			{
				block(r.chance(0.8) ? 0 : 1, ox + l0 * r.range(0, 15), oy, oz + l0 * r.range(0, 15), 1 + static_cast<int>(r.below(3)), 1 + static_cast<int>(r.below(3)), jitter);
			}
			break;
		}
		}
		separate(sep);
		if (p.wallKind == 2) { p.wallA[0] = l0 * e.courant * r.range(-0.5, 0.5); p.wallA[2] = l0 * e.courant * r.range(-0.5, 0.5); }
		if (p.wallKind == 3) { p.wallA[0] = l0 * e.courant * 0.5; p.wallA[2] = l0 * e.courant * 0.5; }
		// walls faster than the fluid, so that they limit the time step
		if ((is("C05") || is("C01") || is("C06")) && (p.wallKind == 2 || p.wallKind == 3) && r.chance(0.5)) { const double c = r.range(1, 4); p.wallA[0] *= c; p.wallA[2] *= c; }
		if (p.wallKind == 1) { p.wallA[0] = l0 * r.range(0, 0.3); p.wallA[2] = 0; p.wallA[3] = pick({ 1.0, 10.0 }) / ffDt * 0.02; }

		if (fam != 2)
		{
			for (int k = 0; k < 3; k++)
			{
				double mn = 1e300, mx = -1e300;
				for (auto& q : p.ps) { mn = std::min(mn, q.s.x[k]); mx = std::max(mx, q.s.x[k]); }
				if (p.ps.empty()) { mn = 0; mx = l0; }
				e.min[k] = mn - margin; e.max[k] = mx + margin;
			}
			if (fam == 4)
			{
				// some start outside
				if (r.chance(0.3) && !p.ps.empty())
				{
					const int n = 1 + static_cast<int>(r.below(3));
					for (int i = 0; i < n; i++)
					{
						auto& q = p.ps[r.below(p.ps.size())].s;
						const double nl = e.re * l0 * (1 + 2 * e.courant);
						q.x[pick({ 0, 2 })] = r.chance(0.5) ? (r.chance(0.5) ? e.min[0] : e.min[2]) - l0 * r.range(0.01, 5) : std::max(e.max[0], e.max[2]) + nl * r.range(3.01, 6);
					}
				}
			}
		}
		if (knots)
		{
			// cell borders through the middle of the knots
			const double nl = e.re * l0 * (1 + 2 * e.courant);
			const double h = middle ? 1.5 : 2;
			e.min[0] = ox - nl * h; e.min[2] = oz - nl * h; if (f.dim == 3) { e.min[1] = oy - nl * 1.5; }
			for (int k = 0; k < 3; k += 2) { e.max[k] = std::max(e.max[k], e.min[k] + nl * 4); }
		}
		if (f.dim == 2) { e.min[1] = e.max[1] = 0; }

		// velocities, pressures, densities
		const double pm = e.rho * std::max(e.g, 1.0) * l0 * 5;
		const int vmode = static_cast<int>(r.below(3));
		for (auto& q : p.ps)
		{
			auto& s = q.s;
			if (vmode > 0 && fam != 4 && fam != 5 && fam != 10 && s.type == 0)
			{
				const double sc = vmode == 1 ? umax * 0.3 : umax;
				s.u[0] += sc * r.range(-1, 1); s.u[2] += sc * r.range(-1, 1);
				if (f.dim == 3) { s.u[1] += sc * r.range(-1, 1); }
			}
			else if (s.type == 0 && fam != 4 && fam != 5 && fam != 10) { s.u[2] -= umax * 0.1; }
			s.p = r.chance(0.7) ? pm * r.uni() : 0;
			s.n = r.range(0, 10);
			if (s.type == 2) { s.p = r.chance(0.5) ? pm * r.uni() : 0; }
		}
		if (r.chance(0.08) && !p.ps.empty()) { p.ps[r.below(p.ps.size())].s.type = 3; } // already disabled in the input

		// any state may be given: pressures below zero, walls and disabled particles with velocities
		if (r.chance(0.2)) { for (auto& q : p.ps) { if (r.chance(0.3)) { q.s.p = -pm * r.uni(); } } }
		if (r.chance(0.15))
		{
			const double sc = umax * r.range(0, 2);
			for (auto& q : p.ps) { if (q.s.type != 0 && r.chance(0.5)) { q.s.u[0] = sc * r.range(-1, 1); q.s.u[2] = sc * r.range(-1, 1); if (f.dim == 3) { q.s.u[1] = sc * r.range(-1, 1); } } }
		}

		// a border through the scene: particles beyond the lower one are outside, those beyond the upper one in the cells around the domain or outside
		if (!knots && fam != 2 && (is("C05") || is("C03") || is("C04") || is("C06") || is("C10") || is("C01")) && r.chance(is("C05") ? 0.15 : 0.06) && !p.ps.empty())
		{
			const int k = f.dim == 3 ? static_cast<int>(r.below(3)) : 2 * static_cast<int>(r.below(2));
			double mn = 1e300, mx = -1e300; for (auto& q : p.ps) { mn = std::min(mn, q.s.x[k]); mx = std::max(mx, q.s.x[k]); }
			const double w = (mx - mn) * r.range(0.02, 0.4);
			const bool upper = r.chance(0.7);
			const bool room = upper ? mx - w > e.min[k] + 0.1 * l0 : mn + w < e.max[k] - 0.1 * l0;
			if (room) { (upper ? e.max[k] : e.min[k]) = upper ? mx - w : mn + w; }
			if (room && r.chance(0.7))
			{
				// the fastest particle is among those
				for (auto& q : p.ps) { if (q.s.type != 3 && (upper ? q.s.x[k] > e.max[k] : q.s.x[k] < e.min[k])) { const double c = r.range(1, 4); for (auto& v : q.s.u) { v *= c; } q.s.u[k == 0 ? 2 : 0] += std::max(umax, is("C05") ? 1.5 * fastU : 0.0) * c; break; } }
			}
		}

		if (still) { for (auto& q : p.ps) { for (auto& v : q.s.u) { v = 0; } q.s.p = 0; } p.wallKind = 0; }

		// groups: which addition each particle belongs to
		int groups = 1;
		if (is("C11")) { groups = 1 + static_cast<int>(r.below(5)); }
		else if (r.chance(0.2)) { groups = 2; }
		// additions in list order
		if (groups > 1 && !p.ps.empty())
		{
			std::vector<std::size_t> cut;
			for (int k = 1; k < groups; k++) { cut.push_back(r.below(p.ps.size() + 1)); }
			std::sort(cut.begin(), cut.end());
			for (std::size_t i = 0; i < p.ps.size(); i++)
			{
				int g = 0;
				while (g < groups - 1 && i >= cut[static_cast<std::size_t>(g)]) { g++; }
				p.ps[i].group = g;
			}
		}

		stillScene = still;
		ops(groups);
		schedule();
		if (is("C07"))
		{
			e.eps = pick({ 1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-10, 1e-12, 1e-13, 0.0, 1e-170, 0.5 });
		}
		if (p.vclMin < 5000 && !is("C07")) { e.eps = pick({ 1e-10, 1e-11 }); } // sums in another order: results agree only as far as the solver goes
		if (((is("C12") || (is("C24") && !still)) && r.chance(0.35)) || (is("C25") && r.chance(0.15))) { e.eps = pick({ 1e-15, 1e-17, 1e-20, 1e-14 }); } // not reachable: solver failure
		if (is("C10") && p.vclMin >= 5000 && r.chance(0.4)) { e.eps = pick({ 1e-1, 1e-2, 1e-4 }); } // the same arithmetic on both sides: equal at any tolerance
		else if (is("C01") || is("C10") || is("C14") || is("C04") || is("C11")) { e.eps = p.vclMin < 5000 ? pick({ 1e-10, 1e-11 }) : pick({ 1e-8, 1e-10 }); }
		if (is("C05") && r.chance(0.3)) { e.maxDt = ffDt * pick({ 1e-3, 1e3, 1.0 }); }
		return p;
	}

	bool stillScene = false;
	void ops(int groups)
	{
		int steps = 2 + static_cast<int>(r.below(4));
		if (r.chance(0.1)) { steps = thorough ? 40 : 12; }
		if (is("C01") || is("C02")) { steps = 1 + static_cast<int>(r.below(3)); }
		if (is("C04")) { steps = 3 + static_cast<int>(r.below(8)); }
		if (is("C05") || is("C10")) { steps = 3 + static_cast<int>(r.below(5)); }
		if (knots) { steps = std::min(steps, 3); }
		if (longRun) { steps = 60 + static_cast<int>(r.below(90)); }
		if (stillScene) { steps = 8 + static_cast<int>(r.below(20)); }
		if (is("C24") && r.chance(0.25)) { Op o; o.kind = "make"; o.failAlloc = static_cast<long long>(r.below(6)); p.ops.push_back(o); }
		int nextG = 0;
		auto addG = [&](int count)
		{
			for (int k = 0; k < count && nextG < groups; k++)
			{
				Op o; o.kind = "add"; o.g = nextG++;
				if ((is("C11") || is("C24")) && r.chance(0.35)) { o.failAlloc = static_cast<long long>(r.below(7)); o.v = r.chance(0.3) ? 1 : 0; }
				p.ops.push_back(o);
				if (is("C11") && r.chance(0.1)) { Op z; z.kind = "add"; z.g = 1000; p.ops.push_back(z); } // empty addition
			}
		};
		addG(1 + static_cast<int>(r.below(static_cast<unsigned>(groups))));
		for (int s = 0; s < steps; s++)
		{
			Op o; o.kind = "step";
			if (r.chance(0.2)) { o.kind = "stepdt"; o.v = r.range(0.05, 1); if ((is("C05") || is("C06") || is("C08") || is("C09")) ? r.chance(0.3) : (is("C01") || is("C04") || is("C10") || is("C12")) && r.chance(0.1)) { o.v = r.range(1, 4); } } // longer than the adaptive step, too
			if (is("C25") && r.chance(0.08)) { o.preThrow = true; }
			if (is("C12") || (is("C24") && !stillScene))
			{
				if (r.chance(0.45) && (is("C12") || !f.vcl || f.pexp)) { o.failAlloc = static_cast<long long>(r.below(static_cast<unsigned long long>(pick({ 6, 40, 40, 200 })))); } // C24: ViennaCL itself loses a block when its reference count cannot be allocated
				else if (r.chance(0.3)) { o.preThrow = true; }
			}
			p.ops.push_back(o);
			if ((is("C10") || is("C11") || is("C25") || (is("C24") && !stillScene)) && r.chance(0.15)) { Op c; c.kind = "move"; p.ops.push_back(c); }
			if (is("C10") && r.chance(0.4)) { Op c; c.kind = "fresh"; p.ops.push_back(c); }
			if (nextG < groups && r.chance(0.6)) { addG(1 + static_cast<int>(r.below(2))); }
		}
		if (nextG < groups) { addG(groups); Op o; o.kind = "step"; p.ops.push_back(o); }
		if (is("C12")) { Op o; o.kind = "step"; p.ops.push_back(o); p.ops.push_back(o); }
	}

	void schedule()
	{
		auto& s = p.sched;
		s.seed = r.next() >> 1;
		const bool heavy = is("C01") || is("C02") || is("C25") || is("C06") || is("C13");
		if (!heavy && r.chance(0.4)) { s.threads = 1; return; }
		s.threads = 2 + static_cast<int>(r.below(r.chance(0.7) ? 3 : 7));
		s.varyTeam = r.chance(0.3);
		s.uneven = r.chance(0.5);
		s.policy = static_cast<int>(r.below(sim::POLICY_COUNT));
		s.mean = pick({ 2.0, 8.0, 40.0, 200.0, 2000.0 });
		s.maxSwitches = heavy ? 20000 : 3000;
		if (f.vcl && f.omp && (is("C01") || is("C02") || is("C12") || is("C07") || is("C10") || is("C24")) && r.chance(0.5)) { p.vclMin = pick({ 0, 4, 20 }); }
	}
};
