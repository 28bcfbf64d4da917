// Executes one plan against the real engine and judges it.
#pragma once
#include "plan.hpp"
#include "ref.hpp"
#include <memory>
#include <set>
#include <array>
#include <cstdarg>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>

// C14: the engine of another build
IEngine* make_engine_alt(const EnvParams& e, WallCb* w) __attribute__((weak));
EngineFlags engine_flags_alt() __attribute__((weak));
extern std::size_t sim_vcl_min __attribute__((weak));

struct Violation { std::string cls, msg; };

// ---- wall callback: seam the engine already has
struct Wall final : WallCb
{
	const Plan& plan;
	std::vector<std::array<double, 3>> init;       // initial position of every particle
	std::vector<std::size_t> map;                  // engine index -> plan index (identity when empty)
	long long stepNo = 0;
	bool throwNext = false;
	bool record = false;
	// record of the current step
	struct Call { std::size_t i; double t, dt; std::array<double, 3> x; bool preSeen; };
	std::vector<Call> calls; std::vector<std::pair<double, double>> pres;

	explicit Wall(const Plan& p) : plan(p) {}
	void pre(double t, double dt) override
	{
		sim::AllocPauser ap;
		stepNo++;
		if (record) { pres.push_back({ t, dt }); }
		if (throwNext) { throwNext = false; throw UserError{ 1 }; }
	}
	std::array<double, 3> at(std::size_t i, double t) const
	{
		auto x = init[i];
		const auto& a = plan.wallA;
		switch (plan.wallKind)
		{
		case 1: { const double s = std::sin(a[3] * t); x[0] += a[0] * s; x[2] += a[2] * s; break; }
		case 2: x[0] += a[0] * static_cast<double>(stepNo); x[2] += a[2] * static_cast<double>(stepNo); break;
		case 3: x[0] += a[0] * std::sin(static_cast<double>(i) * 1.3 + static_cast<double>(stepNo) * 0.7); x[2] += a[2] * std::cos(static_cast<double>(i) * 2.1 + static_cast<double>(stepNo) * 0.9); break;
		case 4: x[0] += a[0] * static_cast<double>(stepNo); x[2] += a[2] * static_cast<double>(stepNo); break;
		default: break;
		}
		return x;
	}
	void pos(std::size_t i, double t, double dt, double* out) override
	{
		sim::AllocPauser ap;
		sim::yield_point();
		const auto k = map.empty() ? i : (i < map.size() ? map[i] : static_cast<std::size_t>(-1));
		std::array<double, 3> x{ { 0, 0, 0 } };
		if (k < init.size()) { x = at(k, t); }
		out[0] = x[0]; out[1] = x[1]; out[2] = x[2];
		if (record) { calls.push_back(Call{ i, t, dt, x, !pres.empty() }); }
	}
};

struct Snap { std::string name; std::vector<PState> s; };
struct Instance
{
	std::unique_ptr<Wall> wall; std::unique_ptr<IEngine> e;
};
static Instance* g_marked = nullptr;               // instance whose phases are recorded
static std::vector<Snap> g_snaps;
static unsigned long long g_marks = 0;

extern "C" void openmps_sim_phase(const char* name)
{
	sim::AllocPauser ap;
	g_marks++;
	if (g_marked && g_marked->e && !sim::in_parallel()) { g_snaps.push_back(Snap{ name, g_marked->e->all() }); }
}

struct Exec
{
	const Plan& plan; EngineFlags f; ref::Model model;
	std::vector<Violation> viol;
	std::map<std::string, long long> probe;        // reach counters
	sim::u64 hash = 0xCBF29CE484222325ull;
	double simTime = 0; long long steps = 0;
	std::string dump; bool wantDump = false;
	bool stop = false;

	Exec(const Plan& p) : plan(p), f(engine_flags()), model(f, p.env) {}

	void fail(const std::string& cls, const std::string& msg)
	{
		for (auto& v : viol) { if (v.cls == cls) { return; } }
		viol.push_back(Violation{ cls, msg });
	}
	bool is(const char* q) const { return plan.prop == q; }
	void h(sim::u64 v) { hash = (hash ^ v) * 0x100000001B3ull; hash ^= hash >> 31; }
	void hd(double d) { sim::u64 v; std::memcpy(&v, &d, 8); h(v); }
	void hashState(const std::vector<PState>& s)
	{
		for (auto& q : s) { h(static_cast<sim::u64>(q.type)); for (int k = 0; k < 3; k++) { hd(q.x[k]); hd(q.u[k]); } hd(q.p); hd(q.n); }
	}

	Instance make(const std::vector<std::size_t>& map = {}, const Wall* from = nullptr, bool alt = false)
	{
		Instance i;
		i.wall.reset(new Wall(plan));
		if (from) { i.wall->init = from->init; i.wall->stepNo = from->stepNo; }
		i.wall->map = map;
		i.e.reset(alt ? make_engine_alt(plan.env, i.wall.get()) : make_engine(plan.env, i.wall.get()));
		return i;
	}
	// engine loaded with the given particles
	Instance fresh(const Instance& src, const std::vector<PState>& s, const std::vector<std::size_t>& keep = {}, bool subset = false)
	{
		std::vector<std::size_t> map;
		if (subset) { for (auto k : keep) { map.push_back(src.wall->map.empty() ? k : src.wall->map[k]); } }
		else { map = src.wall->map; }
		Instance i = make(map, src.wall.get());
		if (subset && map.empty()) { i.wall->map.push_back(static_cast<std::size_t>(-1)); }
		std::vector<PState> v;
		if (subset) { for (auto k : keep) { v.push_back(s[k]); } } else { v = s; }
		i.e->add(v.data(), v.size());
		return i;
	}

	static bool finite(const std::vector<PState>& s, double lim)
	{
		for (auto& q : s)
		{
			for (int k = 0; k < 3; k++) { if (!(std::fabs(q.x[k]) < lim) || !(std::fabs(q.u[k]) < 1e100)) { return false; } }
			if (!(std::fabs(q.p) < 1e100) || !(std::fabs(q.n) < 1e100)) { return false; }
		}
		return true;
	}

	static std::string fmt(const char* f_, ...) __attribute__((format(printf, 1, 2)))
	{
		char b[600]; va_list ap; va_start(ap, f_); std::vsnprintf(b, sizeof b, f_, ap); va_end(ap); return b;
	}

	// within the comparison's tolerance of where particles are retired
	mutable bool edgeFlip = false;
	bool atEdge(const PState& q, double rel) const
	{
		for (int k = 0; k < 3; k++)
		{
			if (f.dim == 2 && k == 1) { continue; }
			const double nl = static_cast<double>(model.nl), w = rel * (plan.env.l0 + std::fabs(q.x[k])) * 10;
			const double top = plan.env.min[k] + (std::ceil((plan.env.max[k] - plan.env.min[k]) / nl) + 2) * nl;
			if (std::fabs(q.x[k] - plan.env.min[k]) <= w || std::fabs(q.x[k] - top) <= w) { return true; }
		}
		return false;
	}
	// ---- comparing two computers. rel 0: bit for bit
	bool same(const std::vector<PState>& a, const std::vector<PState>& b, double rel, std::string& why) const
	{
		if (a.size() != b.size()) { why = fmt("%zu particles instead of %zu", b.size(), a.size()); return false; }
		double su = 0, sp = 0, sx = plan.env.l0;
		for (auto& q : a) { for (int k = 0; k < 3; k++) { su = std::max(su, std::fabs(q.u[k])); } sp = std::max(sp, std::fabs(q.p)); }
		// pressures are also measured against the hydrostatic one of a spacing
		sp = std::max(sp, plan.env.rho * std::max(plan.env.g, 0.1) * plan.env.l0);
		su = std::max(su, plan.env.courant * plan.env.l0 / plan.env.maxDt);
		for (std::size_t i = 0; i < a.size(); i++)
		{
			if (a[i].type != b[i].type && rel > 1e-6 && (a[i].type == ref::DISABLED || b[i].type == ref::DISABLED) && (atEdge(a[i], rel) || atEdge(b[i], rel))) { edgeFlip = true; return true; }
			if (a[i].type != b[i].type) { why = fmt("particle %zu: type %d instead of %d", i, b[i].type, a[i].type); return false; }
			auto cmp = [&](double x, double y, double sc, const char* n)
			{
				if (std::memcmp(&x, &y, 8) == 0 || x == y) { return true; }
				if (std::isnan(x) && std::isnan(y)) { return true; }
				if (rel > 0 && std::fabs(x - y) <= rel * (sc + std::fabs(x))) { return true; }
				why = fmt("particle %zu: %s is %.17g instead of %.17g", i, n, y, x);
				return false;
			};
			for (int k = 0; k < 3; k++)
			{
				static const char* nx[] = { "x", "y", "z" }; static const char* nu[] = { "u", "v", "w" };
				if (!cmp(a[i].x[k], b[i].x[k], sx, nx[k]) || !cmp(a[i].u[k], b[i].u[k], su, nu[k])) { return false; }
			}
			if (!cmp(a[i].p, b[i].p, sp, "p") || !cmp(a[i].n, b[i].n, 1, "n")) { return false; }
		}
		return true;
	}
	// exact normally; with parallel reductions in the solver only up to round-off and solver tolerance
	double relTol() const { return plan.vclMin < 5000 || is("C14") ? 1e-4 : 1e-7; }

	// ------------------------------------------------------------------ one step judged by the reference
	struct StepIn { std::vector<PState> s0; double t0; };

	// after: the same particles after the step; those it retired need not count
	double refDt(const std::vector<PState>& s, bool skipLeaving, const std::vector<PState>* after = nullptr) const
	{
		double mu = 0; std::size_t i = 0;
		for (auto& q : s)
		{
			const auto k = i++;
			if (q.type == ref::DISABLED) { continue; }
			if (skipLeaving && outside(q) != 0 && (!after || k >= after->size() || (*after)[k].type == ref::DISABLED)) { continue; }
			mu = std::max(mu, static_cast<double>(ref::norm(ref::vec(q.u))));
		}
		return mu == 0 ? static_cast<double>(model.maxDt) : static_cast<double>(std::min<ref::R>(model.maxDx / mu, model.maxDt));
	}
	// 0 inside the domain, 1 certainly outside, 2 margin band (either is allowed)
	int outside(const PState& q) const
	{
		int res = 0;
		for (int k = 0; k < 3; k++)
		{
			if (f.dim == 2 && k == 1) { continue; }
			const double mn = plan.env.min[k], mx = plan.env.max[k], nl = static_cast<double>(model.nl);
			const double w = 1e-9 * nl + 1e-12 * (std::fabs(mn) + std::fabs(mx));
			const double x = q.x[k];
			if (x < mn - w || x > mx + 3 * nl + w) { return 1; }
			if (x < mn || x > mx) { res = 2; }
		}
		return res;
	}
	bool cellsFit(const std::vector<PState>& s) const
	{
		const double nl = static_cast<double>(model.nl);
		const double per = std::ceil(nl / plan.env.l0) + 1;
		const double cap = f.dim == 3 ? per * per * per : per * per;
		std::map<std::array<long long, 3>, double> c;
		for (auto& q : s)
		{
			if (q.type == ref::DISABLED || outside(q) == 1) { continue; }
			// cells overlapped within rounding are all counted
			std::array<long long, 3> k{};
			for (int a = 0; a < 3; a++) { k[static_cast<std::size_t>(a)] = static_cast<long long>(std::floor((q.x[a] - plan.env.min[a]) / nl)); }
			if (++c[k] > cap - 1) { return false; }
		}
		return true;
	}

	void judgeStep(Instance& in, const std::vector<PState>& s0, double t0, double dtGiven, bool adaptive, StepStatus stt)
	{
		using namespace ref;
		const auto s3 = in.e->all();
		const double t1 = in.e->T(), dt = in.e->Dt();
		const auto n = s0.size();
		if (s3.size() != n) { fail(plan.prop + ":count", fmt("a step changed the number of particles from %zu to %zu", n, s3.size())); return; }

		// --- types
		for (std::size_t i = 0; i < n; i++)
		{
			const int a = s0[i].type, b = s3[i].type;
			if (is("C11") && b != a && b != DISABLED) { fail("C11:type", fmt("particle %zu changed type from %d to %d in a step", i, a, b)); }
			if (is("C04"))
			{
				if (a == DISABLED) { if (b != DISABLED) { fail("C04:revived", fmt("disabled particle %zu became type %d", i, b)); } continue; }
				const int o = outside(s0[i]);
				if (o == 0 && b == DISABLED) { fail("C04:lost", fmt("particle %zu at (%.17g, %.17g, %.17g) inside the domain was disabled", i, s0[i].x[0], s0[i].x[1], s0[i].x[2])); }
				if (o == 1 && b != DISABLED && stt == ST_OK) { fail("C04:kept", fmt("particle %zu at (%.17g, %.17g, %.17g) outside the domain was not disabled", i, s0[i].x[0], s0[i].x[1], s0[i].x[2])); }
				if (o == 1) { probe["left_domain"]++; }
			}
		}
		if (is("C04"))
		{
			for (std::size_t i = 0; i < n; i++)
			{
				if (s0[i].type == DISABLED)
				{
					probe["disabled_steps"]++;
					bool eq = std::memcmp(s0[i].x, s3[i].x, sizeof s0[i].x) == 0;
					if (!eq) { fail("C04:moved", fmt("disabled particle %zu was moved from (%.17g, %.17g) to (%.17g, %.17g)", i, s0[i].x[0], s0[i].x[2], s3[i].x[0], s3[i].x[2])); }
				}
			}
		}

		// --- time
		if (is("C05"))
		{
			if (!(dt > 0) || !(dt < 1e300)) { fail("C05:dt", fmt("dt is %.17g", dt)); return; }
			if (adaptive)
			{
				const double e1 = refDt(s0, false), e2 = refDt(s0, true, &s3);
				if (!(std::fabs(dt - e1) <= 1e-12 * e1) && !(dt >= std::min(e1, e2) * (1 - 1e-12) && dt <= std::max(e1, e2) * (1 + 1e-12) && e1 != e2))
				{
					fail("C05:cfl", fmt("dt is %.17g, the CFL-limited step is %.17g (maximum %.17g)", dt, e1, static_cast<double>(model.maxDt)));
				}
				if (e1 < static_cast<double>(model.maxDt) * 0.999) { probe["cfl_limited"]++; } else { probe["dt_maximum"]++; }
			}
			else if (dt != dtGiven) { fail("C05:given", fmt("dt is %.17g, given was %.17g", dt, dtGiven)); }
			if (std::fabs(t1 - (t0 + dt)) > 1e-15 * (std::fabs(t0) + dt) * 4) { fail("C05:time", fmt("time went from %.17g to %.17g in a step of %.17g", t0, t1, dt)); }
		}

		// --- wall callbacks
		auto& w = *in.wall;
		if (is("C06"))
		{
			if (stt == ST_OK || !w.calls.empty())
			{
				if (w.pres.size() != 1) { fail("C06:pre", fmt("pre-processing ran %zu times in a step", w.pres.size())); }
				else if (w.pres[0].first != t1 || w.pres[0].second != dt) { fail("C06:preargs", fmt("pre-processing got t=%.17g dt=%.17g in the step to t=%.17g dt=%.17g", w.pres[0].first, w.pres[0].second, t1, dt)); }
				std::vector<int> cnt(n, 0);
				for (auto& c : w.calls)
				{
					if (c.i >= n) { fail("C06:index", fmt("position of particle %zu requested, there are %zu", c.i, n)); continue; }
					cnt[c.i]++;
					if (!c.preSeen) { fail("C06:order", fmt("position of particle %zu requested before pre-processing", c.i)); }
					if (c.t != t1 || c.dt != dt) { fail("C06:args", fmt("position of particle %zu requested with t=%.17g dt=%.17g in the step to t=%.17g dt=%.17g", c.i, c.t, c.dt, t1, dt)); }
				}
				for (std::size_t i = 0; i < n; i++)
				{
					const int ty = s3[i].type;
					if (ty == FLUID && cnt[i]) { fail("C06:fluid", fmt("position of fluid particle %zu requested", i)); }
					if ((ty == WALL || ty == DUMMY) && cnt[i] != 1) { fail("C06:calls", fmt("position of %s particle %zu requested %d times", ty == WALL ? "wall" : "dummy", i, cnt[i])); }
				}
			}
			if (stt == ST_OK)
			{
				for (auto& c : w.calls)
				{
					if (c.i >= n) { continue; }
					const auto& q = s3[c.i];
					if (q.type != WALL && q.type != DUMMY) { continue; }
					probe["wall_moves"]++;
					for (int k = 0; k < 3; k++)
					{
						const double x = c.x[static_cast<std::size_t>(k)];
						if (q.x[k] != x) { fail("C06:position", fmt("wall particle %zu ends the step at %.17g instead of %.17g (component %d)", c.i, q.x[k], x, k)); }
						const double u = (x - s0[c.i].x[k]) / dt;
						if (!(std::fabs(q.u[k] - u) <= 1e-12 * std::fabs(u) + 1e-15 * (std::fabs(x) + std::fabs(s0[c.i].x[k])) / dt)) { fail("C06:velocity", fmt("wall particle %zu has velocity %.17g instead of %.17g (component %d)", c.i, q.u[k], u, k)); }
					}
				}
			}
		}

		const bool needRef = is("C03") || is("C07") || is("C08") || is("C09");
		if (!needRef || n == 0) { return; }

		// --- reference step
		auto before = s0;
		for (std::size_t i = 0; i < n; i++) { before[i].type = s3[i].type; } // types after the search
		const auto c0 = Model::Conf::of(before);
		const auto nb0 = model.neighbours(c0, c0.x);
		const auto dn0 = model.density(c0, nb0);
		const std::vector<PState>* sd1 = nullptr; const std::vector<PState>* smid = nullptr; const std::vector<PState>* simp = nullptr;
		for (auto& q : g_snaps)
		{
			if (q.s.size() != n) { continue; }
			if (q.name == "density1") { sd1 = &q.s; }
			if (q.name == "explicit") { smid = &q.s; }
			if (q.name == "implicit") { simp = &q.s; }
		}
		if (smid) { probe["mid_marks"]++; }

		auto checkDensity = [&](const std::vector<PState>& s, const Model::Density& dn, const char* when)
		{
			for (std::size_t i = 0; i < n; i++)
			{
				if (s[i].type == DUMMY || s[i].type == DISABLED) { continue; }
				probe["densities"]++;
				const auto& v = dn.n[i];
				if (f.spp && dn.raw[i].v > model.n0) { probe["dense_particles"]++; }
				if (!(std::fabs(s[i].n - v.v) <= v.tol)) { fail("C03:density", fmt("%s: density of particle %zu is %.17g, all pairs give %.17Lg (allowance %.3Lg)", when, i, s[i].n, v.v, v.tol)); }
			}
		};
		if (is("C03") && sd1) { checkDensity(*sd1, dn0, "first evaluation"); }

		// explicit phase
		std::vector<PState> mid = before;
		std::vector<R> xtol(n, 0);
		const bool midReached = smid != nullptr || stt == ST_OK;
		if (!midReached) { return; }
		for (std::size_t i = 0; i < n; i++)
		{
			auto& q = mid[i];
			if (q.type == FLUID)
			{
				const auto a = model.accel(c0, nb0, i);
				const V u = c0.u[i] + dt * a.v;
				const V x = c0.x[i] + dt * u;
				const R tu = dt * a.tol + 1e-14L * (norm(c0.u[i]) + dt * norm(a.v));
				const R tx = dt * tu + 1e-14L * (norm(c0.x[i]) + dt * norm(u));
				xtol[i] = tx;
				if (is("C08") && smid)
				{
					probe["explicit_updates"]++;
					const auto& m = (*smid)[i];
					for (int k = 0; k < 3; k++)
					{
						if (!(std::fabs(m.u[k] - u.c[k]) <= tu)) { fail("C08:velocity", fmt("explicit phase: velocity component %d of particle %zu is %.17g instead of %.17Lg (allowance %.3Lg)", k, i, m.u[k], u.c[k], tu)); }
						if (!(std::fabs(m.x[k] - x.c[k]) <= tx)) { fail("C08:position", fmt("explicit phase: position component %d of particle %zu is %.17g instead of %.17Lg (allowance %.3Lg)", k, i, m.x[k], x.c[k], tx)); }
					}
				}
				for (int k = 0; k < 3; k++) { q.u[k] = static_cast<double>(u.c[k]); q.x[k] = static_cast<double>(x.c[k]); }
			}
			else if (q.type != DISABLED)
			{
				for (auto& c : w.calls) { if (c.i == i) { for (int k = 0; k < 3; k++) { q.x[k] = c.x[static_cast<std::size_t>(k)]; q.u[k] = (q.x[k] - before[i].x[k]) / dt; } } }
			}
		}
		if (smid)
		{
			if (is("C08"))
			{
				for (std::size_t i = 0; i < n; i++) { if ((*smid)[i].type != mid[i].type) { fail("C08:type", fmt("particle %zu changed type within a step", i)); } }
			}
			mid = *smid;
			for (auto& x : xtol) { x = 0; }
		}
		const auto c1 = Model::Conf::of(mid);
		const auto nb1 = model.neighbours(c1, c0.x);
		const auto dn1 = model.density(c1, nb1);
		if (!Model::allSure(nb1)) { probe["ambiguous_pairs"]++; }
		const bool exact1 = smid != nullptr;
		if (is("C03") && exact1) { checkDensity(s3, dn1, "second evaluation"); }

		// pressure
		if (is("C07"))
		{
			for (std::size_t i = 0; i < n; i++)
			{
				if (s3[i].type == DUMMY || s3[i].type == DISABLED)
				{
					if (std::memcmp(&s3[i].p, &s0[i].p, 8) != 0 && !f.pexp) { fail("C07:kept", fmt("pressure of %s particle %zu changed from %.17g to %.17g", s3[i].type == DUMMY ? "dummy" : "disabled", i, s0[i].p, s3[i].p)); }
				}
				else if (stt == ST_OK && !(s3[i].p >= 0 && s3[i].p < 1e300)) { fail("C07:negative", fmt("pressure of particle %zu is %.17g", i, s3[i].p)); }
			}
		}
		if (is("C07") && exact1)
		{
			if (f.pexp) { if (stt == ST_OK) { judgeExplicitPressure(s3, dn1); } }
			else { judgePpe(c0, nb0, dn0, c1, nb1, dn1, s0, s3, dt, stt); }
		}
		if (stt != ST_OK) { return; }

		// gradient and stabilisation
		if (is("C09"))
		{
			auto cg = c1;
			for (std::size_t i = 0; i < n; i++) { cg.p[i] = s3[i].p; }
			std::vector<V> x2 = c1.x, u2 = c1.u; std::vector<R> x2t(n, 0), u2t(n, 0);
			for (std::size_t i = 0; i < n; i++)
			{
				if (cg.type[i] != FLUID) { continue; }
				const auto gr = model.gradient(cg, nb1, dn1, i, dt);
				u2[i] = c1.u[i] + gr.v; x2[i] = c1.x[i] + static_cast<R>(dt) * gr.v;
				u2t[i] = gr.tol + 1e-14L * (norm(c1.u[i]) + norm(gr.v)) + xtol[i] / dt * 100;
				x2t[i] = dt * gr.tol + 1e-14L * (norm(c1.x[i]) + dt * norm(gr.v)) + xtol[i] * 100;
				if (simp && exact1)
				{
					probe["gradients"]++;
					const auto& m = (*simp)[i];
					for (int k = 0; k < 3; k++)
					{
						if (!(std::fabs(m.u[k] - u2[i].c[k]) <= u2t[i])) { fail("C09:gradient", fmt("pressure phase: velocity component %d of particle %zu is %.17g instead of %.17Lg (allowance %.3Lg)", k, i, m.u[k], u2[i].c[k], u2t[i])); }
						if (!(std::fabs(m.x[k] - x2[i].c[k]) <= x2t[i])) { fail("C09:gradientx", fmt("pressure phase: position component %d of particle %zu is %.17g instead of %.17Lg (allowance %.3Lg)", k, i, m.x[k], x2[i].c[k], x2t[i])); }
					}
				}
			}
			R xt = 0;
			auto c2 = cg;
			if (simp)
			{
				const auto ci = Model::Conf::of(*simp);
				for (std::size_t i = 0; i < n; i++)
				{
					if (cg.type[i] != FLUID)
					{
						bool eq = std::memcmp((*simp)[i].x, mid[i].x, sizeof mid[i].x) == 0 && std::memcmp((*simp)[i].u, mid[i].u, sizeof mid[i].u) == 0;
						if (!eq) { fail("C09:others", fmt("pressure phase moved particle %zu of type %d", i, cg.type[i])); }
					}
				}
				c2.x = ci.x; c2.u = ci.u;
			}
			else
			{
				c2.x = x2; c2.u = u2;
				for (std::size_t i = 0; i < n; i++) { xt = std::max(xt, x2t[i]); }
			}
			for (std::size_t i = 0; i < n; i++)
			{
				const auto& q = s3[i];
				if (cg.type[i] != FLUID)
				{
					bool eq = std::memcmp(q.x, mid[i].x, sizeof q.x) == 0 && std::memcmp(q.u, mid[i].u, sizeof q.u) == 0;
					if (!eq && (exact1 || cg.type[i] == DISABLED)) { fail("C09:others", fmt("corrections moved particle %zu of type %d", i, cg.type[i])); }
					continue;
				}
				const auto ds = model.stabilise(c2, c1.x, c0.x, i, dt, xt);
				if (norm(ds.v) > 0) { probe["repulsions"]++; }
				const V u = c2.u[i] + ds.v, x = c2.x[i] + static_cast<R>(dt) * ds.v;
				R tu = ds.tol + 1e-14L * (norm(c2.u[i]) + norm(ds.v)), tx = dt * ds.tol + 1e-14L * (norm(c2.x[i]) + dt * norm(ds.v));
				if (!simp) { tu += u2t[i]; tx += x2t[i]; }
				for (int k = 0; k < 3; k++)
				{
					if (!(std::fabs(q.u[k] - u.c[k]) <= tu)) { fail("C09:velocity", fmt("final velocity component %d of particle %zu is %.17g instead of %.17Lg (allowance %.3Lg)", k, i, q.u[k], u.c[k], tu)); }
					if (!(std::fabs(q.x[k] - x.c[k]) <= tx)) { fail("C09:position", fmt("final position component %d of particle %zu is %.17g instead of %.17Lg (allowance %.3Lg)", k, i, q.x[k], x.c[k], tx)); }
					// displacement over the whole step
					const R dx = static_cast<R>(q.x[k]) - s0[i].x[k];
					R mu = std::max(std::fabs(static_cast<R>(q.u[k])), std::max(norm(c1.u[i]), norm(c2.u[i])));
					const R tk = 1e-13L * (std::fabs(static_cast<R>(q.x[k])) + dt * mu);
					if (!(std::fabs(dx - dt * static_cast<R>(q.u[k])) <= tk)) { fail("C09:kinematics", fmt("particle %zu moved by %.17Lg, dt*u is %.17Lg (component %d)", i, dx, dt * static_cast<R>(q.u[k]), k)); }
				}
			}
		}
	}

	void judgeExplicitPressure(const std::vector<PState>& s3, const ref::Model::Density& dn)
	{
		using namespace ref;
		for (std::size_t i = 0; i < s3.size(); i++)
		{
			if (s3[i].type == DUMMY || s3[i].type == DISABLED) { continue; }
			const R rho = plan.env.rho / model.n0 * dn.n[i].v;
			const R c2 = static_cast<R>(plan.env.c) * plan.env.c;
			const R p = rho <= plan.env.rho ? 0 : c2 * (rho - plan.env.rho);
			const R tol = c2 * plan.env.rho * (dn.n[i].tol / model.n0 + 1e-13L) * 4;
			probe["pressures"]++;
			if (!(std::fabs(s3[i].p - p) <= tol)) { fail("C07:value", fmt("explicit pressure of particle %zu is %.17g instead of %.17Lg", i, s3[i].p, p)); }
		}
	}

	void judgePpe(const ref::Model::Conf& c0, const ref::Model::Nbs& nb0, const ref::Model::Density& dn0,
		const ref::Model::Conf& c1, const ref::Model::Nbs& nb1, const ref::Model::Density& dn1,
		const std::vector<PState>& s0, const std::vector<PState>& s3, double dt, StepStatus stt)
	{
		using namespace ref;
		const auto n = s0.size();
		std::vector<Val> ec(n);
		for (std::size_t i = 0; i < n; i++)
		{
			if (c0.type[i] == DUMMY || c0.type[i] == DISABLED) { continue; }
			ec[i] = model.ecs(model.speed(c0, nb0, dn0, i, dt), dn0.n[i]);
		}
		std::vector<R> pp(n);
		for (std::size_t i = 0; i < n; i++) { pp[i] = s0[i].p; }
		const auto q = model.ppe(c1, nb1, dn1, ec, pp, dt);
		const auto m = q.rows.size();
		if (q.ambiguous) { probe["ppe_ambiguous"]++; return; }
		auto mul = [&](const std::vector<R>& x) { std::vector<R> y(m, 0); for (std::size_t a = 0; a < m; a++) { for (std::size_t b = 0; b < m; b++) { if (q.A[a][b] != 0) { y[a] += q.A[a][b] * x[b]; } } } return y; };
		auto nrm = [&](const std::vector<R>& v) { R s = 0; for (auto& x : v) { s += x * x; } return std::sqrt(s); };
		auto r0 = mul(q.x0);
		for (std::size_t a = 0; a < m; a++) { r0[a] = q.b[a] - r0[a]; }
		const R nr0 = nrm(r0), nbt = nrm(q.btol), nb_ = nrm(q.b), nx0 = nrm(q.x0);
		const R anorm = q.atol / REL * 2;

		if (stt == ST_STD || stt == ST_OTHER)
		{
			// a failure must have a reason: the same method in plain doubles must have trouble too
			if (!cellsFit(s0)) { probe["cell_full"]++; return; }
			probe["solver_failures"]++;
			const int it = cgIterations(q, n);
			if (it >= 0 && it <= std::max<int>(2, static_cast<int>(0.5 * static_cast<double>(n)))) { fail("C07:spurious", fmt("the step failed although conjugate gradients converge in %d of %zu iterations", it, n)); }
			return;
		}
		if (stt != ST_OK) { return; }
		probe["ppe_solved"]++;
		// identity rows
		for (std::size_t i = 0; i < n; i++)
		{
			if (q.fixed[i] == 1 && c1.type[i] != DUMMY && c1.type[i] != DISABLED && s3[i].p != 0) { fail("C07:surface", fmt("pressure of free-surface particle %zu is %.17g", i, s3[i].p)); }
		}
		if (m == 0) { return; }
		const R eps = plan.env.eps;
		// direct residual when nothing was clamped
		std::vector<R> x(m); bool clamped = false; R xmax = 0;
		for (std::size_t a = 0; a < m; a++) { x[a] = s3[q.rows[a]].p; xmax = std::max(xmax, std::fabs(x[a])); if (x[a] == 0 && q.fixed[q.rows[a]] != 2) { clamped = true; } }
		const R nx = nrm(x);
		if (!clamped)
		{
			auto r = mul(x);
			for (std::size_t a = 0; a < m; a++) { r[a] = q.b[a] - r[a]; }
			const R allow = eps * nr0 * (1 + 1e-6L) + nbt * 2 + 1e-11L * (anorm * (nx + nx0) + nb_ + nr0) + 1e-140L; // squares of smaller residuals are zero
			probe["residuals"]++;
			if (!(nrm(r) <= allow)) { fail("C07:residual", fmt("residual %.6Lg exceeds %.6Lg (initial residual %.6Lg, eps %.3g)", nrm(r), allow, nr0, plan.env.eps)); }
			return;
		}
		// otherwise compare with the solution, bounded by the inverse
		if (m > 90) { probe["ppe_large_clamped"]++; return; }
		// rows without equation keep what they have
		auto A = q.A; auto b = q.b;
		for (std::size_t a = 0; a < m; a++) { if (q.fixed[q.rows[a]] == 2) { for (auto& v : A[a]) { v = 0; } A[a][a] = 1; b[a] = x[a]; } }
		const Lu lu(A);
		if (!lu.ok) { probe["ppe_singular"]++; return; }
		const auto xs = lu.solve(b);
		// error bound per component: |inv row| * residual allowance
		const R nxs = nrm(xs);
		const R ra = eps * nr0 * (1 + 1e-6L) + nbt * 2 + 1e-11L * (anorm * (nxs + nx0) + nb_ + nr0);
		std::vector<R> bound(m, 0);
		R worst = 0, invn = 0;
		for (std::size_t k = 0; k < m; k++)
		{
			std::vector<R> e(m, 0); e[k] = 1;
			const auto col = lu.solve(e);
			for (std::size_t a = 0; a < m; a++) { bound[a] += col[a] * col[a]; }
		}
		for (std::size_t a = 0; a < m; a++) { invn = std::max(invn, std::sqrt(bound[a])); bound[a] = std::sqrt(bound[a]) * ra; worst = std::max(worst, bound[a]); }
		if (!(worst <= 1e6L * (nxs + nx0 + 1))) { probe["ppe_ill_conditioned"]++; return; }
		if (eps < 1 && worst < 0.01L * nxs) { probe["ppe_sharp"]++; }
		probe["solutions"]++;
		for (std::size_t a = 0; a < m; a++)
		{
			if (q.fixed[q.rows[a]] == 2) { continue; }
			const R lo = std::max<R>(0, xs[a] - bound[a]), hi = std::max<R>(0, xs[a] + bound[a]);
			if (!(x[a] >= lo * (1 - 1e-12L) - 1e-150L && x[a] <= hi * (1 + 1e-12L) + 1e-150L)) { fail("C07:value", fmt("pressure of particle %zu is %.17Lg, the solution is %.17Lg (allowance %.3Lg)", q.rows[a], x[a], xs[a], bound[a])); }
		}
	}

	// textbook CG in double on the reference system; number of iterations until eps/2, -1 if not reached
	int cgIterations(const ref::Model::Ppe& q, std::size_t n) const
	{
		const auto m = q.rows.size();
		std::vector<double> x(m), r(m), p(m), ap(m);
		auto mul = [&](const std::vector<double>& v, std::vector<double>& y) { for (std::size_t a = 0; a < m; a++) { double s = 0; for (std::size_t b = 0; b < m; b++) { s += static_cast<double>(q.A[a][b]) * v[b]; } y[a] = s; } };
		for (std::size_t a = 0; a < m; a++) { x[a] = static_cast<double>(q.x0[a]); }
		mul(x, ap);
		double rr = 0;
		for (std::size_t a = 0; a < m; a++) { r[a] = static_cast<double>(q.b[a]) - ap[a]; p[a] = r[a]; rr += r[a] * r[a]; }
		const double goal = rr * plan.env.eps * plan.env.eps * 0.25;
		if (!(goal > 0)) { return rr == 0 ? 0 : -1; }
		for (std::size_t k = 0; k < n; k++)
		{
			mul(p, ap);
			double pap = 0; for (std::size_t a = 0; a < m; a++) { pap += p[a] * ap[a]; }
			const double al = rr / pap; double rn = 0;
			for (std::size_t a = 0; a < m; a++) { x[a] += al * p[a]; r[a] -= al * ap[a]; rn += r[a] * r[a]; }
			if (rn < goal) { return static_cast<int>(k) + 1; }
			const double be = rn / rr;
			for (std::size_t a = 0; a < m; a++) { p[a] = r[a] + be * p[a]; }
			rr = rn;
		}
		return -1;
	}

	// ------------------------------------------------------------------ main loop
	StepStatus doOp(Instance& in, const Op& o, double dtv, bool faults)
	{
		StepStatus st;
		in.wall->calls.clear(); in.wall->pres.clear();
		if (faults && o.preThrow) { in.wall->throwNext = true; }
		const auto v = o.kind == "add" ? plan.group(o.g) : std::vector<PState>();
		if (faults && (o.failAlloc >= 0 || is("C24"))) { sim::alloc_arm(o.failAlloc); }
		if (o.kind == "add") { st = in.e->add(v.data(), v.size()); }
		else if (o.kind == "stepdt") { st = in.e->step(dtv); }
		else { st = in.e->step(); }
		if (faults && (o.failAlloc >= 0 || is("C24")))
		{
			const auto cnt = sim::alloc_disarm();
			h(static_cast<sim::u64>(cnt));
			if (o.failAlloc >= 0) { probe[sim::alloc_fired() ? "alloc_fault_fired" : "alloc_fault_missed"]++; }
		}
		if (faults && o.preThrow && !in.wall->throwNext) { probe["pre_throw_fired"]++; }
		in.wall->throwNext = false;
		return st;
	}

	void appendInit(Instance& in, long long g) { for (auto& q : plan.group(g)) { in.wall->init.push_back({ { q.x[0], q.x[1], q.x[2] } }); } }
	static const char* sname(StepStatus s) { static const char* n[] = { "success", "out of memory", "the callback's exception", "an exception", "an unknown exception" }; return n[s]; }
	bool bitSame(const std::vector<PState>& a, const std::vector<PState>& b, std::string& why) const
	{
		if (a.size() != b.size()) { why = fmt("%zu particles instead of %zu", b.size(), a.size()); return false; }
		for (std::size_t i = 0; i < a.size(); i++)
		{
			if (a[i].type != b[i].type || std::memcmp(a[i].x, b[i].x, sizeof(double) * 8) != 0) { why = fmt("particle %zu differs", i); return false; }
		}
		return true;
	}
	// does the result of this step change by more than the comparison tolerates under changes far below it?
	// (near-singular pressure equations, particles at a decision threshold) Then two computers that summed in
	// another order need not agree. Asked only after a difference was seen; everything runs on one thread.
	bool sensitive(const Instance& src, const std::vector<PState>& s0, const std::vector<PState>* other, const Op& o, double dtv)
	{
		sim::AllocPauser ap;
		sim::serial_mode(true);
		const double amp = exactArithmetic() ? 1e-14 : 10 * std::min(plan.env.eps, 1e-6);
		std::vector<PState> ref0; StepStatus st0 = ST_OK; bool res = false;
		sim::u64 rs = plan.seed | 1;
		for (int v = 0; v < 6 && !res; v++)
		{
			auto s = v == 1 && other ? *other : s0;
			if (v >= 2)
			{
				const double a = amp * (v % 2 ? 1 : 10);
				for (auto& q : s)
				{
					for (int k = 0; k < 3; k++)
					{
						if (f.dim == 2 && k == 1) { continue; }
						rs = rs * 6364136223846793005ull + 1442695040888963407ull;
						q.x[k] += a * plan.env.l0 * (static_cast<double>(rs >> 33) / 1073741824.0 - 1);
					}
				}
			}
			Instance i = fresh(src, s);
			i.wall->stepNo = src.wall->stepNo - 1;
			const auto st = doOp(i, o, dtv, false);
			auto r = i.e->all();
			std::string why;
			if (v == 0) { ref0 = r; st0 = st; continue; }
			if (st != st0 || !same(r, ref0, relTol() * 0.1, why)) { res = true; }
		}
		sim::serial_mode(false);
		if (res) { probe["inconclusive_sensitive"]++; }
		return res;
	}
	// lockstep comparison of the state of two computers
	bool compare(const char* cls, Instance& a, Instance& b, const std::string& what)
	{
		std::string why;
		if (!same(b.e->all(), a.e->all(), relTol(), why)) { judgeDiff(plan.prop + ":" + cls, what + ": " + why); return false; }
		const double ta = a.e->Dt(), tb = b.e->Dt();
		if (!(std::fabs(ta - tb) <= std::max(1e-12, relTol()) * std::fabs(tb))) { judgeDiff(plan.prop + ":" + cls, what + ": " + fmt("time step is %.17g instead of %.17g", ta, tb)); return false; }
		return true;
	}
	// the step under comparison
	struct Ctx { const Instance* a = nullptr; const std::vector<PState>* s0 = nullptr; const std::vector<PState>* sB0 = nullptr; const Op* o = nullptr; double dtv = 0; } ctx;
	void judgeDiff(const std::string& cls, const std::string& msg)
	{
		if (ctx.a && sensitive(*ctx.a, *ctx.s0, ctx.sB0 && ctx.sB0->size() == ctx.s0->size() ? ctx.sB0 : nullptr, *ctx.o, ctx.dtv)) { stop = true; return; }
		fail(cls, msg);
	}
	// different outcomes of the same step in two computers: only judged where arithmetic is identical
	bool exactArithmetic() const { return plan.vclMin >= 5000 && !is("C14"); }

	void run()
	{
		if (&sim_vcl_min) { sim_vcl_min = plan.vclMin; }
		for (auto& o : plan.ops) { if (o.kind[0] == 'g') { runGrid(); return; } }
		const double lim = 1e6 * (plan.env.l0 + std::fabs(plan.env.min[0]) + std::fabs(plan.env.max[0]) + std::fabs(plan.env.min[2]) + std::fabs(plan.env.max[2]) + std::fabs(plan.env.min[1]) + std::fabs(plan.env.max[1]));
		if (is("C24")) { runMemory(lim); return; }
		if (is("C25")) { runPair(lim); return; }
		Instance A = make(), B, C;
		const bool rec = is("C03") || is("C07") || is("C08") || is("C09");
		const bool judge = rec || is("C04") || is("C05") || is("C06");
		if (is("C01") || is("C11")) { B = make(); }
		if (is("C14")) { if (!make_engine_alt) { return; } B = make({}, nullptr, true); }
		std::vector<long long> pending;       // C11: groups not yet added to B
		std::vector<std::size_t> keep;        // C04: particles of B
		bool tainted = false;                 // C04: B must be rebuilt

		for (std::size_t k = 0; k < plan.ops.size() && !stop; k++)
		{
			const Op& o = plan.ops[k];
			const auto s0 = A.e->all(); const double t0 = A.e->T();
			if (o.kind == "add")
			{
				const auto grp = plan.group(o.g);
				const bool armed = is("C11") && o.failAlloc >= 0;
				auto st = doOp(A, o, 0, armed);
				h(static_cast<sim::u64>(st));
				const bool fired = armed && sim::alloc_fired();
				if (st != ST_OK)
				{
					if (!fired) { if (is("C11")) { fail("C11:failed", fmt("adding %zu particles ended with %s", grp.size(), sname(st))); } stop = true; break; }
					std::string why;
					probe["failed_additions"]++;
					if (!bitSame(s0, A.e->all(), why)) { fail("C11:partial", "an addition that failed for lack of memory changed the particle list: " + why); stop = true; break; }
					if (o.v > 0) { probe["dropped_additions"]++; continue; }  // given up by the user
					st = doOp(A, o, 0, false);
					if (st != ST_OK) { fail("C11:retry", fmt("repeating a failed addition ended with %s", sname(st))); stop = true; break; }
				}
				appendInit(A, o.g);
				if (is("C11"))
				{
					auto want = s0; for (auto& q : grp) { want.push_back(q); }
					auto got = A.e->all(); std::string why;
					if (!bitSame(want, got, why)) { fail("C11:append", fmt("after adding %zu particles to %zu: ", grp.size(), s0.size()) + why); stop = true; break; }
					pending.push_back(o.g);
				}
				if (is("C01"))
				{
					sim::serial_mode(true); doOp(B, o, 0, false); sim::serial_mode(false);
					appendInit(B, o.g);
				}
				if (is("C14"))
				{
					const auto sb = doOp(B, o, 0, false);
					if (sb != st) { fail("C14:outcome", fmt("adding particles ended with %s; in the other build with %s", sname(st), sname(sb))); }
					appendInit(B, o.g);
				}
				if (B.e && (is("C10") || is("C12"))) { B.e->add(grp.data(), grp.size()); appendInit(B, o.g); }
				if (is("C04")) { tainted = true; }
				emit(A.e->all(), A.e->T(), A.e->Dt(), st);
				continue;
			}
			if (o.kind == "move")
			{
				if ((is("C10") || is("C11")) && A.e->move()) { probe["moved"]++; }
				continue;
			}
			if (o.kind == "fresh")
			{
				if (is("C10")) { B = fresh(A, s0); probe["replacements"]++; }
				continue;
			}

			// ---- a step
			double dtv = 0; const bool adaptive = o.kind == "step";
			if (!adaptive) { dtv = refDt(s0, false) * std::fabs(o.v); if (!(dtv > 0)) { continue; } }
			const bool faults = is("C12");
			const bool armed = faults && (o.failAlloc >= 0 || o.preThrow);
			if (is("C04") && tainted)
			{
				keep.clear();
				for (std::size_t i = 0; i < s0.size(); i++) { if (s0[i].type != ref::DISABLED) { keep.push_back(i); } }
				B = keep.size() < s0.size() && !keep.empty() ? fresh(A, s0, keep, true) : Instance();
				tainted = false;
			}
			if (armed) { C = fresh(A, s0); }
			if (is("C11") && !pending.empty())
			{
				std::vector<PState> all; for (auto g : pending) { for (auto& q : plan.group(g)) { all.push_back(q); } appendInit(B, g); }
				B.e->add(all.data(), all.size()); probe["merged_additions"] += static_cast<long long>(pending.size()); pending.clear();
			}
			const auto sB0 = B.e ? B.e->all() : std::vector<PState>();
			ctx = Ctx(); ctx.a = &A; ctx.s0 = &s0; ctx.sB0 = B.e ? &sB0 : nullptr; ctx.o = &o; ctx.dtv = dtv;
			g_snaps.clear();
			if (rec) { g_marked = &A; }
			A.wall->record = judge;
			const auto acc0 = sim::stats().parRegions;
			const auto st = doOp(A, o, dtv, faults);
			g_marked = nullptr; A.wall->record = false;
			if (sim::stats().parRegions > acc0) { probe["parallel_steps"]++; }
			probe["steps"]++; steps++;
			const auto s1 = A.e->all();
			h(static_cast<sim::u64>(st)); hashState(s1); hd(A.e->T()); hd(A.e->Dt());
			if (A.e->T() > t0) { simTime += A.e->T() - t0; }
			emit(s1, A.e->T(), A.e->Dt(), st);
			if (st != ST_OK) { probe[std::string("ended_") + sname(st)]++; }

			if (judge) { judgeStep(A, s0, t0, dtv, adaptive, st); }

			if (is("C01"))
			{
				sim::serial_mode(true); const auto sb = doOp(B, o, dtv, false); sim::serial_mode(false);
				if (st != sb)
				{
					if (exactArithmetic()) { judgeDiff("C01:outcome", fmt("the step ended with %s; on one thread with %s", sname(st), sname(sb))); }
					else { probe["inconclusive_outcome"]++; }
					stop = true;
				}
				else { compare("state", A, B, "compared with one thread"); }
			}
			if (is("C14"))
			{
				const auto sb = doOp(B, o, dtv, false);
				if (st != sb) { judgeDiff("C14:outcome", fmt("the step ended with %s; in the other build with %s", sname(st), sname(sb))); stop = true; }
				else { compare("state", A, B, "compared with the other build"); probe["compared_steps"]++; }
			}
			if (is("C10") && B.e)
			{
				const auto sb = doOp(B, o, dtv, false);
				if (st != sb) { if (exactArithmetic()) { judgeDiff("C10:outcome", fmt("the step ended with %s; in a new computer with %s", sname(st), sname(sb))); } stop = true; }
				else { compare("state", A, B, "compared with a newly created computer"); probe["compared_steps"]++; }
			}
			if (is("C11"))
			{
				const auto sb = doOp(B, o, dtv, false);
				if (s1.size() != s0.size()) { fail("C11:count", fmt("a step changed the number of particles from %zu to %zu", s0.size(), s1.size())); stop = true; }
				else { for (std::size_t i = 0; i < s0.size(); i++) { if (s0[i].type != s1[i].type && s1[i].type != ref::DISABLED) { fail("C11:type", fmt("particle %zu changed type from %d to %d in a step", i, s0[i].type, s1[i].type)); } } }
				if (st != sb) { if (exactArithmetic()) { judgeDiff("C11:outcome", fmt("the step ended with %s; with the additions made in one call it ended with %s", sname(st), sname(sb))); } stop = true; }
				else { compare("state", A, B, "compared with the additions made in one call"); probe["compared_steps"]++; }
			}
			if (is("C04") && B.e)
			{
				const auto sb = doOp(B, o, dtv, false);
				if (st != sb) { if (exactArithmetic()) { probe["inconclusive_outcome"]++; } stop = true; }
				else if (st == ST_OK)
				{
					std::vector<PState> part; for (auto i : keep) { part.push_back(s1[i]); }
					std::string why;
					probe["compared_steps"]++;
					if (!same(B.e->all(), part, std::max(relTol(), 1e-5), why)) { judgeDiff("C04:influence", "compared with the same scene without its disabled particles: " + why); }
					const double ta = A.e->Dt(), tb = B.e->Dt();
					if (!(std::fabs(ta - tb) <= 1e-5 * tb)) { judgeDiff("C04:influence", fmt("compared with the same scene without its disabled particles: time step is %.17g instead of %.17g", ta, tb)); }
				}
			}
			if (is("C04")) { for (std::size_t i = 0; i < s0.size() && i < s1.size(); i++) { if ((s0[i].type == ref::DISABLED) != (s1[i].type == ref::DISABLED)) { tainted = true; } } }
			if (is("C12"))
			{
				const bool fired = o.failAlloc >= 0 && sim::alloc_fired();
				if (s1.size() != s0.size()) { fail("C12:count", fmt("a failed step changed the number of particles from %zu to %zu", s0.size(), s1.size())); stop = true; }
				if (armed && st == ST_OK)
				{
					if (fired) { probe["survived_faults"]++; }
					const auto sc = doOp(C, o, dtv, false);
					if (sc != ST_OK) { if (fired && exactArithmetic()) { judgeDiff("C12:hidden", fmt("a step that ran out of memory ended with success; without the fault it ends with %s", sname(sc))); } stop = true; }
					else { compare("swallowed", A, C, "a step with a failing allocation reported success"); }
					if (o.preThrow && A.wall->stepNo != C.wall->stepNo) { fail("C12:swallowed", "wall pre-processing threw and the step reported success"); }
					B = std::move(C);
				}
				else if (st == ST_OK && B.e)
				{
					const auto sb = doOp(B, o, dtv, false);
					if (sb != ST_OK) { if (exactArithmetic()) { judgeDiff("C12:outcome", fmt("the step ended with %s; in a new computer with %s", sname(st), sname(sb))); } stop = true; }
					else { compare("state", A, B, "after a failed step, compared with a newly created computer"); probe["compared_steps"]++; }
				}
				else if (st != ST_OK)
				{
					probe["failed_steps"]++;
					if (st == ST_ALLOC && !fired) { fail("C12:memory", "a step ran out of memory without reason"); }
					if (B.e && !armed)
					{
						const auto sb = doOp(B, o, dtv, false);
						if (sb != st) { if (exactArithmetic()) { judgeDiff("C12:outcome", fmt("the step ended with %s; in a new computer with %s", sname(st), sname(sb))); } stop = true; }
					}
					B = finite(s1, lim) ? fresh(A, s1) : Instance();
				}
			}
			ctx = Ctx();
			if (edgeFlip) { probe["edge_flips"]++; stop = true; }
			if (!finite(s1, lim)) { probe["blown_up"]++; stop = true; }
			if (st != ST_OK && !is("C12") && !is("C11") && !is("C10")) { stop = true; }
			if (!viol.empty()) { stop = true; }
			g_snaps.clear();
		}
	}

	// ------------------------------------------------------------------ memory
	// The same history over and over, each time with a new computer: what is taken is given back, also after failures.
	void runMemory(double lim)
	{
		std::vector<sim::Live> live;
		for (int c = 0; c < 3; c++)
		{
			Instance A; A.wall.reset(new Wall(plan));
			long long first = -1; for (auto& o : plan.ops) { if (o.kind == "make") { first = o.failAlloc; } }
			for (long long k = first; !A.e; k = -1)
			{
				sim::alloc_arm(k);
				try { A.e.reset(make_engine(plan.env, A.wall.get())); } catch (const std::bad_alloc&) {}
				sim::alloc_disarm();
				if (sim::alloc_fired()) { probe["failed_constructions"]++; }
			}
			long long still = 0, warm = -1, grown = 0; std::size_t before = 0; bool broken = false;
			for (auto& o : plan.ops)
			{
				const auto s0 = A.e->all();
				if (!finite(s0, lim)) { probe["blown_up"]++; break; }
				if (o.kind == "move") { if (broken) { continue; } sim::alloc_arm(-1); A.e->move(); sim::alloc_disarm(); probe["moved"]++; continue; }
				if (o.kind == "make") { continue; }
				if (o.kind == "add")
				{
					auto st = doOp(A, o, 0, true);
					if (st != ST_OK) { probe["failed_additions"]++; still = 0; if (o.v > 0) { continue; } Op q = o; q.failAlloc = -1; st = doOp(A, q, 0, true); }
					if (st != ST_OK) { break; }
					appendInit(A, o.g); still = 0;
					continue;
				}
				double dtv = 0;
				if (o.kind == "stepdt") { dtv = refDt(s0, false) * std::min(1.0, std::fabs(o.v)); if (!(dtv > 0)) { continue; } }
				const auto st = doOp(A, o, dtv, true);
				probe[st == ST_OK ? "steps" : "failed_steps"]++;
				if (st != ST_OK) { broken = true; } // uBLAS's own checks object to a copy of a matrix whose resize failed
				// nothing moves: a further step needs nothing more
				std::string why;
				if (st == ST_OK && bitSame(s0, A.e->all(), why) && s0.size() == before) { still++; } else { still = 0; }
				before = s0.size();
				if (still == 4) { warm = sim::alloc_live().bytes; }
				if (still > 4 && sim::alloc_live().bytes > warm) { grown++; warm = sim::alloc_live().bytes; }
				if (still > 4) { probe["still_steps"]++; }
			}
			if (grown > 1) { fail("C24:growth", fmt("the memory in use grows from step to step although nothing changes (%lld times)", grown)); return; }
			sim::alloc_arm(-1); A.e.reset(); sim::alloc_disarm();
			live.push_back(sim::alloc_live());
			h(static_cast<sim::u64>(live.back().bytes));
		}
		probe["cycles"]++;
		if (live[2].blocks > live[1].blocks && live[1].blocks > live[0].blocks)
		{
			fail("C24:leak", fmt("%lld blocks with %lld bytes are not given back by the time the computer is gone", live[2].blocks - live[1].blocks, live[2].bytes - live[1].bytes));
		}
	}

	// ------------------------------------------------------------------ two computers at once
	struct Side
	{
		Exec* x; Plan p; double lim;
		struct Rec { StepStatus st; double T, Dt; std::vector<PState> s; };
		std::vector<Rec> rec; bool fresh = false;
		// the whole life of one computer
		void live()
		{
			rec.clear();
			Wall w(p);
			std::unique_ptr<IEngine> e(make_engine(p.env, &w));
			std::vector<PState> s;
			for (auto& o : p.ops)
			{
				Rec r; r.st = ST_OK;
				if (!x->finite(s, lim)) { break; }
				w.throwNext = o.preThrow;
				if (o.kind == "add")
				{
					const auto v = p.group(o.g);
					r.st = e->add(v.data(), v.size());
					if (r.st == ST_OK) { for (auto& q : v) { w.init.push_back({ { q.x[0], q.x[1], q.x[2] } }); } }
				}
				else if (o.kind == "move") { e->move(); }
				else if (o.kind == "stepdt") { r.st = e->step(std::min(1.0, std::fabs(o.v)) * p.env.maxDt * 0.1); }
				else { r.st = e->step(); }
				w.throwNext = false;
				r.T = e->T(); r.Dt = e->Dt(); s = r.s = e->all();
				rec.push_back(std::move(r));
			}
		}
		// the same in a process of its own
		bool liveElsewhere()
		{
			int fd[2];
			if (::pipe(fd) != 0) { return false; }
			const pid_t pid = ::fork();
			if (pid < 0) { ::close(fd[0]); ::close(fd[1]); return false; }
			if (pid == 0)
			{
				::close(fd[0]);
				sim::fatal_hook = [](const char*) { ::_exit(99); };
				for (int k : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU }) { std::signal(k, SIG_DFL); }
				live();
				auto out = [&](const void* b, std::size_t n)
				{
					auto p0 = static_cast<const char*>(b);
					while (n > 0) { const auto k = ::write(fd[1], p0, n); if (k <= 0) { ::_exit(99); } p0 += k; n -= static_cast<std::size_t>(k); }
				};
				for (auto& r : rec)
				{
					const std::size_t n = r.s.size();
					out(&r.st, sizeof r.st); out(&r.T, sizeof r.T); out(&r.Dt, sizeof r.Dt); out(&n, sizeof n); out(r.s.data(), n * sizeof(PState));
				}
				::_exit(0);
			}
			::close(fd[1]);
			std::string b; char buf[65536];
			for (;;) { const auto n = ::read(fd[0], buf, sizeof buf); if (n <= 0) { break; } b.append(buf, static_cast<std::size_t>(n)); }
			::close(fd[0]);
			int st = 0; ::waitpid(pid, &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { return false; }
			rec.clear();
			std::size_t at = 0;
			auto in = [&](void* q, std::size_t n) { if (n) { std::memcpy(q, b.data() + at, n); } at += n; };
			while (at < b.size())
			{
				Rec r; std::size_t n;
				in(&r.st, sizeof r.st); in(&r.T, sizeof r.T); in(&r.Dt, sizeof r.Dt); in(&n, sizeof n);
				r.s.resize(n); in(r.s.data(), n * sizeof(PState));
				rec.push_back(std::move(r));
			}
			return true;
		}
	};
	void runPair(double lim)
	{
		std::vector<Side> side;
		for (int k = 0; k < 2; k++) { Side s; s.x = this; s.p = plan; s.lim = lim; side.push_back(std::move(s)); }
		{
			// the other computer: another fluid, fewer particles on other ways
			auto& q = side[1].p; auto& e = q.env;
			const int how = static_cast<int>(plan.seed % 4);
			if (how != 0)
			{
				e.g *= -0.5; e.rho *= 1.5; e.courant *= 0.5; e.nu *= 3; if (how == 2) { e.eps *= 100; }
				std::vector<PlanParticle> v; std::size_t i = 0;
				for (auto& b : plan.ps) { if (how == 1 || i % 3 != 1) { v.push_back(b); for (auto& u : v.back().s.u) { u *= -0.7; } v.back().s.p *= 0.5; } i++; }
				q.ps = v;
				if (how == 3) { auto o = q.ops; for (auto& z : o) { if (z.kind != "add") { q.ops.push_back(z); } } }
			}
		}
		sim::serial_mode(true);
		// the second one alone in a process in which there never was another computer
		if (!side[1].liveElsewhere()) { side[1].live(); }
		side[0].live();
		sim::serial_mode(false);
		std::vector<std::vector<Side::Rec>> alone; for (auto& s : side) { alone.push_back(s.rec); }
		sim::run_threads(2, [](int k, void* a) { (*static_cast<std::vector<Side>*>(a))[static_cast<std::size_t>(k)].live(); }, &side);
		for (std::size_t k = 0; k < 2; k++)
		{
			auto& a = alone[k]; auto& b = side[k].rec;
			if (a.size() != b.size()) { fail("C25:state", fmt("computer %zu ended after %zu operations, alone after %zu", k, b.size(), a.size())); return; }
			for (std::size_t i = 0; i < a.size(); i++)
			{
				std::string why;
				hashState(a[i].s);
				if (a[i].st != b[i].st) { fail("C25:outcome", fmt("operation %zu of computer %zu ends differently while the other one works", i, k)); return; }
				if (!bitSame(b[i].s, a[i].s, why)) { fail("C25:state", fmt("operation %zu of computer %zu gives another result while the other one works: ", i, k) + why); return; }
				if (std::memcmp(&a[i].T, &b[i].T, sizeof(double)) != 0 || std::memcmp(&a[i].Dt, &b[i].Dt, sizeof(double)) != 0) { fail("C25:time", fmt("the time after operation %zu of computer %zu differs while the other one works", i, k)); return; }
				probe[a[i].st == ST_OK ? "compared_steps" : "failed_steps"]++; steps++;
			}
		}
	}

	// ------------------------------------------------------------------ search grid alone
	void runGrid()
	{
		const auto& e = plan.env;
		const double nl = e.re * e.l0 * (1 + 2 * e.courant);
		std::unique_ptr<IGrid> g(make_grid(nl, e.l0, e.min, e.max));
		if (!g) { return; }
		const int D = f.dim;
		const std::size_t cap = g->maxParticles();
		// possible cells of a position: both sides of a border closer than rounding
		struct Cells { long long lo[3], hi[3]; };
		auto cells = [&](const double* x)
		{
			Cells c{};
			for (int k = 0; k < 3; k++)
			{
				if (D == 2 && k == 1) { continue; }
				const double q = (x[k] - e.min[k]) / nl;
				const double w = 1e-9 + 1e-14 * (std::fabs(x[k]) + std::fabs(e.min[k])) / nl;
				c.lo[k] = static_cast<long long>(std::floor(q - w)); c.hi[k] = static_cast<long long>(std::floor(q + w));
				if (x[k] == e.min[k]) { c.lo[k] = c.hi[k] = 0; }
			}
			return c;
		};
		// 1 must be accepted, 0 must be refused, 2 either
		auto domain = [&](const double* x)
		{
			int r = 1;
			for (int k = 0; k < 3; k++)
			{
				if (D == 2 && k == 1) { continue; }
				const double w = 1e-9 * nl + 1e-12 * (std::fabs(e.min[k]) + std::fabs(e.max[k]));
				if (x[k] < e.min[k] - w || x[k] > e.max[k] + 3 * nl + w) { return 0; }
				if (x[k] < e.min[k] || x[k] > e.max[k]) { r = 2; }
			}
			return r;
		};
		struct Rec { std::array<double, 3> x; Cells c; };
		std::map<std::size_t, Rec> reg; std::vector<Rec> refused; // registered particles; refused by a full cell
		std::size_t nextId = 0; bool cleared = false;
		for (std::size_t k = 0; k < plan.ops.size() && viol.empty(); k++)
		{
			const Op& o = plan.ops[k];
			if (o.kind == "gclear") { g->clear(); reg.clear(); refused.clear(); cleared = true; h(1); continue; }
			if (!cleared) { continue; }
			const auto grp = plan.group(o.g);
			std::vector<double> buf(grp.size() * 3 + 1);
			for (std::size_t i = 0; i < grp.size(); i++) { for (int a = 0; a < 3; a++) { buf[i * 3 + static_cast<std::size_t>(a)] = grp[i].x[a]; } }
			const auto* xs = reinterpret_cast<const double (*)[3]>(buf.data());
			if (o.kind == "gstore")
			{
				std::vector<int> ret(grp.size(), -1);
				g->storeAll(xs, grp.size(), nextId, ret.data(), o.v > 0);
				for (std::size_t i = 0; i < grp.size(); i++)
				{
					h(static_cast<sim::u64>(ret[i] + 2));
					const int d = domain(xs[i]);
					const auto c = cells(xs[i]);
					if (d == 1 && ret[i] == 0) { fail("C13:refused", fmt("position (%.17g, %.17g, %.17g) inside the grid was refused", xs[i][0], xs[i][1], xs[i][2])); }
					if (d == 0 && ret[i] != 0) { fail("C13:accepted", fmt("position (%.17g, %.17g, %.17g) outside the grid was not refused", xs[i][0], xs[i][1], xs[i][2])); }
					const Rec rc{ { { xs[i][0], xs[i][1], xs[i][2] } }, c };
					if (ret[i] == 1) { reg[nextId + i] = rc; probe["registered"]++; }
					else if (ret[i] == 2) { refused.push_back(rc); probe["cell_full"]++; }
					else { probe["refused"]++; }
				}
				nextId += grp.size();
				// occupancy: exactly-known cells
				std::map<std::array<long long, 3>, std::pair<std::size_t, std::size_t>> occ; // certain registered, possible registered
				auto all = [&](const Cells& c, auto&& fn)
				{
					for (auto a = c.lo[0]; a <= c.hi[0]; a++) { for (auto b = c.lo[1]; b <= c.hi[1]; b++) { for (auto d2 = c.lo[2]; d2 <= c.hi[2]; d2++) { fn(std::array<long long, 3>{ { a, b, d2 } }); } } }
				};
				auto single = [&](const Cells& c) { return c.lo[0] == c.hi[0] && c.lo[1] == c.hi[1] && c.lo[2] == c.hi[2]; };
				for (auto& r : reg) { all(r.second.c, [&](const std::array<long long, 3>& q) { occ[q].second++; if (single(r.second.c)) { occ[q].first++; } }); }
				for (auto& q : occ) { if (q.second.first > cap) { fail("C13:overfull", fmt("%zu particles were accepted in one cell of capacity %zu", q.second.first, cap)); } }
				for (auto& r : refused)
				{
					bool possible = false;
					all(r.c, [&](const std::array<long long, 3>& q) { if (occ.count(q) && occ[q].second >= cap) { possible = true; } });
					if (!possible) { fail("C13:spurious", fmt("position (%.17g, %.17g, %.17g) was refused as full although its cell is not full", r.x[0], r.x[1], r.x[2])); }
				}
				continue;
			}
			if (o.kind == "gquery")
			{
				std::vector<std::size_t> ok;
				std::vector<double> qb;
				for (std::size_t i = 0; i < grp.size(); i++) { if (domain(xs[i]) == 1) { ok.push_back(i); for (int a = 0; a < 3; a++) { qb.push_back(xs[i][a]); } } }
				if (ok.empty()) { continue; }
				const auto* qx = reinterpret_cast<const double (*)[3]>(qb.data());
				std::vector<std::vector<std::size_t>> got;
				if (o.v > 0) { got = g->aroundAll(qx, ok.size()); }
				else { for (std::size_t i = 0; i < ok.size(); i++) { got.push_back(g->around(qx[i])); } }
				for (std::size_t i = 0; i < ok.size(); i++)
				{
					probe["enumerations"]++;
					const auto c = cells(qx[i]);
					std::map<std::size_t, int> cnt;
					for (auto id : got[i]) { cnt[id]++; h(id); }
					for (auto& r : reg)
					{
						bool must = true, may = true;
						for (int a = 0; a < 3; a++)
						{
							if (D == 2 && a == 1) { continue; }
							const auto& rc = r.second.c;
							if (!(rc.hi[a] - c.lo[a] <= 1 && c.hi[a] - rc.lo[a] <= 1)) { must = false; }
							if (rc.lo[a] - c.hi[a] > 1 || c.lo[a] - rc.hi[a] > 1) { may = false; }
						}
						const int n = cnt.count(r.first) ? cnt[r.first] : 0;
						if (must && n != 1) { fail(n == 0 ? "C13:lost" : "C13:twice", fmt("particle %zu at (%.17g, %.17g, %.17g) is enumerated %d times around (%.17g, %.17g, %.17g)", r.first, r.second.x[0], r.second.x[1], r.second.x[2], n, qx[i][0], qx[i][1], qx[i][2])); }
						if (!may && n != 0) { fail("C13:far", fmt("particle %zu is enumerated around a position two cells away", r.first)); }
						if (n > 1) { fail("C13:twice", fmt("particle %zu is enumerated %d times", r.first, n)); }
						if (n == 1) { probe["enumerated"]++; }
					}
					for (auto& q : cnt) { if (!reg.count(q.first)) { fail("C13:stranger", fmt("unregistered particle %zu is enumerated around (%.17g, %.17g, %.17g)", q.first, qx[i][0], qx[i][1], qx[i][2])); } }
				}
			}
		}
	}

	void emit(const std::vector<PState>& s, double t, double dt, StepStatus st)
	{
		if (!wantDump) { return; }
		dump += fmt("S %zu %d %.17g %.17g\n", s.size(), static_cast<int>(st), t, dt);
		for (auto& q : s) { dump += fmt("%d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g\n", q.type, q.x[0], q.x[1], q.x[2], q.u[0], q.u[1], q.u[2], q.p, q.n); }
	}
};
