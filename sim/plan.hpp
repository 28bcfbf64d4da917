// A plan is one complete simulated run: environment, particles, operations, faults, schedule.
// It is plain text, one item per line, so that it can be minimised line by line and replayed.
#pragma once
#include "engine.hpp"
#include "rt.hpp"
#include <map>
#include <sstream>
#include <fstream>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <stdexcept>

struct Op
{
	// add g | step | dt v | fresh (replace/compare with a new computer) | grid ops
	std::string kind;
	double v = 0;
	long long g = 0;
	long long failAlloc = -1;   // fail the k-th allocation of this operation
	bool preThrow = false;      // wall pre-processing throws in this step
};

struct PlanParticle { int group; PState s; };

struct Plan
{
	std::string prop;
	unsigned long long seed = 0;
	EnvParams env{};
	int fill = 0xA5;
	std::size_t vclMin = 5000;
	int wallKind = 0; double wallA[4] = { 0, 0, 0, 0 };
	std::vector<PlanParticle> ps;
	std::vector<Op> ops;
	sim::SchedConfig sched;
	bool haveEvents = false;
	std::vector<sim::Event> ev;
	std::string family;
	std::map<std::string, std::string> cfg;   // settings of the program harness (app.cpp)

	static std::string d(double x) { char b[64]; std::snprintf(b, sizeof b, "%.17g", x); return b; }

	std::string str() const
	{
		std::ostringstream o;
		o << "prop " << prop << "\nseed " << seed << "\nfamily " << family << "\n";
		o << "env";
		for (auto x : { env.maxDt, env.courant, env.g, env.rho, env.nu, env.surfaceRatio, env.re, env.c, env.l0, env.eps, env.min[0], env.min[1], env.min[2], env.max[0], env.max[1], env.max[2] }) { o << " " << d(x); }
		o << "\nfill " << fill << "\nvclmin " << vclMin << "\nwall " << wallKind;
		for (auto x : wallA) { o << " " << d(x); }
		o << "\n";
		if (!haveEvents)
		{
			o << "sched " << sched.seed << " " << sched.threads << " " << sched.varyTeam << " " << sched.uneven << " " << sched.policy << " " << d(sched.mean) << " " << sched.maxSwitches << "\n";
		}
		else { o << "events\n"; }
		for (auto& c : cfg) { o << "cfg " << c.first << " " << c.second << "\n"; }
		for (auto& p : ps)
		{
			o << "p " << p.group << " " << p.s.type;
			for (auto x : { p.s.x[0], p.s.x[1], p.s.x[2], p.s.u[0], p.s.u[1], p.s.u[2], p.s.p, p.s.n }) { o << " " << d(x); }
			o << "\n";
		}
		for (auto& q : ops)
		{
			o << "op " << q.kind << " " << d(q.v) << " " << q.g << " " << q.failAlloc << " " << q.preThrow << "\n";
		}
		if (haveEvents) { for (auto& e : ev) { o << "ev " << e.str() << "\n"; } }
		return o.str();
	}
	static Plan parse(std::istream& in)
	{
		Plan p; std::string line;
		while (std::getline(in, line))
		{
			if (line.empty() || line[0] == '#') { continue; }
			std::istringstream s(line); std::string k; s >> k;
			if (k == "prop") { s >> p.prop; }
			else if (k == "seed") { s >> p.seed; }
			else if (k == "family") { s >> p.family; }
			else if (k == "env")
			{
				for (auto x : { &p.env.maxDt, &p.env.courant, &p.env.g, &p.env.rho, &p.env.nu, &p.env.surfaceRatio, &p.env.re, &p.env.c, &p.env.l0, &p.env.eps, &p.env.min[0], &p.env.min[1], &p.env.min[2], &p.env.max[0], &p.env.max[1], &p.env.max[2] }) { std::string t; s >> t; *x = std::strtod(t.c_str(), nullptr); }
			}
			else if (k == "fill") { s >> p.fill; }
			else if (k == "vclmin") { s >> p.vclMin; }
			else if (k == "wall") { s >> p.wallKind; for (auto& x : p.wallA) { std::string t; s >> t; x = std::strtod(t.c_str(), nullptr); } }
			else if (k == "sched") { s >> p.sched.seed >> p.sched.threads >> p.sched.varyTeam >> p.sched.uneven >> p.sched.policy >> p.sched.mean >> p.sched.maxSwitches; }
			else if (k == "cfg") { std::string a, b; s >> a; std::getline(s >> std::ws, b); p.cfg[a] = b; }
			else if (k == "events") { p.haveEvents = true; }
			else if (k == "p")
			{
				PlanParticle q{}; s >> q.group >> q.s.type;
				for (auto x : { &q.s.x[0], &q.s.x[1], &q.s.x[2], &q.s.u[0], &q.s.u[1], &q.s.u[2], &q.s.p, &q.s.n }) { std::string t; s >> t; *x = std::strtod(t.c_str(), nullptr); }
				p.ps.push_back(q);
			}
			else if (k == "op") { Op q; std::string t; s >> q.kind >> t >> q.g >> q.failAlloc >> q.preThrow; q.v = std::strtod(t.c_str(), nullptr); p.ops.push_back(q); }
			else if (k == "ev") { sim::Event e; if (sim::Event::parse(line.substr(3), e)) { p.ev.push_back(e); } }
			else { throw std::runtime_error("bad plan line: " + line); }
		}
		return p;
	}
	std::vector<PState> group(long long g) const
	{
		std::vector<PState> v;
		for (auto& q : ps) { if (q.group == g) { v.push_back(q.s); } }
		return v;
	}
};
