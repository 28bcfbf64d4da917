// appsim: the real program (Main.cpp) on a simulated operating system. gen / run / batch, as sim.cpp.
#include "apprun.hpp"
#include "gen.hpp"
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <array>
#include <cstdarg>
#include <memory>
#include <sys/personality.h>

namespace
{
	std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
	std::string fmt(const char* f, ...) { char b[700]; va_list ap; va_start(ap, f); std::vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
	long long num(const Plan& p, const char* k, long long d = 0) { auto i = p.cfg.find(k); return i == p.cfg.end() ? d : std::strtoll(i->second.c_str(), nullptr, 10); }

	// ------------------------------------------------------------------ the input file
	// v * 10^-q as a decimal
	std::string dec(long long v, long long q)
	{
		const bool neg = v < 0; std::string s = std::to_string(neg ? -v : v);
		while (static_cast<long long>(s.size()) <= q) { s = "0" + s; }
		if (q > 0) { s.insert(s.size() - static_cast<std::size_t>(q), "."); }
		return (neg ? "-" : "") + s;
	}
	std::string num17(double x, int prec) { char b[64]; std::snprintf(b, sizeof b, "%.*g", prec, x); return b; }
	double val(const std::string& s) { return std::strtod(s.c_str(), nullptr); }
	const char* colsOf(int dim, std::size_t i) { static const char* c2[] = { "Type", "x", "z", "u", "w", "p", "n" }; static const char* c3[] = { "Type", "x", "y", "z", "u", "v", "w", "p", "n" }; return dim == 3 ? c3[i] : c2[i]; }
	std::size_t colCount(int dim) { return dim == 3 ? 9 : 7; }
	std::string cell(const PState& s, const std::string& c, int prec)
	{
		if (c == "Type") { return std::to_string(s.type); }
		static const std::map<std::string, int> at = { { "x", 0 }, { "y", 1 }, { "z", 2 }, { "u", 3 }, { "v", 4 }, { "w", 5 }, { "p", 6 }, { "n", 7 } };
		const int k = at.at(c);
		return num17(k < 3 ? s.x[k] : k < 6 ? s.u[k - 3] : k == 6 ? s.p : s.n, prec);
	}
	// the table as lines of cells
	struct Table { std::vector<std::string> head; std::vector<std::vector<std::string>> rows; };
	Table tableOf(const Plan& p, int dim)
	{
		Table t; const int prec = static_cast<int>(num(p, "prec", 17));
		std::vector<std::size_t> ord; for (std::size_t i = 0; i < colCount(dim); i++) { ord.push_back(i); }
		if (const auto o = num(p, "order")) { sim::Rng r(static_cast<sim::u64>(o)); for (auto i = ord.size(); i > 1; i--) { std::swap(ord[i - 1], ord[r.below(i)]); } }
		for (auto i : ord) { t.head.push_back(colsOf(dim, i)); }
		for (auto& q : p.ps) { std::vector<std::string> row; for (auto& h : t.head) { row.push_back(cell(q.s, h, prec)); } t.rows.push_back(row); }
		return t;
	}
	std::string text(const Plan& p, const Table& t)
	{
		const int style = static_cast<int>(num(p, "space"));  // 0 ", "; 1 ","; 2 tabs and spaces; 3 with blank lines
		sim::Rng r(p.seed ^ 0x5AFE);
		auto sep = [&]() -> std::string { return style == 1 ? "," : style == 2 ? (r.chance(0.5) ? "\t,  " : " ,\t") : ", "; };
		std::string s;
		auto line = [&](const std::vector<std::string>& c) { for (std::size_t i = 0; i < c.size(); i++) { s += (i ? sep() : style == 2 && r.chance(0.3) ? "  " : "") + c[i]; } s += "\n"; };
		if (style == 3) { s += "\n\n"; }
		line(t.head);
		for (auto& row : t.rows) { if (style == 3 && r.chance(0.2)) { s += r.chance(0.5) ? "\n" : "  \t\n"; } line(row); }
		if (style == 3) { s += "\n \n\n"; }
		return s;
	}
	struct Input { std::vector<std::pair<std::string, std::string>> cond, env; std::string tableText, tableType = "csv"; };
	Input inputOf(const Plan& p, const EngineFlags& f)
	{
		Input in; const auto q = num(p, "Q");
		in.cond = { { "startTime", dec(num(p, "S"), q) }, { "endTime", dec(num(p, "E"), q) }, { "outputInterval", dec(num(p, "D"), q) } };
		if (!f.pexp) { in.cond.push_back({ "eps", num17(p.env.eps, 17) }); }
		const auto& e = p.env;
		in.env = { { "l_0", num17(e.l0, 17) }, { "minStepCountPerOutput", std::to_string(num(p, "minstep", 1)) }, { "courant", num17(e.courant, 17) }, { "g", num17(e.g, 17) }, { "rho", num17(e.rho, 17) }, { "nu", num17(e.nu, 17) }, { "r_eByl_0", num17(e.re, 17) } };
		if (!f.spp) { in.env.push_back({ "surfaceRatio", num17(e.surfaceRatio, 17) }); }
		if (f.pexp) { in.env.push_back({ "c", num17(e.c, 17) }); }
		const char* ax[] = { "X", "Y", "Z" };
		for (int k = 0; k < 3; k++) { if (f.dim == 3 || k != 1) { in.env.push_back({ std::string("min") + ax[k], num17(e.min[k], 17) }); in.env.push_back({ std::string("max") + ax[k], num17(e.max[k], 17) }); } }
		in.tableText = text(p, tableOf(p, f.dim));
		return in;
	}
	std::string xmlOf(const Input& in)
	{
		std::string s = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<openmps>\n  <condition>\n";
		for (auto& c : in.cond) { s += "    <" + c.first + " value=\"" + c.second + "\" />\n"; }
		s += "  </condition>\n  <environment>\n";
		for (auto& c : in.env) { s += "    <" + c.first + " value=\"" + c.second + "\" />\n"; }
		s += "  </environment>\n  <particles type=\"" + in.tableType + "\">\n" + in.tableText + "</particles>\n</openmps>\n";
		return s;
	}
	std::vector<PState> initial(const Plan& p, int dim)
	{
		std::vector<PState> v; const int prec = static_cast<int>(num(p, "prec", 17));
		for (auto& q : p.ps)
		{
			PState s = q.s;
			for (int k = 0; k < 3; k++) { s.x[k] = val(num17(s.x[k], prec)); s.u[k] = val(num17(s.u[k], prec)); }
			if (dim == 2) { s.x[1] = s.u[1] = 0; }
			s.p = val(num17(s.p, prec)); s.n = val(num17(s.n, prec));
			v.push_back(s);
		}
		return v;
	}

	// ------------------------------------------------------------------ snapshot files
	struct Snapshot { bool ok = false; std::string why; std::vector<PState> s; std::vector<std::vector<std::string>> cells; bool finite = true; };
	std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> v; std::string x; for (char k : s) { if (k == c) { v.push_back(x); x.clear(); } else { x += k; } } v.push_back(x); return v; }
	std::string strip(const std::string& s) { std::string o; for (char c : s) { if (c != ' ' && c != '\t') { o += c; } } return o; }
	Snapshot parse(const std::string& t, int dim)
	{
		Snapshot r;
		auto lines = split(t, '\n');
		if (lines.back() != "") { r.why = "the last line is not complete"; return r; }
		lines.pop_back();
		if (lines.empty()) { r.why = "the file is empty"; return r; }
		std::map<std::string, std::size_t> at; const auto head = split(lines[0], ',');
		for (std::size_t i = 0; i < head.size(); i++) { at[strip(head[i])] = i; }
		for (std::size_t i = 0; i < colCount(dim); i++) { if (!at.count(colsOf(dim, i))) { r.why = std::string("the header has no column ") + colsOf(dim, i); return r; } }
		for (std::size_t l = 1; l < lines.size(); l++)
		{
			auto c = split(lines[l], ','); for (auto& x : c) { x = strip(x); }
			if (c.size() != head.size()) { r.why = fmt("row %zu has %zu cells, the header %zu", l, c.size(), head.size()); return r; }
			PState q{};
			auto get = [&](const char* n, double& out) { const auto& x = c[at[n]]; char* e = nullptr; out = std::strtod(x.c_str(), &e); if (x.empty() || *e) { r.why = fmt("row %zu: '%s' is not a number", l, x.c_str()); return false; } if (!std::isfinite(out)) { r.finite = false; } return true; };
			double ty = 0;
			if (!get("Type", ty) || !get("x", q.x[0]) || !get("z", q.x[2]) || !get("u", q.u[0]) || !get("w", q.u[2]) || !get("p", q.p) || !get("n", q.n)) { return r; }
			if (dim == 3 && (!get("y", q.x[1]) || !get("v", q.u[1]))) { return r; }
			q.type = static_cast<int>(ty);
			r.s.push_back(q); r.cells.push_back(c);
		}
		r.ok = true;
		return r;
	}
	std::string fileName(long long n) { return fmt("result/particles_%05lld.csv", n); }

	// ------------------------------------------------------------------ the engine called directly
	struct RefStep { double T; std::vector<PState> s; };
	struct Ref { std::vector<RefStep> st; bool failed = false, cut = false; std::string what; double T(std::size_t i) const { return st[i].T; } };
#ifndef APP_ASAN
	struct NoMove final : WallCb
	{
		std::vector<PState> init;
		void pre(double, double) override {}
		void pos(std::size_t i, double, double, double* out) override { for (int k = 0; k < 3; k++) { out[k] = i < init.size() ? init[i].x[k] : 0; } }
	};
	Ref direct(const Plan& p, const std::vector<PState>& init, double until, std::size_t maxSteps)
	{
		sim::SchedConfig one; sim::reset(one); sim::serial_mode(true); sim::heap_fill(static_cast<unsigned char>(p.fill));
		Ref r; NoMove w; w.init = init;
		EnvParams e = p.env;
		e.maxDt = val(dec(num(p, "D"), num(p, "Q"))) / static_cast<double>(num(p, "minstep", 1));
		std::unique_ptr<IEngine> g(make_engine(e, &w));
		g->add(init.data(), init.size());
		r.st.push_back(RefStep{ 0, g->all() });
		while (r.st.back().T < until)
		{
			if (r.st.size() > maxSteps) { r.cut = true; break; }
			const auto st = g->step();
			if (st != ST_OK) { r.failed = true; r.what = g->what(); break; }
			r.st.push_back(RefStep{ g->T(), g->all() });
		}
		return r;
	}
#endif

	struct Violation { std::string cls, msg; };

	// ------------------------------------------------------------------ one case
	struct App
	{
		Plan plan; EngineFlags f; std::vector<Violation> viol; std::map<std::string, long long> probe;
		sim::u64 hash = 0xCBF29CE484222325ull, ileave = 0; long long steps = 0; double simTime = 0;
		unsigned long long accesses = 0, switches = 0, par = 0, maxTeam = 0;
		App(const Plan& p, const EngineFlags& fl) : plan(p), f(fl) {}
		bool is(const char* q) const { return plan.prop == q; }
		void h(sim::u64 v) { hash = (hash ^ v) * 0x100000001B3ull; hash ^= hash >> 31; }
		void fail(const std::string& cls, const std::string& msg) { for (auto& v : viol) { if (v.cls == plan.prop + ":" + cls) { return; } } viol.push_back(Violation{ plan.prop + ":" + cls, msg }); }

		long long D() const { return std::max(1ll, num(plan, "D", 1)); }
		static long long ceilDiv(long long a, long long b) { return a <= 0 ? 0 : (a + b - 1) / b; }
		double unit() const { return std::pow(10.0, -static_cast<double>(num(plan, "Q"))); }
		double d() const { return val(dec(D(), num(plan, "Q"))); }

		os::Result program(const std::string& xml, const os::Faults& fl)
		{
			auto r = os::runProgram(plan, xml, fl);
			probe["program_runs"]++;
			for (auto& q : r.fired) { probe["fault:" + q.first] += q.second; }
			probe["ended_" + r.how]++;
			h(r.oplog); for (char c : r.console) { h(static_cast<unsigned char>(c)); } for (auto& q : r.files) { for (char c : q.second) { hash = hash * 31 + static_cast<unsigned char>(c); } } h(r.sig + 1000u);
			ileave = sim::mix(ileave, r.oplog ^ r.ileave); accesses += r.accesses; switches += r.switches; par += r.parRegions; maxTeam = std::max<unsigned long long>(maxTeam, r.maxTeam);
			steps += static_cast<long long>(r.steps);
			probe["snapshots"] += static_cast<long long>(r.ann.size());
			if (plan.sched.threads > 1 && r.switches > 0) { probe["preempted_runs"]++; }
			return r;
		}
		// ends that are never allowed, whatever was injected
		bool sane(const os::Result& r, const char* when, bool assertToo = true)
		{
			if (r.how == "none") { fail("crash", fmt("%s: process killed by signal %d: ", when, r.sig) + oneLine(r.err).substr(0, 300)); return false; }
			if (r.how == "hang" || r.how == "runaway") { fail("hang", fmt("%s: the program does not end: ", when) + r.what); return false; }
			if (r.how == "fatal") { fail("deadlock", fmt("%s: ", when) + r.what); return false; }
			if (r.how == "assert" && assertToo) { fail("assert", fmt("%s: assertion ", when) + r.what); return false; }
			return true;
		}
		// one line, without what differs between two runs of the same process (process id, addresses)
		static std::string oneLine(const std::string& s)
		{
			std::string o;
			for (std::size_t i = 0; i < s.size(); i++)
			{
				const char c = s[i];
				if (c == '=' && i + 2 < s.size() && s[i + 1] == '=' && std::isdigit(static_cast<unsigned char>(s[i + 2]))) { i += 2; while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) { i++; } i++; continue; }
				if (c == '0' && i + 1 < s.size() && s[i + 1] == 'x') { i += 2; while (i < s.size() && std::isxdigit(static_cast<unsigned char>(s[i]))) { i++; } i--; o += "0x*"; continue; }
				if (c == '=' && i + 1 < s.size() && s[i + 1] == '=') { while (i + 1 < s.size() && s[i + 1] == '=') { i++; } continue; }
				o += c == '\n' || c == '\t' || c == '\r' ? ' ' : c;
			}
			return o;
		}

#ifndef APP_ASAN
		bool exact() const { return plan.sched.threads <= 1 && !plan.haveEvents; }
		// snapshot rows against a state
		bool match(const Snapshot& a, const std::vector<PState>& b, double rel, std::string& why) const
		{
			if (a.s.size() != b.size()) { why = fmt("%zu rows for %zu particles", a.s.size(), b.size()); return false; }
			double su = 0, sp = 0;
			if (rel > 1e-5) { for (auto& q : b) { for (int k = 0; k < 3; k++) { su = std::max(su, std::fabs(q.u[k])); } sp = std::max(sp, std::fabs(q.p)); } sp = std::max(sp, plan.env.rho * std::max(plan.env.g, 0.1) * plan.env.l0); su = std::max(su, plan.env.courant * plan.env.l0 / d()); }
			for (std::size_t i = 0; i < b.size(); i++)
			{
				if (a.s[i].type != b[i].type) { why = fmt("row %zu: type is %d instead of %d", i + 1, a.s[i].type, b[i].type); return false; }
				auto cmp = [&](double x, double y, double sc, const char* n)
				{
					if (x == y || (std::isnan(x) && std::isnan(y))) { return true; }
					if (std::fabs(x - y) <= 5.05e-6 * std::fabs(y) + 1e-300) { return true; }
					if (rel > 1e-5 && std::fabs(x - y) <= rel * (sc + std::fabs(y))) { return true; }
					why = fmt("row %zu: %s is %.9g instead of %.9g", i + 1, n, x, y); return false;
				};
				static const char* nx[] = { "x", "y", "z" }; static const char* nu[] = { "u", "v", "w" };
				for (int k = 0; k < 3; k++) { if (!cmp(a.s[i].x[k], b[i].x[k], plan.env.l0, nx[k]) || !cmp(a.s[i].u[k], b[i].u[k], su, nu[k])) { return false; } }
				if (!cmp(a.s[i].p, b[i].p, sp, "p") || !cmp(a.s[i].n, b[i].n, 1, "n")) { return false; }
			}
			return true;
		}
		// steps whose state the k-th further snapshot may show
		std::vector<std::size_t> due(const Ref& r, long long k) const
		{
			std::vector<std::size_t> v;
			if (k == 0) { v.push_back(0); return v; }
			const double t = static_cast<double>(k) * d(), tol = 1e-9 * t;
			for (std::size_t i = 1; i < r.st.size(); i++) { if (r.T(i) >= t - tol && r.T(i - 1) < t + tol) { v.push_back(i); } }
			return v;
		}
		// does the evolution depend on rounding? (asked when a run on several threads differs from the reference)
		bool sensitive(const std::vector<PState>& init, const Ref& r, double until)
		{
			sim::u64 rs = plan.seed | 1;
			for (int v = 0; v < 4; v++)
			{
				auto s = init;
				for (auto& q : s) { for (int k = 0; k < 3; k++) { if (f.dim == 2 && k == 1) { continue; } rs = rs * 6364136223846793005ull + 1442695040888963407ull; q.x[k] += (v % 2 ? 1e-14 : 1e-12) * plan.env.l0 * (static_cast<double>(rs >> 33) / 1073741824.0 - 1); } }
				const auto q = direct(plan, s, until, r.st.size() + 50);
				if (q.failed != r.failed || q.st.size() != r.st.size()) { return true; }
				for (std::size_t i = 0; i < q.st.size(); i++) { Snapshot a; a.s = q.st[i].s; std::string why; if (!match(a, r.st[i].s, 2e-5, why)) { return true; } }
			}
			return false;
		}
		// files and console of a run against the direct run. what: which statements to judge
		void judgeRun(const os::Result& r, const Ref& ref, const std::vector<PState>& init, long long S, long long E, const std::string& when, bool schedule, bool content)
		{
			const long long first = ceilDiv(S, D()), n = ceilDiv(E - S, D());
			const double start = val(dec(S, num(plan, "Q"))), until = static_cast<double>(n) * d() * (1 + 1e-9);
			std::vector<Violation> found;
			auto bad = [&](const std::string& c, const std::string& m) { found.push_back(Violation{ c, when + m }); };
			if (schedule)
			{
				if (r.how != "return" || r.ret != 0) { bad("end", "the program ended with " + r.how + fmt(" (status %d) ", r.ret) + r.what); }
				std::set<std::string> want; for (long long k = 0; k <= n; k++) { want.insert(fileName(first + k)); }
				for (auto& q : want) { if (!r.files.count(q)) { bad("missing", q + " was not written"); break; } }
				for (auto& q : r.files) { if (!want.count(q.first)) { bad("extra", q.first + " was written although it is not due"); break; } }
				std::vector<std::string> seq; for (auto& q : r.opened) { if (q.compare(0, 17, "result/particles_") == 0 && (seq.empty() || seq.back() != q)) { seq.push_back(q); } }
				for (std::size_t k = 0; k < seq.size() && found.empty(); k++) { if (k > static_cast<std::size_t>(n) || seq[k] != fileName(first + static_cast<long long>(k))) { bad("order", "snapshot " + seq[k] + fmt(" was written in place %zu", k)); break; } }
			}
			const double rel = exact() ? 0 : 1e-4;
			for (long long k = 0; k <= n; k++)
			{
				const auto it = r.files.find(fileName(first + k));
				if (it == r.files.end()) { continue; }
				const auto sn = parse(it->second, f.dim);
				if (!sn.ok) { if (content) { bad("format", it->first + ": " + sn.why); } continue; }
				const auto ix = due(ref, k);
				if (ix.empty()) { continue; }
				std::string why; std::size_t at = 0; bool hit = false;
				for (auto i : ix) { if (match(sn, ref.st[i].s, rel, why)) { hit = true; at = i; break; } }
				if (!hit && content) { bad("content", it->first + ": " + why); }
				if (!hit && schedule && !content)
				{
					// another step's state?
					for (std::size_t i = 0; i < ref.st.size(); i++) { std::string w2; if (match(sn, ref.st[i].s, rel, w2)) { bad("time", it->first + fmt(" shows the state after step %zu (t=%.9g), due was step %zu (t=%.9g)", i, ref.T(i), ix[0], ref.T(ix[0]))); break; } }
				}
				if (hit) { probe["judged_snapshots"]++; for (auto& q : ref.st[at].s) { if (q.type == 3) { probe["judged_disabled"]++; break; } } }
				if (hit && content)
				{
					long long cnt = 0; for (auto& q : ref.st[at].s) { cnt += q.type != 3; }
					int lines = 0;
					for (auto& a : r.ann)
					{
						if (a.number != first + k) { continue; }
						lines++;
						bool okIt = false, okT = false;
						for (auto i : ix)
						{
							const double t = start + ref.T(i); const auto dot = a.time.find('.'); const double half = 0.5000001 * std::pow(10.0, dot == std::string::npos ? 0 : -static_cast<double>(a.time.size() - dot - 1));
							if (a.iteration == static_cast<long long>(i)) { okIt = true; }
							if (std::fabs(val(a.time) - t) <= half + 1e-9 * std::fabs(t)) { okT = true; }
						}
						if (!okT) { bad("console", fmt("snapshot %lld is announced with t=%s, its time is %.9g", a.number, a.time.c_str(), start + ref.T(at))); }
						if (!okIt) { bad("console", fmt("snapshot %lld is announced after %lld steps, there were %zu", a.number, a.iteration, at)); }
						if (a.count != cnt) { bad("console", fmt("snapshot %lld is announced with %lld particles, %lld are not disabled", a.number, a.count, cnt)); }
					}
					if (lines != 1) { bad("console", fmt("snapshot %lld is announced %d times", first + k, lines)); }
				}
			}
			if (content) { for (auto& a : r.ann) { if (a.number < first || a.number > first + n) { bad("console", fmt("snapshot %lld is announced, last is %lld", a.number, first + n)); } } }
			if (!found.empty() && !exact() && sensitive(init, ref, until)) { probe["inconclusive_sensitive"]++; return; }
			for (auto& v : found) { fail(v.cls, v.msg); }
		}

		// looks for a scene that fails as late as wanted: the tolerance of the solver (seek 1) or the distance of the particles (seek 2) is bisected between never and at once
		void seek(double until)
		{
			const auto was = plan; const bool eps = num(plan, "seek") == 1;
			const auto wanted = static_cast<std::size_t>(num(plan, "late", 2));
			auto with = [&](double m) { auto q = was; if (eps) { q.env.eps = std::pow(10.0, m); } else { for (auto& x : q.ps) { for (int c = 0; c < 3; c++) { x.s.x[c] *= m; } } } return q; };
			double lo = eps ? -20 : 0.35, hi = eps ? -9 : 2.2; // fails at lo
			std::size_t best = 0; Plan bestPlan = with(lo);
			for (int k = 0; k < 9; k++)
			{
				const double m = 0.5 * (lo + hi);
				auto q = with(m);
				const auto r = direct(q, initial(q, f.dim), until, static_cast<std::size_t>(num(plan, "maxsteps", 60)));
				const bool in = r.failed && r.st.back().T < until * 0.999;
				if (in && r.st.size() > best) { best = r.st.size(); bestPlan = q; }
				if (in && best > wanted) { probe["sought_late_failure"]++; break; }
				(in ? lo : hi) = m;
			}
			plan = bestPlan;
		}

		void run()
		{
			auto init = initial(plan, f.dim);
			const long long S = num(plan, "S"), E = num(plan, "E"), n = ceilDiv(E - S, D()), first = ceilDiv(S, D());
			const double until = static_cast<double>(n) * d() * (1 + 1e-9);
			if (init.empty()) { return; }
			if (num(plan, "seek")) { seek(until); init = initial(plan, f.dim); }
			const auto ref = direct(plan, init, until, static_cast<std::size_t>(num(plan, "maxsteps", 150)));
			if (ref.cut) { probe["too_long"]++; return; }
			simTime += ref.st.back().T;
			if (ref.failed) { probe["failing_scene"]++; }
			const auto xml = xmlOf(inputOf(plan, f));
			os::Faults none; none.maxSteps = static_cast<long long>(ref.st.size()) * 4 + 100; none.maxOps = 20000 + 40 * static_cast<long long>(init.size()) * (n + 2);
			if (is("C21")) { runC21(ref, init, xml, none); return; }
			if (ref.failed) { return; }
			const auto base = program(xml, none);
			if (!sane(base, "without faults")) { return; }
			if (is("C15")) { judgeRun(base, ref, init, S, E, "", true, false); return; }
			if (is("C16")) { judgeRun(base, ref, init, S, E, "", false, true); return; }
			if (is("C17")) { runC17(base, xml, none, S, E); return; }
			if (is("C18")) { runC18(base, xml, none, first, n); return; }
			if (is("C20")) { runC20(base, xml, none, first, n); return; }
		}

		static long long at(double v, unsigned long long count) { return count == 0 ? -1 : std::min(static_cast<long long>(v * static_cast<double>(count)), static_cast<long long>(count) - 1); }

		// ---- C17
		void runC17(const os::Result& base, const std::string& xml, const os::Faults& none, long long S, long long E)
		{
			const long long first = ceilDiv(S, D()), n = ceilDiv(E - S, D());
			for (auto& o : plan.ops)
			{
				if (o.kind != "resume") { continue; }
				os::Result r1 = base;
				if (o.preThrow) // killed first
				{
					os::Faults fl = none; fl.crashOp = at(std::fmod(o.v * 977, 1.0), base.ops); fl.torn = o.failAlloc == 1;
					r1 = program(xml, fl);
					if (!sane(r1, "killed run")) { return; }
				}
				if (r1.ann.empty()) { continue; }
				const auto& a = r1.ann[static_cast<std::size_t>(at(o.v, r1.ann.size()))];
				const long long k = a.number - first;
				if (k < 0 || k > n) { fail("number", fmt("snapshot %lld was announced, the first is %lld, the last %lld", a.number, first, first + n)); return; }
				if (!r1.files.count(fileName(a.number))) { fail("lost", "announced snapshot " + fileName(a.number) + " does not exist"); return; }
				const auto textOf = r1.files.at(fileName(a.number));
				const auto sn = parse(textOf, f.dim);
				if (!sn.ok) { fail("format", fileName(a.number) + ": " + sn.why); return; }
				if (!sn.finite) { probe["not_finite"]++; continue; }
				// a new run from it
				const long long S2 = S + k * D();
				auto in = inputOf(plan, f); in.cond[0].second = dec(S2, num(plan, "Q")); in.tableText = textOf;
				auto init2 = sn.s;
				const long long n2 = ceilDiv(E - S2, D());
				const double until = static_cast<double>(n2) * d() * (1 + 1e-9);
				const auto ref2 = direct(plan, init2, until, static_cast<std::size_t>(num(plan, "maxsteps", 150)) * 2);
				if (ref2.cut || ref2.failed) { probe["resume_too_long_or_failing"]++; }
				os::Faults fl = none; fl.maxSteps = static_cast<long long>(ref2.st.size()) * 4 + 100;
				const auto r2 = program(xmlOf(in), fl);
				if (!sane(r2, "resumed run")) { return; }
				probe["resumed"]++; if (o.preThrow) { probe["resumed_after_kill"]++; }
				for (auto& q : sn.s) { if (q.type == 3) { probe["resumed_with_disabled"]++; break; } }
				if (r2.opened.empty()) { fail("rejected", fmt("snapshot %lld is not accepted as input: ", a.number) + r2.how + " " + r2.what); return; }
				// re-emitted under the same number with the same content
				const auto name = fileName(first + k);
				if (!r2.files.count(name)) { fail("renumbered", "the resumed run does not write " + name + " but " + r2.opened[0]); return; }
				const auto s2 = parse(r2.files.at(name), f.dim);
				if (!s2.ok) { fail("format", name + " of the resumed run: " + s2.why); return; }
				if (s2.cells.size() != sn.cells.size()) { fail("changed", fmt("%zu rows were resumed, %zu written", sn.cells.size(), s2.cells.size())); return; }
				for (std::size_t i = 0; i < s2.cells.size(); i++)
				{
					if (s2.s[i].type != sn.s[i].type) { fail("changed", fmt("row %zu of the resumed snapshot: type %d became %d", i + 1, sn.s[i].type, s2.s[i].type)); return; }
					const PState &p1 = sn.s[i], &p2 = s2.s[i];
					for (int c = 0; c < 3; c++) { if (p1.x[c] != p2.x[c] || p1.u[c] != p2.u[c]) { fail("changed", fmt("row %zu of the resumed snapshot differs: x %.9g u %.9g became x %.9g u %.9g", i + 1, p1.x[c], p1.u[c], p2.x[c], p2.u[c])); return; } }
					if (p1.p != p2.p || p1.n != p2.n) { fail("changed", fmt("row %zu of the resumed snapshot differs: p %.9g n %.9g became p %.9g n %.9g", i + 1, p1.p, p1.n, p2.p, p2.n)); return; }
				}
				if (ref2.cut || ref2.failed) { continue; }
				judgeRun(r2, ref2, init2, S2, E, "resumed run: ", true, true);
				if (!viol.empty()) { return; }
			}
		}

		// ---- C18
		void runC18(const os::Result& base, const std::string& xml, const os::Faults& none, long long first, long long n)
		{
			std::set<long long> scen; for (auto& o : plan.ops) { scen.insert(o.g); }
			for (auto sc : scen)
			{
				os::Faults fl = none; bool crash = false;
				for (auto& o : plan.ops)
				{
					if (o.g != sc) { continue; }
					if (o.kind == "crash") { fl.crashOp = at(o.v, base.ops); fl.torn = o.preThrow; crash = true; }
					else if (o.kind == "open") { fl.openErr = at(o.v, base.opens); fl.openForever = o.preThrow; fl.openErrno = o.failAlloc > 0 ? static_cast<int>(o.failAlloc) : EACCES; }
					else if (o.kind == "write") { fl.writeErr = at(o.v, base.writes); fl.writeForever = o.preThrow; fl.writeErrno = o.failAlloc > 0 ? static_cast<int>(o.failAlloc) : EIO; }
					else if (o.kind == "close") { fl.closeErr = at(o.v, base.closes); }
					else if (o.kind == "rename") { fl.renameErr = at(o.v, base.renames); fl.renameErrno = o.failAlloc > 0 ? static_cast<int>(o.failAlloc) : EACCES; }
					else if (o.kind == "disk") { fl.disk = at(o.v, base.bytes); }
					else if (o.kind == "short") { fl.shortWrites = true; }
					else if (o.kind == "mkdir") { fl.mkdirMode = static_cast<int>(o.failAlloc); }
					else if (o.kind == "memory") { fl.mem = at(o.v, base.allocs); }
				}
				const auto r = program(xml, fl);
				if (!sane(r, "with faults", fl.mem < 0)) { return; }
				probe["fault_runs"]++;
				const bool mem = fl.mem >= 0;
				auto same = [&](const std::string& name, const std::string& c, std::string& why)
				{
					const auto want = base.files.find(name);
					if (want == base.files.end()) { why = "it is not due"; return false; }
					if (c == want->second) { return true; }
					if (!mem) { why = fmt("%zu of %zu bytes, differing", c.size(), want->second.size()); return false; }
					const auto a = parse(c, f.dim), b = parse(want->second, f.dim);
					if (!a.ok) { why = a.why; return false; }
					if (a.s.size() != b.s.size()) { why = fmt("%zu rows instead of %zu", a.s.size(), b.s.size()); return false; }
					return true;
				};
				for (auto& a : r.ann)
				{
					const auto name = fileName(a.number); std::string why;
					if (!a.exists) { fail("absent", fmt("snapshot %lld was announced without its file", a.number)); return; }
					if (!same(name, a.content, why)) { fail("incomplete", fmt("snapshot %lld was announced but its file is not complete: ", a.number) + why); return; }
					if (!r.files.count(name) || r.files.at(name) != a.content || r.versions.at(name) != a.version) { fail("modified", fmt("snapshot %lld was modified after it had been announced", a.number)); return; }
					probe["announced_checked"]++;
				}
				if ((crash || fl.mem >= 0) && r.how == "crash") { probe["killed"]++; continue; }
				// everything else must be complete or the run must have stopped there with an error
				const bool error = r.how == "exception" || r.how == "assert" || (r.how == "return" && r.ret != 0) || r.console.find("ERROR") != std::string::npos;
				long long broken = -1;
				std::set<long long> announced; for (auto& a : r.ann) { announced.insert(a.number); }
				for (long long k = 0; k <= n && broken < 0; k++) { std::string why; const auto name = fileName(first + k); if (!r.files.count(name) || !same(name, r.files.at(name), why)) { broken = first + k; } }
				if (broken >= 0)
				{
					probe["incomplete_snapshot"]++;
					if (!error) { fail("silent", fmt("snapshot %lld could not be written completely and the run ended without an error", broken)); return; }
					for (auto& q : r.files) { long long k = -1; if (std::sscanf(q.first.c_str(), "result/particles_%lld.csv", &k) == 1 && k > broken) { fail("continued", fmt("snapshot %lld could not be written completely and the run continued with %lld", broken, k)); return; } }
					for (auto k : announced) { if (k >= broken) { fail("continued", fmt("snapshot %lld could not be written completely and %lld was announced", broken, k)); return; } }
				}
			}
		}

		// ---- C20
		void runC20(const os::Result& base, const std::string& xml, const os::Faults& none, long long first, long long n)
		{
			os::Faults fl = none;
			for (auto& o : plan.ops)
			{
				if (o.kind == "clock") { fl.clock.push_back({ at(o.v, base.ops), o.failAlloc }); }
				else if (o.kind == "console") { fl.conErr = at(o.v, base.conOps); }
				else if (o.kind == "left")
				{
					const auto num_ = first + static_cast<long long>(o.v * static_cast<double>(n + 3));
					std::string c;
					if (o.failAlloc == 0) { c = "Type, x, z, u, w, p, n\n"; }
					else if (o.failAlloc == 1) { for (int i = 0; i < 400; i++) { c += "0, 1.5, 2.5, 0.25, 0.125, 77, 6.5\n"; } }
					else { c = "garbage without end"; }
					fl.left.push_back({ fileName(num_), c });
				}
			}
			const auto r = program(xml, fl);
			if (!sane(r, "disturbed run")) { return; }
			probe["disturbed_runs"]++;
			if (base.how != r.how || base.ret != r.ret) { fail("end", "the disturbed run ended with " + r.how + fmt(" (status %d) ", r.ret) + r.what + "; undisturbed it ends with " + base.how); return; }
			for (auto& q : base.files)
			{
				const auto it = r.files.find(q.first);
				if (it == r.files.end()) { fail("missing", q.first + " is not written in the disturbed run"); return; }
				if (it->second != q.second) { fail("content", q.first + fmt(" differs from the undisturbed run (%zu and %zu bytes)", it->second.size(), q.second.size())); return; }
				probe["compared_files"]++;
			}
			for (auto& q : r.files)
			{
				bool was = false; for (auto& l : fl.left) { if (l.first == q.first) { was = true; } }
				if (!base.files.count(q.first) && !was) { fail("extra", q.first + " is written only in the disturbed run"); return; }
			}
		}

		// ---- C21
		void runC21(const Ref& ref, const std::vector<PState>& init, const std::string& xml, const os::Faults& none)
		{
			const long long S = num(plan, "S"), E = num(plan, "E"), n = ceilDiv(E - S, D()), first = ceilDiv(S, D());
			const auto r = program(xml, none);
			if (!sane(r, "failing run")) { return; }
			if (!ref.failed) { probe["did_not_fail"]++; return; }
			if (ref.st.back().T >= static_cast<double>(n) * d() * (1 - 1e-9)) { probe["fails_at_the_end"]++; return; } // within round-off of the last snapshot: may not be needed
			probe[ref.what.find("block") != std::string::npos ? "full_cell" : "solver_failure"]++;
			probe[fmt("fails_at_step_%s", ref.st.size() == 1 ? "1" : ref.st.size() < 4 ? "2-3" : "4+")]++;
			// snapshots reached before the failure
			// (one that is due within round-off of the last good step may or may not have been)
			long long done = 0, may = 0;
			for (long long k = 1; k <= n; k++)
			{
				if (!due(ref, k).empty()) { may = k; }
				if (ref.st.back().T >= static_cast<double>(k) * d() * (1 + 1e-9)) { done = k; }
			}
			if (may > done) { probe["due_within_roundoff_of_the_failure"]++; }
			if (done > 0) { probe["snapshots_before_failure"]++; }
			std::vector<Violation> found;
			auto bad = [&](const std::string& c, const std::string& m) { found.push_back(Violation{ c, m }); };
			if (r.how != "return") { bad("end", "the program ended with " + r.how + ": " + r.what); }
			for (long long k = 0; k <= may; k++)
			{
				const auto it = r.files.find(fileName(first + k));
				if (it == r.files.end() && k > done) { break; }
				if (it == r.files.end()) { bad("missing", fileName(first + k) + " was due before the failure and is missing"); break; }
				const auto sn = parse(it->second, f.dim);
				if (!sn.ok) { bad("format", it->first + ": " + sn.why); break; }
				std::string why; bool hit = false;
				for (auto i : due(ref, k)) { if (match(sn, ref.st[i].s, exact() ? 0 : 1e-4, why)) { hit = true; break; } }
				if (!hit) { bad("content", it->first + ": " + why); break; }
				int lines = 0; for (auto& a : r.ann) { lines += a.number == first + k; }
				if (lines != 1) { bad("announced", fmt("snapshot %lld before the failure is announced %d times", first + k, lines)); break; }
			}
			for (auto& q : r.files) { long long k = -1; if (std::sscanf(q.first.c_str(), "result/particles_%lld.csv", &k) != 1 || k > first + may) { bad("extra", q.first + " was written although the computation failed before"); break; } }
			for (auto& a : r.ann) { if (a.number > first + may) { bad("extra", fmt("snapshot %lld was announced although the computation failed before", a.number)); break; } }
			// the message
			const auto e = r.console.find("ERROR");
			if (e == std::string::npos) { bad("message", "no error message was printed"); }
			else
			{
				const auto l = r.console.find("\n#", e); long long nb = -1, it = -1; char t[64] = "";
				if (l == std::string::npos || std::sscanf(r.console.c_str() + l + 1, "#%lld: t=%63s (%lld)", &nb, t, &it) != 3) { bad("message", "the error message does not give number, time and steps"); }
				else
				{
					const double want = val(dec(S, num(plan, "Q"))) + ref.st.back().T;
					if (nb < first + done + 1 || nb > first + may + 1) { bad("message", fmt("the error message gives snapshot %lld, %lld failed", nb, first + done + 1)); }
					if (it != static_cast<long long>(ref.st.size()) - 1) { bad("message", fmt("the error message gives %lld steps, there were %zu", it, ref.st.size() - 1)); }
					if (std::fabs(val(t) - want) > 1e-5 * std::fabs(want) + 1e-12 * d()) { bad("message", fmt("the error message gives t=%s, it was %.9g", t, want)); }
				}
			}
			probe["judged_failures"]++;
			if (!found.empty() && !exact())
			{
				const double until = static_cast<double>(n) * d() * (1 + 1e-9);
				if (sensitive(init, ref, until)) { probe["inconclusive_sensitive"]++; return; }
			}
			for (auto& v : found) { fail(v.cls, v.msg); }
		}
#else
#include "app19.hpp"
#endif
	};

	// ------------------------------------------------------------------ seed -> plan
	Plan generate(const std::string& prop, unsigned long long seed, const EngineFlags& f, bool thorough)
	{
		for (unsigned long long tries = 0;; tries++)
		{
			Gen g(tries ? sim::mix(seed, tries) : seed, f, thorough);
			Plan p = g.make(prop);
			p.seed = seed;
			sim::Rng r(sim::mix(seed, 0xA99));
			if (p.ps.empty() || p.ps.size() > (thorough || r.chance(0.12) ? 220u : prop == "C21" ? 45u : 70u)) { if (tries < 30) { continue; } }
			auto pick = [&](std::initializer_list<double> l) { return *(l.begin() + static_cast<long>(r.below(l.size()))); };
			p.ops.clear(); p.wallKind = 0; for (auto& q : p.ps) { q.group = 0; }
			p.vclMin = 5000;
			if (r.chance(0.65) || prop == "C19") { p.sched.threads = 1; }
			auto& e = p.env;
			e.eps = r.chance(0.5) ? 1e-8 : 1e-10;
			if (prop == "C21")
			{
				if (r.chance(0.85)) { e.eps = pick({ 1e-14, 1e-15, 1e-16, 1e-17, 1e-20 }); if (r.chance(0.8)) { p.cfg["seek"] = "1"; p.cfg["late"] = std::to_string(1 + r.below(6)); } }
				if (r.chance(0.3))
				{
					// so dense that a cell overflows, at once or some steps later
					const double pitch = e.l0 * r.range(0.45, 0.8); const int m = 4 + static_cast<int>(r.below(4)); const double sp = pick({ 0.1, 1, 5, 20 }) * e.courant * e.l0 / 0.05;
					p.ps.clear(); p.family = "crush"; if (r.chance(0.75)) { p.cfg["seek"] = "2"; p.cfg["late"] = std::to_string(1 + r.below(6)); e.eps = 1e-8; } else { p.cfg.erase("seek"); }
					for (int i = 0; i < m; i++) { for (int k = 0; k < m; k++)
					{
						PlanParticle q{}; q.s.type = r.chance(0.95) ? 0 : 1; q.s.x[0] = pitch * (i + r.range(-0.1, 0.1)); q.s.x[2] = pitch * (k + r.range(-0.1, 0.1));
						if (q.s.type == 0) { q.s.u[0] = sp * (0.5 * m - i) + sp; q.s.u[2] = sp * (0.5 * m - k); }
						p.ps.push_back(q);
					} }
					for (int k = 0; k < 3; k++) { e.min[k] = k == 1 ? 0 : -3 * e.l0 - r.uni() * 3 * e.l0; e.max[k] = k == 1 ? 0 : (m + 6) * e.l0; }
				}
			}
			if ((prop == "C17" || prop == "C16") && r.chance(0.06))
			{
				// a flow that has all but come to rest: numbers about the smallest a double can have
				const double tiny = std::pow(10.0, r.range(-316, -290));
				e.g = 0; p.cfg["tiny"] = "1";
				for (auto& q : p.ps) { for (auto& v : q.s.u) { v *= tiny; } q.s.p *= tiny; }
			}
			double um = 0; for (auto& q : p.ps) { if (q.s.type != 3) { um = std::max(um, std::hypot(std::hypot(q.s.u[0], q.s.u[1]), q.s.u[2])); } }
			const double ff = std::sqrt(2 * e.courant * e.l0 / std::max(e.g, 0.1));
			const double dt = std::min(std::min(e.maxDt, ff), um > 1e-100 ? e.courant * e.l0 / um : 1e300);
			const long long m = 1 + static_cast<long long>(r.below(3));
			const double target = dt * static_cast<double>(m) * r.range(0.5, 1.5);
			long long q = std::max(0ll, static_cast<long long>(std::ceil(-std::log10(target)))) + static_cast<long long>(r.below(3));
			long long D = std::max(1ll, static_cast<long long>(std::llround(target * std::pow(10.0, static_cast<double>(q)))));
			long long n = static_cast<long long>(r.below(prop == "C15" ? 8 : 5)) + (prop == "C15" ? 0 : 1);
			if (prop == "C19") { n = 1; }
			long long S = r.chance(0.5) ? 0 : r.chance(0.6) ? D * static_cast<long long>(r.below(200)) : static_cast<long long>(r.below(static_cast<unsigned long long>(60 * D + 1)));
			long long E = S + n * D - (n > 0 && r.chance(0.4) ? static_cast<long long>(r.below(static_cast<unsigned long long>(D))) : 0);
			if (prop == "C15" && r.chance(0.06)) { E = r.chance(0.5) ? S : S / 2; }
			if ((prop == "C15" || prop == "C17") && r.chance(0.12)) { S = D * static_cast<long long>(r.below(2000000)); E = S + n * D; } // far into a long series of runs
			if (prop == "C15" && r.chance(0.15)) // almost, but not quite, a multiple of the interval
			{
				const long long up = static_cast<long long>(pick({ 1e2, 1e3, 1e4, 1e5 }));
				q += static_cast<long long>(std::llround(std::log10(static_cast<double>(up))));
				D *= up; S = S > 100 * D ? 0 : S * up; E = S + n * D;
				const long long off = 1 + E / 5000000; // closer than that counts as round-off
				if (r.chance(0.5)) { E += off * (static_cast<long long>(r.below(7)) - 3); }
				if (S > 3 * off && r.chance(0.5)) { const long long d = off * (static_cast<long long>(r.below(7)) - 3); S += d; E += r.chance(0.5) ? d : 0; }
			}
			p.cfg["S"] = std::to_string(S); p.cfg["E"] = std::to_string(E); p.cfg["D"] = std::to_string(D); p.cfg["Q"] = std::to_string(q);
			p.cfg["minstep"] = std::to_string(static_cast<long long>(pick({ 1, 1, 2, 3, 10 })));
			p.cfg["prec"] = std::to_string(static_cast<long long>(pick({ 17, 17, 9, 6 })));
			p.cfg["order"] = std::to_string(r.chance(0.5) ? 0 : static_cast<long long>(r.below(100000)) + 1);
			p.cfg["space"] = std::to_string(r.below(4));
			if (thorough) { p.cfg["maxsteps"] = "400"; }
			auto op = [&](const char* k, double v, long long gidx, long long a, bool b) { Op o; o.kind = k; o.v = v; o.g = gidx; o.failAlloc = a; o.preThrow = b; p.ops.push_back(o); };
			if (prop == "C17") { const int c = 1 + static_cast<int>(r.below(2)); for (int k = 0; k < c; k++) { op("resume", r.uni(), k, static_cast<long long>(r.below(2)), r.chance(0.5)); } }
			if (prop == "C18")
			{
				const int c = 2 + static_cast<int>(r.below(4));
				for (int k = 0; k < c; k++)
				{
					switch (r.below(10))
					{
					case 0: case 1: case 2: op("crash", r.uni(), k, -1, r.chance(0.5)); break;
					case 3: op("open", r.uni(), k, static_cast<long long>(pick({ 13, 2, 24, 28 })), r.chance(0.5)); break;
					case 4: op("write", r.uni(), k, static_cast<long long>(pick({ 5, 28, 4 })), r.chance(0.3)); break;
					case 5: op("close", r.uni(), k, -1, false); op("rename", r.uni(), k, static_cast<long long>(pick({ 13, 28, 5 })), false); break;
					case 6: op("disk", r.uni(), k, -1, false); break;
					case 7: op("open", r.uni(), k, static_cast<long long>(pick({ 13, 2, 24, 28 })), false); op("write", r.uni(), k, 5, false); op("rename", r.uni(), k, 13, false); break;
					case 8: op("mkdir", 0, k, 1 + static_cast<long long>(r.below(2)), false); break;
					case 9: op("write", 0.999999, k, 5, false); break; // the very last write
					}
					if (r.chance(0.3)) { op("short", 0, k, -1, false); }
				}
			}
			if (prop == "C20")
			{
				const int c = static_cast<int>(r.below(4)); for (int k = 0; k < c; k++) { op("clock", r.uni(), 0, static_cast<long long>(pick({ -1, -3600, 3600, -86400.0 * 365 * 60, 86400.0 * 365 * 40, 86400.0 * 30, -1e6 })), false); }
				if (r.chance(0.4)) { op("console", r.chance(0.3) ? 0 : r.uni(), 0, -1, false); }
				const int l = static_cast<int>(r.below(3)); for (int k = 0; k < l; k++) { op("left", r.uni(), 0, static_cast<long long>(r.below(3)), false); }
				if (p.ops.empty()) { op("clock", r.uni(), 0, -86400, false); }
			}
			if (prop == "C19") { const int c = 3 + static_cast<int>(r.below(5)); for (int k = 0; k < c; k++) { op("damage", r.uni(), static_cast<long long>(r.next() >> 40), static_cast<long long>(r.below(27)), false); } }
			return p;
		}
	}

	// ------------------------------------------------------------------ one case in a process of its own
	std::string clean(std::string s) { for (auto& c : s) { if (c == '\n' || c == '\r' || c == '\t') { c = ' '; } } return s.substr(0, 500); }
	std::string isolated(const Plan& plan, const EngineFlags& f)
	{
		int fd[2]; if (::pipe(fd) != 0) { ::_exit(3); }
		std::fflush(stdout); std::cout.flush();
		const pid_t pid = ::fork();
		if (pid < 0) { ::_exit(3); }
		if (pid == 0)
		{
			::close(fd[0]);
			const char* slow = std::getenv("SIM_CPU"); const rlim_t cpu = 60 * (slow ? static_cast<rlim_t>(std::atoi(slow)) : 1);
			rlimit rl{ cpu, cpu + 10 }; setrlimit(RLIMIT_CPU, &rl);
			std::string s;
			{
				App a(plan, f); a.run();
				for (auto& v : a.viol) { s += "V\t" + v.cls + "\t" + clean(v.msg) + "\n"; }
				s += fmt("I\t%016llx\t%016llx\t%lld\t%.9g\t%llu\t%llu\t%llu\t0\t0\t%llu\t%s\t%zu\n", static_cast<unsigned long long>(a.hash), static_cast<unsigned long long>(a.ileave), a.steps, a.simTime, a.par, a.accesses, a.switches, a.maxTeam, plan.family.c_str(), plan.ps.size());
				s += "P"; for (auto& q : a.probe) { s += "\t" + q.first + "=" + std::to_string(q.second); } s += "\n";
			}
			s += "E\n";
			std::size_t o = 0; while (o < s.size()) { const auto n = ::write(fd[1], s.data() + o, s.size() - o); if (n <= 0) { break; } o += static_cast<std::size_t>(n); }
			::_exit(0);
		}
		::close(fd[1]);
		std::string out; char buf[65536];
		for (;;) { const auto n = ::read(fd[0], buf, sizeof buf); if (n <= 0) { break; } out.append(buf, static_cast<std::size_t>(n)); }
		::close(fd[0]);
		int st = 0; ::waitpid(pid, &st, 0);
		if (out.size() < 2 || out.compare(out.size() - 2, 2, "E\n") != 0) { out = "V\t" + plan.prop + ":crash\tthe engine called directly ended with signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + "\nE\n"; }
		return out;
	}
}

#ifdef APP_ASAN
// no simulated threads in this build
namespace sim
{
	static Stats g_stats{}; static std::vector<Event> g_ev; static std::vector<std::string> g_s;
	void reset(const SchedConfig&) {} void reset_replay(const std::vector<Event>&) {} void serial_mode(bool) {}
	const std::vector<Event>& trace() { return g_ev; } const std::vector<std::string>& races() { return g_s; }
	u64 interleaving_hash() { return 0; } const Stats& stats() { return g_stats; }
	void alloc_arm(long long) {} long long alloc_disarm() { return 0; } bool alloc_fired() { return false; }
	bool alloc_pause() { return false; } void alloc_resume(bool) {} void heap_arena() {} void heap_fill(unsigned char) {}
	void (*fatal_hook)(const char*) = nullptr;
	u64 mix(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull)); r.next(); return r.next(); }
	std::string Event::str() const { return ""; } bool Event::parse(const std::string&, Event&) { return false; }
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:alloc_dealloc_mismatch=0:detect_container_overflow=0:allocator_may_return_null=1:max_allocation_size_mb=3000:exitcode=99:abort_on_error=0:handle_abort=0"; }
static EngineFlags theFlags()
{
	EngineFlags f{}; f.spp = true; f.vcl = true;
#ifdef DIM3
	f.dim = 3;
#else
	f.dim = 2;
#endif
	return f;
}
#else
static EngineFlags theFlags() { return engine_flags(); }
#endif

int main(int argc, char** argv)
{
#ifndef APP_ASAN
	const int per = ::personality(0xffffffff);
	if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && ::personality(static_cast<unsigned long>(per) | ADDR_NO_RANDOMIZE) != -1) { ::execv("/proc/self/exe", argv); }
#endif
	std::vector<std::string> pos; bool thorough = false;
	for (int i = 1; i < argc; i++)
	{
		const std::string a = argv[i];
		if (a == "--thorough") { thorough = true; } else if (a == "--record") { i++; } else { pos.push_back(a); }
	}
	if (pos.empty()) { return 3; }
	const auto f = theFlags();
	if (pos[0] == "gen" && pos.size() == 3) { std::cout << generate(pos[1], std::strtoull(pos[2].c_str(), nullptr, 10), f, thorough).str(); return 0; }
	if (pos[0] == "xml" && pos.size() == 2) { std::ifstream in(pos[1]); std::cout << xmlOf(inputOf(Plan::parse(in), f)); return 0; }
	if (pos[0] == "run" && pos.size() == 2)
	{
		std::ifstream in(pos[1]); if (!in) { return 3; }
		std::cout << isolated(Plan::parse(in), f);
		return 0;
	}
	if (pos[0] == "batch" && pos.size() == 6)
	{
		const auto base = std::strtoull(pos[2].c_str(), nullptr, 10), start = std::strtoull(pos[3].c_str(), nullptr, 10), count = std::strtoull(pos[4].c_str(), nullptr, 10), stride = std::strtoull(pos[5].c_str(), nullptr, 10);
		for (auto i = start; i < count; i += stride)
		{
			const auto seed = sim::mix(base, i) >> 1;
			const auto rep = isolated(generate(pos[1], seed, f, thorough), f);
			std::cout << "N\t" << i << "\t" << seed << "\n" << rep << std::flush;
			if (rep.find(":hang\t") != std::string::npos) { break; } // the others of this batch would take as long
		}
		return 0;
	}
	return 3;
}
