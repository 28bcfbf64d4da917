// esim_<variant>: gen / run / batch of simulated engine runs. One process per run.
#include "exec.hpp"
#include "gen.hpp"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/personality.h>

namespace
{
	struct Opts { std::string record; bool dump = false; bool thorough = false; };

	const Plan* g_plan = nullptr;
	std::string g_record;
	int g_out = 1;

	void put(const std::string& s) { std::size_t o = 0; while (o < s.size()) { const auto n = ::write(g_out, s.data() + o, s.size() - o); if (n <= 0) { break; } o += static_cast<std::size_t>(n); } }
	void saveTrace()
	{
		if (g_record.empty() || !g_plan) { return; }
		Plan p = *g_plan; p.haveEvents = true; p.ev = sim::trace();
		const std::string s = p.str();
		const int fd = ::open(g_record.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (fd < 0) { return; }
		std::size_t o = 0; while (o < s.size()) { const auto n = ::write(fd, s.data() + o, s.size() - o); if (n <= 0) { break; } o += static_cast<std::size_t>(n); }
		::close(fd);
	}
	std::string clean(std::string s) { for (auto& c : s) { if (c == '\n' || c == '\r' || c == '\t') { c = ' '; } } return s.substr(0, 400); }
	void onSignal(int sig)
	{
		std::signal(sig, SIG_DFL);
		static volatile int once = 0;
		if (!once) { once = 1; saveTrace(); }
		if (sig == SIGXCPU) { ::_exit(77); }
		::raise(sig);
	}
	Exec* g_exec = nullptr;
	void onFatal(const char* what)
	{
		const std::string w = what;
		const bool dead = w.find("deadlock") != std::string::npos || sim::deadlocked();
		put("V\t" + g_plan->prop + (dead ? ":deadlock" : ":stuck") + "\t" + clean(w) + "\n");
		put("E\n");
		saveTrace();
		::_exit(0);
	}

	// in the child
	void child(const Plan& plan, const Opts& o)
	{
		const char* slow = std::getenv("SIM_CPU"); const rlim_t cpu = 20 * (slow ? static_cast<rlim_t>(std::atoi(slow)) : 1);
		rlimit rl{ cpu, cpu + 5 }; setrlimit(RLIMIT_CPU, &rl);
		rlimit ra{ 3ull << 30, 3ull << 30 }; setrlimit(RLIMIT_AS, &ra);
		rlimit rc{ 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
		stack_t ss{}; ss.ss_size = 1 << 18; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		sigaltstack(&ss, nullptr);
		for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU }) { struct sigaction sa{}; sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr); }
		g_plan = &plan; g_record = o.record;
		sim::fatal_hook = onFatal;
		if (plan.haveEvents) { sim::reset_replay(plan.ev); } else { sim::reset(plan.sched); }
		sim::heap_arena();
		sim::heap_fill(static_cast<unsigned char>(plan.fill));
		{
			Exec x(plan); g_exec = &x; x.wantDump = o.dump;
			x.run();
			if (x.is("C02") || x.is("C25")) { for (auto& r : sim::races()) { x.fail(x.plan.prop + ":race", r); } }
			std::string s;
			for (auto& v : x.viol) { s += "V\t" + v.cls + "\t" + clean(v.msg) + "\n"; }
			const auto& st = sim::stats();
			char b[512];
			std::snprintf(b, sizeof b, "I\t%016llx\t%016llx\t%lld\t%.9g\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%s\t%zu\n", static_cast<unsigned long long>(x.hash), static_cast<unsigned long long>(sim::interleaving_hash()), x.steps, x.simTime,
				static_cast<unsigned long long>(st.parRegions), static_cast<unsigned long long>(st.accesses), static_cast<unsigned long long>(st.switches), static_cast<unsigned long long>(st.atomics), static_cast<unsigned long long>(st.locks), static_cast<unsigned long long>(st.maxTeam), plan.family.c_str(), plan.ps.size());
			s += b;
			s += "P"; for (auto& q : x.probe) { s += "\t" + q.first + "=" + std::to_string(q.second); } s += "\n";
			if (o.dump) { s += x.dump; }
			s += "E\n";
			put(s);
			saveTrace();
			::_exit(0);
		}
	}

	// runs one plan in a child process; returns its report
	std::string isolated(const Plan& plan, const Opts& o)
	{
		int fd[2], er[2];
		if (::pipe(fd) != 0 || ::pipe(er) != 0) { std::perror("pipe"); std::exit(3); }
		std::fflush(stdout);
		const pid_t pid = ::fork();
		if (pid < 0) { std::perror("fork"); std::exit(3); }
		if (pid == 0)
		{
			::close(fd[0]); ::close(er[0]); g_out = fd[1];
			::dup2(er[1], 2); ::close(er[1]);
			const int dn = ::open("/dev/null", O_WRONLY); ::dup2(dn, 1);
			child(plan, o);
		}
		::close(fd[1]); ::close(er[1]);
		std::string out, err; char buf[65536];
		for (;;) { const auto n = ::read(fd[0], buf, sizeof buf); if (n <= 0) { break; } out.append(buf, static_cast<std::size_t>(n)); }
		for (;;) { const auto n = ::read(er[0], buf, sizeof buf); if (n <= 0) { break; } if (err.size() < 4000) { err.append(buf, static_cast<std::size_t>(n)); } }
		::close(fd[0]); ::close(er[0]);
		int st = 0; ::waitpid(pid, &st, 0);
		const bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && out.size() >= 2 && out.compare(out.size() - 2, 2, "E\n") == 0;
		if (!ok)
		{
			out.clear();
			if ((WIFEXITED(st) && WEXITSTATUS(st) == 77) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { out += "V\t" + plan.prop + ":hang\tthe run does not finish within its processor time\n"; }
			else if (WIFSIGNALED(st)) { out += "V\t" + plan.prop + ":crash\tprocess killed by signal " + std::to_string(WTERMSIG(st)) + ": " + clean(err) + "\n"; }
			else { out += "V\t" + plan.prop + ":exit\tprocess ended with status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1) + ": " + clean(err) + "\n"; }
			out += "E\n";
		}
		return out;
	}
}

int main(int argc, char** argv)
{
	// the same addresses in every process
	const int per = ::personality(0xffffffff);
	if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && ::personality(static_cast<unsigned long>(per) | ADDR_NO_RANDOMIZE) != -1) { ::execv("/proc/self/exe", argv); }
	std::vector<std::string> a(argv + 1, argv + argc);
	Opts o; std::vector<std::string> pos;
	for (std::size_t i = 0; i < a.size(); i++)
	{
		if (a[i] == "--record") { o.record = a[++i]; }
		else if (a[i] == "--dump") { o.dump = true; }
		else if (a[i] == "--thorough") { o.thorough = true; }
		else { pos.push_back(a[i]); }
	}
	if (pos.empty()) { return 3; }
	const auto f = engine_flags();
	if (pos[0] == "gen" && pos.size() == 3) { std::cout << Gen(std::strtoull(pos[2].c_str(), nullptr, 10), f, o.thorough).make(pos[1]).str(); return 0; }
	if (pos[0] == "run" && pos.size() == 2)
	{
		std::ifstream in(pos[1]); if (!in) { return 3; }
		const auto p = Plan::parse(in);
		std::cout << isolated(p, o);
		return 0;
	}
	// batch prop base start count stride
	if (pos[0] == "batch" && pos.size() == 6)
	{
		const auto base = std::strtoull(pos[2].c_str(), nullptr, 10);
		const auto start = std::strtoull(pos[3].c_str(), nullptr, 10), count = std::strtoull(pos[4].c_str(), nullptr, 10), stride = std::strtoull(pos[5].c_str(), nullptr, 10);
		for (auto i = start; i < count; i += stride)
		{
			const auto seed = sim::mix(base, i) >> 1;
			const auto p = Gen(seed, f, o.thorough).make(pos[1]);
			const auto rep = isolated(p, o);
			std::cout << "N\t" << i << "\t" << seed << "\n" << rep << std::flush;
			if (rep.find(":hang\t") != std::string::npos) { break; } // the others of this batch would take as long
		}
		return 0;
	}
	return 3;
}
