// Runs the real program once inside a forked child on the simulated operating system of appos.hpp.
#pragma once
#include "appos.hpp"
#include "plan.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

int openmps_main(const int argc, const char* const argv[]);

namespace os
{
	struct World
	{
		std::map<std::string, std::shared_ptr<File>> files;
		std::set<std::string> dirs;
		std::map<const File*, int> openHandles;
		std::string input;
		Faults f; Result r;
		std::string line;           // unfinished console line
		long long now = 1700000000; // simulated wall clock
		int out = -1;
		bool diskFull = false, openBad = false, writeBad = false;
	};
	static World* g = nullptr;      // only in a child while the program runs

	// ---- result through a pipe
	struct Out
	{
		std::string s;
		void n(u64 v) { s.append(reinterpret_cast<const char*>(&v), 8); }
		void t(const std::string& x) { n(x.size()); s += x; }
	};
	struct In
	{
		const std::string& s; std::size_t o = 0; bool bad = false;
		explicit In(const std::string& x) : s(x) {}
		u64 n() { u64 v = 0; if (o + 8 > s.size()) { bad = true; return 0; } std::memcpy(&v, s.data() + o, 8); o += 8; return v; }
		std::string t() { const auto k = n(); if (bad || o + k > s.size()) { bad = true; return ""; } auto x = s.substr(o, k); o += k; return x; }
	};
	inline std::string pack(const Result& r)
	{
		Out o; o.t(r.how); o.t(r.what); o.n(static_cast<u64>(static_cast<long long>(r.ret))); o.t(r.console);
		o.n(r.files.size()); for (auto& f : r.files) { o.t(f.first); o.t(f.second); o.n(static_cast<u64>(r.versions.at(f.first))); }
		o.n(r.ann.size()); for (auto& a : r.ann) { o.n(static_cast<u64>(a.number)); o.t(a.time); o.t(a.line); o.n(static_cast<u64>(a.iteration)); o.n(static_cast<u64>(a.count)); o.n(a.exists); o.t(a.content); o.n(static_cast<u64>(a.version)); o.n(a.open); }
		o.n(r.opened.size()); for (auto& a : r.opened) { o.t(a); }
		for (auto v : { r.ops, r.opens, r.writes, r.closes, r.renames, r.conOps, r.clocks, r.bytes, r.allocs, r.steps, r.oplog, r.ileave, r.accesses, r.switches, r.regions, r.parRegions, r.maxTeam }) { o.n(v); }
		o.n(r.fired.size()); for (auto& q : r.fired) { o.t(q.first); o.n(static_cast<u64>(q.second)); }
		o.n(r.races.size()); for (auto& q : r.races) { o.t(q); }
		o.t("end");
		return o.s;
	}
	inline bool unpack(const std::string& s, Result& r)
	{
		In i(s); r.how = i.t(); r.what = i.t(); r.ret = static_cast<int>(static_cast<long long>(i.n())); r.console = i.t();
		for (auto k = i.n(); k > 0 && !i.bad; k--) { auto a = i.t(); r.files[a] = i.t(); r.versions[a] = static_cast<long long>(i.n()); }
		for (auto k = i.n(); k > 0 && !i.bad; k--)
		{
			Announce a; a.number = static_cast<long long>(i.n()); a.time = i.t(); a.line = i.t(); a.iteration = static_cast<long long>(i.n()); a.count = static_cast<long long>(i.n()); a.exists = i.n() != 0; a.content = i.t(); a.version = static_cast<long long>(i.n()); a.open = i.n() != 0;
			r.ann.push_back(a);
		}
		for (auto k = i.n(); k > 0 && !i.bad; k--) { r.opened.push_back(i.t()); }
		for (auto v : { &r.ops, &r.opens, &r.writes, &r.closes, &r.renames, &r.conOps, &r.clocks, &r.bytes, &r.allocs, &r.steps, &r.oplog, &r.ileave, &r.accesses, &r.switches, &r.regions, &r.parRegions, &r.maxTeam }) { *v = i.n(); }
		for (auto k = i.n(); k > 0 && !i.bad; k--) { auto a = i.t(); r.fired[a] = static_cast<long long>(i.n()); }
		for (auto k = i.n(); k > 0 && !i.bad; k--) { r.races.push_back(i.t()); }
		return i.t() == "end" && !i.bad;
	}
	[[noreturn]] inline void finish(const char* how, const std::string& what = "", int ret = 0)
	{
		World* w = g; g = nullptr;
		if (!w) { ::_exit(98); }
		w->r.allocs = static_cast<u64>(sim::alloc_disarm());
		if (sim::alloc_fired()) { w->r.fired["allocation fails"]++; }
		w->r.how = how; w->r.what = what; w->r.ret = ret;
		for (auto& f : w->files) { w->r.files[f.first] = f.second->data; w->r.versions[f.first] = f.second->version; }
		const auto& st = sim::stats();
		w->r.ileave = sim::interleaving_hash(); w->r.accesses = st.accesses; w->r.switches = st.switches; w->r.regions = st.regions; w->r.parRegions = st.parRegions; w->r.maxTeam = st.maxTeam;
		w->r.races = sim::races();
		const auto s = pack(w->r);
		std::size_t o = 0; while (o < s.size()) { const auto n = ::write(w->out, s.data() + o, s.size() - o); if (n <= 0) { break; } o += static_cast<std::size_t>(n); }
		::_exit(0);
	}
	// one operation on the outside world
	inline void op(char kind, const std::string& arg)
	{
		auto& r = g->r;
		const auto k = static_cast<long long>(r.ops++);
		r.oplog = (r.oplog ^ static_cast<u64>(kind)) * 0x100000001B3ull; for (char c : arg) { r.oplog = (r.oplog ^ static_cast<unsigned char>(c)) * 0x100000001B3ull; }
		g->now += kind == 'w' ? 0 : 1;
		for (auto& c : g->f.clock) { if (c.first == k) { g->now += c.second; r.fired["clock jumps"]++; } }
		if (k == g->f.crashOp && !(kind == 'w' && g->f.torn)) { r.fired["process killed"]++; finish("crash"); }
		if (k > g->f.maxOps) { finish("runaway", "too many operations"); }
	}
	inline std::string norm(const std::string& p)
	{
		std::string s = p;
		while (s.compare(0, 2, "./") == 0) { s = s.substr(2); }
		std::string o; for (char c : s) { if (c == '/' && !o.empty() && o.back() == '/') { continue; } o += c; }
		while (o.size() > 1 && o.back() == '/') { o.pop_back(); }
		return o;
	}
	inline std::string parent(const std::string& p) { const auto k = p.rfind('/'); return k == std::string::npos ? "" : p.substr(0, k); }

	// ---- files
	struct Handle { std::shared_ptr<File> f; std::string name; std::size_t pos = 0; bool write = false, append = false, read = false; };
	inline ssize_t put(Handle* h, const char* b, std::size_t n)
	{
		if (h->append) { h->pos = h->f->data.size(); }
		if (h->f->data.size() < h->pos + n) { h->f->data.resize(h->pos + n); }
		std::memcpy(&h->f->data[h->pos], b, n); h->pos += n; h->f->version++; g->r.bytes += n;
		return static_cast<ssize_t>(n);
	}
	inline ssize_t cookieWrite(void* c, const char* b, std::size_t n)
	{
		if (!g || n == 0) { return static_cast<ssize_t>(n); }
		sim::AllocPauser ap;
		auto* h = static_cast<Handle*>(c);
		std::size_t done = 0;
		while (done < n)
		{
			std::size_t part = n - done;
			if (g->f.shortWrites && part > 1 && done == 0) { part = 1 + (g->r.ops * 7919) % (part - 1); g->r.fired["short write"]++; }
			const auto k = static_cast<long long>(g->r.writes++);
			const bool killHere = static_cast<long long>(g->r.ops) == g->f.crashOp && g->f.torn;
			op('w', h->name);
			if (killHere) { put(h, b + done, part / 2); g->r.fired["process killed in the middle of a write"]++; finish("crash"); }
			if (k == g->f.writeErr) { g->writeBad = g->f.writeForever; g->r.fired["write error"]++; errno = g->f.writeErrno; return static_cast<ssize_t>(done > 0 ? 0 : 0); }
			if (g->writeBad) { g->r.fired["write error"]++; errno = g->f.writeErrno; return 0; }
			if (g->f.disk >= 0 && static_cast<long long>(g->r.bytes + part) > g->f.disk)
			{
				const auto room = g->f.disk - static_cast<long long>(g->r.bytes);
				if (room > 0) { put(h, b + done, static_cast<std::size_t>(room)); }
				g->r.fired["disk full"]++; errno = ENOSPC; return 0;
			}
			put(h, b + done, part); done += part;
		}
		return static_cast<ssize_t>(n);
	}
	inline ssize_t cookieRead(void* c, char* b, std::size_t n)
	{
		if (!g) { return 0; }
		sim::AllocPauser ap;
		auto* h = static_cast<Handle*>(c);
		const auto& d = h->f->data;
		if (g->f.readErr >= 0 && static_cast<long long>(h->pos) >= g->f.readErr) { g->r.fired["read error"]++; errno = EIO; return -1; }
		if (h->pos >= d.size()) { return 0; }
		auto m = std::min(n, d.size() - h->pos);
		if (g->f.readErr >= 0) { m = std::min<std::size_t>(m, static_cast<std::size_t>(g->f.readErr) - h->pos); }
		if (g->f.shortReads && m > 1) { m = 1 + (h->pos * 31 + 17) % std::min<std::size_t>(m, 97); g->r.fired["short read"]++; }
		std::memcpy(b, d.data() + h->pos, m); h->pos += m;
		return static_cast<ssize_t>(m);
	}
	inline int cookieSeek(void* c, off64_t* off, int whence)
	{
		auto* h = static_cast<Handle*>(c);
		const off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<off64_t>(h->pos) : static_cast<off64_t>(h->f->data.size());
		if (base + *off < 0) { return -1; }
		h->pos = static_cast<std::size_t>(base + *off); *off = static_cast<off64_t>(h->pos);
		return 0;
	}
	inline int cookieClose(void* c)
	{
		if (!g) { return 0; }
		sim::AllocPauser ap;
		auto* h = static_cast<Handle*>(c);
		int rc = 0;
		if (h->write)
		{
			const auto k = static_cast<long long>(g->r.closes++);
			op('x', h->name);
			g->openHandles[h->f.get()]--;
			if (k == g->f.closeErr) { g->r.fired["close error"]++; errno = EIO; rc = -1; }
		}
		delete h;
		return rc;
	}
	inline FILE* open(const char* path, const char* mode)
	{
		sim::AllocPauser ap;
		const auto p = norm(path);
		const bool w = mode[0] == 'w' || mode[0] == 'a' || std::strchr(mode, '+');
		auto it = g->files.find(p);
		auto h = std::unique_ptr<Handle>(new Handle());
		h->name = p; h->write = w; h->append = mode[0] == 'a'; h->read = mode[0] == 'r' || std::strchr(mode, '+');
		if (!w)
		{
			op('r', p);
			if (p == "scene.xml")
			{
				if (g->f.noInput) { g->r.fired["input missing"]++; errno = ENOENT; return nullptr; }
				h->f = std::make_shared<File>(); h->f->data = g->input;
			}
			else if (it == g->files.end()) { errno = ENOENT; return nullptr; }
			else { h->f = it->second; }
		}
		else
		{
			const auto k = static_cast<long long>(g->r.opens++);
			op('o', p);
			if (k == g->f.openErr || g->openBad) { g->openBad = g->f.openForever; g->r.fired["open error"]++; errno = g->f.openErrno; return nullptr; }
			if (!parent(p).empty() && !g->dirs.count(parent(p))) { g->r.fired["folder missing"]++; errno = ENOENT; return nullptr; }
			if (it == g->files.end())
			{
				if (mode[0] == 'r') { errno = ENOENT; return nullptr; }
				it = g->files.emplace(p, std::make_shared<File>()).first;
			}
			else if (mode[0] == 'w') { it->second->data.clear(); }
			it->second->version++;
			h->f = it->second;
			g->openHandles[h->f.get()]++;
			g->r.opened.push_back(p);
			if (g->f.stopAtOutput) { finish("output"); }
		}
		cookie_io_functions_t io{ cookieRead, cookieWrite, cookieSeek, cookieClose };
		FILE* f = ::fopencookie(h.get(), mode, io);
		if (f) { h.release(); }
		return f;
	}

	// ---- console
	inline void announce(const std::string& l)
	{
		long long num = -1, it = -1, cnt = -1; char t[64]; int used = 0;
		if (std::sscanf(l.c_str(), "#%lld: t= %63s (%lld), %lld particles%n", &num, t, &it, &cnt, &used) != 4 || used == 0) { return; }
		Announce a; a.number = num; a.time = t; a.line = l; a.iteration = it; a.count = cnt;
		char name[64]; std::snprintf(name, sizeof name, "result/particles_%05lld.csv", num);
		const auto f = g->files.find(name);
		a.exists = f != g->files.end();
		if (a.exists) { a.content = f->second->data; a.version = f->second->version; a.open = g->openHandles[f->second.get()] > 0; }
		else { a.version = 0; a.open = false; }
		g->r.ann.push_back(a);
	}
	struct Console final : std::streambuf
	{
		std::string buf;
		int overflow(int c) override { sim::AllocPauser ap; if (c != traits_type::eof()) { buf += static_cast<char>(c); } return traits_type::not_eof(c); }
		std::streamsize xsputn(const char* s, std::streamsize n) override { sim::AllocPauser ap; buf.append(s, static_cast<std::size_t>(n)); return n; }
		int sync() override
		{
			if (!g) { return 0; }
			sim::AllocPauser ap;
			if (buf.empty()) { return 0; }
			const auto k = static_cast<long long>(g->r.conOps++);
			op('c', buf);
			std::string b; b.swap(buf);
			if (g->f.conErr >= 0 && k >= g->f.conErr) { g->r.fired["console broken"]++; return -1; }
			for (char c : b)
			{
				g->r.console += c;
				if (c == '\n') { announce(g->line); g->line.clear(); } else { g->line += c; }
			}
			return 0;
		}
	};

	inline int makeDir(const std::string& p0)
	{
		sim::AllocPauser ap;
		const auto p = norm(p0);
		op('m', p);
		if (g->f.mkdirMode == 2) { g->r.fired["mkdir can not be started"]++; return -2; }
		if (g->f.mkdirMode == 1) { g->r.fired["mkdir refused"]++; errno = EACCES; return -1; }
		if (g->dirs.count(p)) { errno = EEXIST; return -1; }
		g->dirs.insert(p);
		return 0;
	}
	inline void onTerminate()
	{
		std::string what = "terminate";
		try { if (auto e = std::current_exception()) { std::rethrow_exception(e); } }
		catch (const std::exception& e) { what = e.what(); }
		catch (...) { what = "unknown exception"; }
		finish("exception", what, 134);
	}
	inline void onExit(int st, void*) { if (g) { finish("return", "exit", st); } }
	inline void onFatal(const char* what) { finish("fatal", what); }
	// out of memory inside the standard library (libc++ destroys streams it has not initialised): the process dies, like a kill
	inline void onSegv(int) { if (g && sim::alloc_fired()) { g->r.fired["process died of lack of memory"]++; finish("crash"); } std::signal(SIGSEGV, SIG_DFL); ::raise(SIGSEGV); }
	inline void onCpu(int) { if (g) { finish("hang"); } ::_exit(77); }

	// the whole program, once
	inline Result runProgram(const Plan& plan, const std::string& input, const Faults& f)
	{
		int fd[2], er[2];
		if (::pipe(fd) != 0 || ::pipe(er) != 0) { std::perror("pipe"); ::_exit(3); }
		const pid_t pid = ::fork();
		if (pid < 0) { std::perror("fork"); ::_exit(3); }
		if (pid == 0)
		{
			::close(fd[0]); ::close(er[0]); ::dup2(er[1], 2);
			const int dn = ::open("/dev/null", O_WRONLY); ::dup2(dn, 1);
			const char* slow = std::getenv("SIM_CPU"); const rlim_t cpu = 10 * (slow ? static_cast<rlim_t>(std::atoi(slow)) : 1);
			rlimit rl{ cpu, cpu + 2 }; setrlimit(RLIMIT_CPU, &rl);
			rlimit rc{ 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
#ifndef APP_ASAN
			rlimit ra{ 3ull << 30, 3ull << 30 }; setrlimit(RLIMIT_AS, &ra);
			for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) { std::signal(s, SIG_DFL); }
#endif
			std::signal(SIGXCPU, onCpu);
			if (f.mem >= 0) { std::signal(SIGSEGV, onSegv); }
			sim::fatal_hook = onFatal;
			if (plan.haveEvents) { sim::reset_replay(plan.ev); } else { sim::reset(plan.sched); }
			sim::heap_arena();
			sim::heap_fill(static_cast<unsigned char>(plan.fill));
			World w; w.f = f; w.input = input; w.out = fd[1];
			for (auto& l : f.left) { w.dirs.insert(parent(l.first)); auto x = std::make_shared<File>(); x->data = l.second; w.files[l.first] = x; }
			Console con; std::cout.rdbuf(&con);
			std::set_terminate(onTerminate);
			::on_exit(onExit, nullptr);
			::setenv("TZ", "UTC", 1);
			const char* argv[] = { "OpenMps", "scene.xml", nullptr };
			g = &w;
			sim::alloc_arm(f.mem);
			const int ret = openmps_main(2, argv);
			std::cout.flush();
			finish("return", "", ret);
		}
		::close(fd[1]); ::close(er[1]);
		std::string out, err; char buf[65536];
		for (;;) { const auto n = ::read(fd[0], buf, sizeof buf); if (n <= 0) { break; } out.append(buf, static_cast<std::size_t>(n)); }
		for (;;) { const auto n = ::read(er[0], buf, sizeof buf); if (n <= 0) { break; } if (err.size() < 6000) { err.append(buf, static_cast<std::size_t>(n)); } }
		::close(fd[0]); ::close(er[0]);
		int st = 0; ::waitpid(pid, &st, 0);
		Result r;
		if (!unpack(out, r)) { r = Result(); r.how = WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "hang" : "none"; }
		if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); }
		else if (r.how == "none") { r.ret = WEXITSTATUS(st); }
		// the sanitiser ends the process where operator new of the shipped program throws std::bad_alloc
		if (r.how == "none" && (err.find("AddressSanitizer: out of memory") != std::string::npos || err.find("AddressSanitizer: allocation-size-too-big") != std::string::npos))
		{ r.how = "exception"; r.what = "std::bad_alloc"; r.fired["allocation beyond memory"]++; }
		r.err = err;
		return r;
	}
}

// ---- what the program calls
extern "C"
{
	FILE* fopen(const char* path, const char* mode)
	{
		if (os::g && path[0] != '/') { return os::open(path, mode); }
		static const auto real = reinterpret_cast<FILE* (*)(const char*, const char*)>(::dlsym(RTLD_NEXT, "fopen"));
		return real(path, mode);
	}
	FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
	int system(const char* cmd)
	{
		if (!os::g) { return 0; }
		sim::AllocPauser ap;
		std::string c = cmd ? cmd : "";
		if (c.compare(0, 6, "mkdir ") == 0)
		{
			auto d = c.substr(6); bool p = false;
			if (d.compare(0, 3, "-p ") == 0) { d = d.substr(3); p = true; }
			const int r = os::makeDir(d);
			return r == -2 ? -1 : r == 0 || (p && errno == EEXIST) ? 0 : 256;
		}
		os::g->r.fired["other command"]++;
		return 0;
	}
	int mkdir(const char* p, mode_t m)
	{
		if (os::g && p[0] != '/') { return os::makeDir(p) == 0 ? 0 : -1; }
		static const auto real = reinterpret_cast<int (*)(const char*, mode_t)>(::dlsym(RTLD_NEXT, "mkdir"));
		return real(p, m);
	}
	int rename(const char* a, const char* b)
	{
		if (os::g && a[0] != '/')
		{
			sim::AllocPauser ap;
			os::op('n', os::norm(b));
			if (static_cast<long long>(os::g->r.renames++) == os::g->f.renameErr) { os::g->r.fired["rename refused"]++; errno = os::g->f.renameErrno; return -1; }
			auto it = os::g->files.find(os::norm(a));
			if (it == os::g->files.end()) { errno = ENOENT; return -1; }
			auto f = it->second; os::g->files.erase(it); os::g->files[os::norm(b)] = f;
			return 0;
		}
		static const auto real = reinterpret_cast<int (*)(const char*, const char*)>(::dlsym(RTLD_NEXT, "rename"));
		return real(a, b);
	}
	int remove(const char* p)
	{
		if (os::g && p[0] != '/')
		{
			sim::AllocPauser ap;
			os::op('d', os::norm(p));
			if (!os::g->files.erase(os::norm(p))) { errno = ENOENT; return -1; }
			return 0;
		}
		static const auto real = reinterpret_cast<int (*)(const char*)>(::dlsym(RTLD_NEXT, "remove"));
		return real(p);
	}
	time_t time(time_t* t)
	{
		if (os::g) { sim::AllocPauser ap; os::g->r.clocks++; os::op('t', ""); if (t) { *t = static_cast<time_t>(os::g->now); } return static_cast<time_t>(os::g->now); }
		timespec ts{}; static const auto real = reinterpret_cast<int (*)(clockid_t, timespec*)>(::dlsym(RTLD_NEXT, "clock_gettime"));
		real(CLOCK_REALTIME, &ts); if (t) { *t = ts.tv_sec; } return ts.tv_sec;
	}
	int clock_gettime(clockid_t c, timespec* ts)
	{
		if (os::g) { sim::AllocPauser ap; os::g->r.clocks++; os::op('t', ""); ts->tv_sec = static_cast<time_t>(os::g->now); ts->tv_nsec = 123456789; return 0; }
		static const auto real = reinterpret_cast<int (*)(clockid_t, timespec*)>(::dlsym(RTLD_NEXT, "clock_gettime"));
		return real(c, ts);
	}
	int gettimeofday(timeval* tv, void*)
	{
		if (os::g) { sim::AllocPauser ap; os::g->r.clocks++; os::op('t', ""); tv->tv_sec = static_cast<time_t>(os::g->now); tv->tv_usec = 123456; return 0; }
		timespec ts{}; static const auto real = reinterpret_cast<int (*)(clockid_t, timespec*)>(::dlsym(RTLD_NEXT, "clock_gettime"));
		real(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
	}
	void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept
	{
		if (os::g) { os::finish("assert", std::string(e) + " in " + (fn ? fn : "")); }
		std::fprintf(stderr, "assertion %s in %s:%u\n", e, file, line); ::abort();
	}
	void openmps_sim_phase(const char* name)
	{
		if (os::g && name[0] == 's') { if (static_cast<long long>(++os::g->r.steps) > os::g->f.maxSteps) { os::finish("runaway", "too many time steps"); } }
	}
}
