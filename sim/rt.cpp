#include "rt.hpp"
#include <dlfcn.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
#include <algorithm>
#include <sys/mman.h>
#include <pthread.h>
#include <errno.h>

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

struct EhGlobals { void* caught; unsigned uncaught; };
extern "C" EhGlobals* __cxa_get_globals();

typedef void (*kmpc_micro)(int*, int*, ...);

namespace sim
{
	static constexpr int MAXT = 16;
	static constexpr std::size_t STACK = 1 << 20;
	void (*fatal_hook)(const char*) = nullptr;

	enum State { READY, BLOCKED, DONE };
	enum Wait { W_NONE, W_BARRIER, W_LOCK, W_GUARD };

	struct VC { u32 c[MAXT]; };

	struct Fiber
	{
		void* sp;
		char* lo; char* hi;     // stack range
		State st;
		Wait wait; const void* waitOn;
		u64 acc;                // accesses of this thread in this region
		EhGlobals eh;
		VC vc;
		int prio;
		u32 singleCount, dispCount;
		u64 pickSeq;
		int level;              // nested serialized levels
	};

	static Fiber fib[MAXT];
	static void* mainSp;
	static EhGlobals mainEh;
	static bool inRegion = false;   // a team of more than one is running
	static int cur = 0;
	static int team = 1;
	static bool running = false;
	static bool serialOnly = false;
	static int serialLevel = 0;

	static kmpc_micro curMicro;
	static void* curArgs[40];

	static SchedConfig cfg;
	static Rng rng(0);
	static bool replay = false;
	static std::vector<Event>* tr = nullptr;
	static std::vector<std::string>* rc = nullptr;
	static std::map<u32, Event>* repR = nullptr;
	static std::map<std::pair<u32, std::pair<int, u64>>, int>* repS = nullptr;
	static std::map<std::pair<u32, std::pair<int, u64>>, int>* repF = nullptr;
	static std::vector<std::pair<u64, int>> repThread[MAXT];   // preemptions of the current region, per thread
	static std::size_t repPos[MAXT];
	static std::string* dlInfo = nullptr;
	static bool dl = false;
	static u32 region = 0;
	static long long countdown = 1LL << 60;
	static u64 sliceAcc = 0;
	static u64 hash = 0;
	static Stats st;
	static int cuts[MAXT + 1];
	static int pushNum = 0;
	static int stallVictim = -1; static u64 stallAt = 0; static bool stalled = false;
	static int pctLow = 0;
	static u64 lastRegionAcc = 2000;
	static u64 regionAcc = 0;
	static constexpr u64 MAX_SLICE = 3000000, MAX_REGION = 400000000;

	u64 mix(u64 a, u64 b)
	{
		Rng r(a * 0xD1B54A32D192ED03ull + b);
		r.next();
		return r.next();
	}
	static void h(u64 v) { hash = (hash ^ v) * 0x100000001B3ull; hash ^= hash >> 29; }

	std::string Event::str() const
	{
		char buf[128];
		if (kind == 'R')
		{
			std::snprintf(buf, sizeof buf, "R %u %d", region, to);
			std::string s = buf;
			for (auto c : cuts) { std::snprintf(buf, sizeof buf, " %d", c); s += buf; }
			return s;
		}
		std::snprintf(buf, sizeof buf, "%c %u %d %llu %d", kind, region, tid, static_cast<unsigned long long>(acc), to);
		return buf;
	}
	bool Event::parse(const std::string& line, Event& e)
	{
		char k; unsigned r; int n = 0;
		e.cuts.clear();
		if (std::sscanf(line.c_str(), "%c %u%n", &k, &r, &n) < 2) { return false; }
		e.kind = k; e.region = r; e.tid = 0; e.acc = 0;
		const char* p = line.c_str() + n;
		if (k == 'R')
		{
			int v, m;
			if (std::sscanf(p, "%d%n", &e.to, &m) < 1) { return false; }
			p += m;
			while (std::sscanf(p, "%d%n", &v, &m) == 1) { e.cuts.push_back(v); p += m; }
			return true;
		}
		unsigned long long a;
		if (k != 'S' && k != 'F') { return false; }
		if (std::sscanf(p, "%d %llu %d", &e.tid, &a, &e.to) < 3) { return false; }
		e.acc = a;
		return true;
	}

	// ------------------------------------------------------------ allocation faults
	static bool allocArmed = false, allocFired_ = false;
	static long long allocCount = 0, allocFail = -1;
	void alloc_arm(long long f) { allocCount = 0; allocFail = f; allocFired_ = false; allocArmed = true; }
	long long alloc_disarm() { allocArmed = false; return allocCount; }
	bool alloc_fired() { return allocFired_; }
	static Live live{ 0, 0 };
	Live alloc_live() { return live; }
	static unsigned char fillByte = 0xA5;
	void heap_fill(unsigned char b) { fillByte = b; }
	bool alloc_pause() { const bool o = allocArmed; allocArmed = false; return o; }
	void alloc_resume(bool o) { allocArmed = o; }
	struct AllocPause { bool o; AllocPause() : o(allocArmed) { allocArmed = false; } ~AllocPause() { allocArmed = o; } };

	// ------------------------------------------------------------ shadow memory
	struct Cell
	{
		u32 reg;
		u32 wclk; unsigned char wtid, wmask, watom, used;
		u32 rclk[MAXT]; unsigned char rmask[MAXT]; unsigned char ratom[MAXT];
	};
	struct Page { std::uintptr_t key; Cell* cells; };
	static Page* pages = nullptr; static std::size_t pageCap = 0, pageCnt = 0;
	static std::uintptr_t lastKey = 0; static Cell* lastCells = nullptr;

	static Cell* findPage(std::uintptr_t key, bool create)
	{
		if (key == lastKey && lastCells) { return lastCells; }
		if (!pages)
		{
			pageCap = 1 << 16;
			pages = static_cast<Page*>(mmap(nullptr, pageCap * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		}
		std::size_t i = (key * 0x9E3779B97F4A7C15ull) >> 48;
		i &= pageCap - 1;
		while (pages[i].cells && pages[i].key != key) { i = (i + 1) & (pageCap - 1); }
		if (!pages[i].cells)
		{
			if (!create) { return nullptr; }
			if (++pageCnt > pageCap * 3 / 4) { std::fprintf(stderr, "sim: shadow table full\n"); std::_Exit(70); }
			pages[i].key = key;
			pages[i].cells = static_cast<Cell*>(mmap(nullptr, 512 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		}
		lastKey = key; lastCells = pages[i].cells;
		return lastCells;
	}
	static void shadowClear(const void* p, std::size_t n)
	{
		const auto a = reinterpret_cast<std::uintptr_t>(p);
		for (auto g = a >> 3; g <= (a + (n ? n - 1 : 0)) >> 3; g++)
		{
			auto c = findPage(g >> 9, false);
			if (c) { c[g & 511].reg = 0; }
			else { g |= 511; }
		}
	}

	static void reportRace(const char* kind1, int t1, const char* kind2, int t2, std::uintptr_t)
	{
		if (rc->size() < 20)
		{
			AllocPause ap;
			char buf[200];
			std::snprintf(buf, sizeof buf, "region %u: %s by thread %d unordered with %s by thread %d (access %llu)",
				region, kind1, t1, kind2, t2, static_cast<unsigned long long>(fib[t1].acc));
			rc->push_back(buf);
		}
	}

	// record one access of the current thread and report unordered conflicting ones
	static inline void checkGranule(std::uintptr_t g, unsigned char mask, bool write, bool atomic)
	{
		auto& c = findPage(g >> 9, true)[g & 511];
		auto& me = fib[cur];
		if (c.reg != region)
		{
			std::memset(&c, 0, sizeof c);
			c.reg = region;
		}
		// against the last write
		if (c.wmask & mask)
		{
			const int w = c.wtid;
			if (w != cur && c.wclk > me.vc.c[w] && !(atomic && c.watom))
			{
				reportRace(write ? "write" : "read", cur, "write", w, g << 3);
			}
		}
		if (write)
		{
			for (int t = 0; t < team; t++)
			{
				if (t != cur && (c.rmask[t] & mask) && c.rclk[t] > me.vc.c[t] && !(atomic && c.ratom[t]))
				{
					reportRace("write", cur, "read", t, g << 3);
				}
			}
			c.wtid = static_cast<unsigned char>(cur);
			if (c.wclk == me.vc.c[cur] && c.watom == atomic) { c.wmask |= mask; } else { c.wmask = mask; }
			c.wclk = me.vc.c[cur]; c.watom = atomic;
		}
		else
		{
			if (c.rclk[cur] == me.vc.c[cur] && c.ratom[cur] == static_cast<unsigned char>(atomic)) { c.rmask[cur] |= mask; } else { c.rmask[cur] = mask; }
			c.rclk[cur] = me.vc.c[cur]; c.ratom[cur] = atomic;
		}
	}

	static void preempt();

	static inline void access(const void* p, std::size_t n, bool write, bool atomic)
	{
		if (!inRegion || !running) { return; }
		auto& me = fib[cur];
		const auto a = reinterpret_cast<std::uintptr_t>(p);
		if (a >= reinterpret_cast<std::uintptr_t>(me.lo) && a < reinterpret_cast<std::uintptr_t>(me.hi)) { return; }
		me.acc++; sliceAcc++;
		if (--countdown <= 0 || sliceAcc > MAX_SLICE || (write && cfg.policy == WRITEPREEMPT && !replay && st.switches < cfg.maxSwitches && rng.below(8) == 0)) { preempt(); }
		if (n == 0) { return; }
		const auto g0 = a >> 3, g1 = (a + n - 1) >> 3;
		for (auto g = g0; g <= g1; g++)
		{
			unsigned char mask = 0xFF;
			if (g == g0) { mask = static_cast<unsigned char>(mask & (0xFF << (a & 7))); }
			if (g == g1) { mask = static_cast<unsigned char>(mask & (0xFF >> (7 - ((a + n - 1) & 7)))); }
			checkGranule(g, mask, write, atomic);
		}
	}

	// ------------------------------------------------------------ scheduler
	static void setCountdown()
	{
		sliceAcc = 0;
		if (replay)
		{
			auto& v = repThread[cur]; auto& pos = repPos[cur];
			while (pos < v.size() && v[pos].first <= fib[cur].acc) { pos++; }
			countdown = pos < v.size() ? static_cast<long long>(v[pos].first - fib[cur].acc) : (1LL << 60);
			return;
		}
		if (st.switches >= cfg.maxSwitches) { countdown = 1LL << 60; return; }
		switch (cfg.policy)
		{
		case RANDOM:
		case PCT:
		{
			const double m = cfg.policy == PCT ? std::max(50.0, static_cast<double>(lastRegionAcc) / 4) : cfg.mean;
			const double u = rng.uni();
			long long k = 1;
			// geometric with mean m, computed without libm so that replays do not depend on it
			double p = 1.0 / m, q = 1.0; 
			if (m < 4) { while (q > 0 && rng.uni() >= p && k < 64) { k++; } }
			else { k = 1 + static_cast<long long>(u < 0.9 ? u / 0.9 * 1.5 * m : m * 1.5 + (u - 0.9) * 20 * m); }
			countdown = k;
			break;
		}
		case RR: countdown = static_cast<long long>(cfg.mean); if (countdown < 1) { countdown = 1; } break;
		case STALL:
			countdown = (!stalled && cur == stallVictim && fib[cur].acc < stallAt) ? static_cast<long long>(stallAt - fib[cur].acc) : (1LL << 60);
			break;
		default: countdown = 1LL << 60; break;
		}
	}

	static void loadEh(EhGlobals& e) { *__cxa_get_globals() = e; }
	static void saveEh(EhGlobals& e) { e = *__cxa_get_globals(); }

	static void toMain()
	{
		saveEh(fib[cur].eh);
		sim_switch(&fib[cur].sp, mainSp);
	}

	static void fatal(const char* w)
	{
		dl = true;
		AllocPause ap;
		*dlInfo = w;
		if (fatal_hook) { fatal_hook(w); }
		std::fprintf(stderr, "sim: %s\n", w);
		std::_Exit(70);
	}

	static int wantNext = -1;   // chosen by a preemption

	static void preempt()
	{
		AllocPause ap;
		regionAcc += sliceAcc;
		if (regionAcc > MAX_REGION) { fatal("no progress in a parallel region"); }
		int ready[MAXT], n = 0;
		for (int t = 0; t < team; t++) { if (t != cur && fib[t].st == READY) { ready[n++] = t; } }
		int to = cur;
		if (n > 0)
		{
			if (replay)
			{
				const auto it = repS->find({ region, { cur, fib[cur].acc } });
				if (it != repS->end()) { to = it->second; }
				else if (sliceAcc > MAX_SLICE) { to = ready[0]; }
				bool ok = false;
				for (int k = 0; k < n; k++) { ok = ok || ready[k] == to; }
				if (!ok) { to = cur; }
			}
			else if (sliceAcc > MAX_SLICE) { to = ready[rng.below(static_cast<u64>(n))]; }
			else
			{
				switch (cfg.policy)
				{
				case RR: { to = ready[0]; for (int k = 0; k < n; k++) { if (ready[k] > cur) { to = ready[k]; break; } } break; }
				case PCT:
				{
					fib[cur].prio = --pctLow;
					for (int k = 0; k < n; k++) { if (to == cur || fib[ready[k]].prio > fib[to].prio) { to = ready[k]; } }
					break;
				}
				case STALL: stalled = true; fib[cur].prio = -1000000; to = ready[rng.below(static_cast<u64>(n))]; break;
				default: to = ready[rng.below(static_cast<u64>(n))]; break;
				}
			}
		}
		if (to != cur)
		{
			st.switches++;
			h(region); h(static_cast<u64>(cur)); h(fib[cur].acc); h(static_cast<u64>(to));
			{ AllocPause ap; tr->push_back(Event{ 'S', region, cur, fib[cur].acc, to, {} }); }
			wantNext = to;
			toMain();
		}
		setCountdown();
	}

	static int pickNext(int from) // after finish/block or at the start
	{
		int ready[MAXT], n = 0;
		for (int t = 0; t < team; t++) { if (fib[t].st == READY) { ready[n++] = t; } }
		if (n == 0) { return -1; }
		const u64 seq = from < 0 ? 0 : ++fib[from].pickSeq;
		int to = ready[0];
		if (replay)
		{
			const auto it = repF->find({ region, { from, seq } });
			if (it != repF->end() && it->second < team && fib[it->second].st == READY) { to = it->second; }
		}
		else
		{
			switch (cfg.policy)
			{
			case SEQ: break;
			case REV: to = ready[n - 1]; break;
			case RR: for (int k = n - 1; k >= 0; k--) { if (ready[k] > from) { to = ready[k]; } } break;
			case PCT: for (int k = 0; k < n; k++) { if (fib[ready[k]].prio > fib[to].prio) { to = ready[k]; } } break;
			case STALL:
			{
				int m = 0, other[MAXT];
				for (int k = 0; k < n; k++) { if (!(stalled && ready[k] == stallVictim)) { other[m++] = ready[k]; } }
				to = m ? other[rng.below(static_cast<u64>(m))] : ready[0];
				if (from < 0) { to = stallVictim; }
				break;
			}
			default: to = ready[rng.below(static_cast<u64>(n))]; break;
			}
		}
		if (to != ready[0]) { AllocPause ap; tr->push_back(Event{ 'F', region, from, seq, to, {} }); }
		h(0xF00 + static_cast<u64>(to));
		return to;
	}

	static void fiberMain()
	{
		int gtid = cur, tid = cur;
		auto a = curArgs;
		reinterpret_cast<void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*,
			void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*)>(curMicro)(&gtid, &tid,
			a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15],
			a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31]);
		fib[cur].st = DONE;
		toMain();
		std::abort();
	}

	static void initFiber(int t)
	{
		auto& f = fib[t];
		if (!f.lo)
		{
			auto p = static_cast<char*>(mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
			mprotect(p, 4096, PROT_NONE);
			f.lo = p + 4096; f.hi = p + 4096 + STACK;
		}
		f.st = READY; f.wait = W_NONE; f.waitOn = nullptr; f.acc = 0;
		f.eh = EhGlobals{ nullptr, 0 };
		std::memset(&f.vc, 0, sizeof f.vc);
		f.vc.c[t] = 1;
		f.singleCount = f.dispCount = 0; f.pickSeq = 0; f.level = 0;
		// initial frame: as popped by sim_switch
		auto sp = reinterpret_cast<void**>(f.hi) - 3;
		*--sp = reinterpret_cast<void*>(&fiberMain);
		for (int i = 0; i < 6; i++) { *--sp = nullptr; }
		--sp;
		asm volatile("stmxcsr (%0)\n\tfnstcw 4(%0)" : : "r"(sp) : "memory");
		f.sp = sp;
	}

	struct Lock { int owner; int count; VC vc; };
	static std::map<const void*, Lock>* locks = nullptr;
	struct Guard { int owner; };
	struct Disp { long long lb, ub, st, chunk, next; bool init; int sched; long long trip; };
	static std::map<u32, Disp>* disp = nullptr;
	static u32 singlesDone = 0;
	static int barrierCount = 0;

	static void releaseBarrier()
	{
		VC all; std::memset(&all, 0, sizeof all);
		for (int t = 0; t < team; t++) { for (int k = 0; k < MAXT; k++) { all.c[k] = std::max(all.c[k], fib[t].vc.c[k]); } }
		for (int t = 0; t < team; t++)
		{
			const auto own = fib[t].vc.c[t];
			fib[t].vc = all; fib[t].vc.c[t] = own + 1;
			if (fib[t].st == BLOCKED && fib[t].wait == W_BARRIER) { fib[t].st = READY; fib[t].wait = W_NONE; }
		}
		barrierCount = 0;
	}

	static void runTeam()
	{
		// on the main stack
		saveEh(mainEh);
		inRegion = true; running = true;
		regionAcc = 0;
		cur = pickNext(-1);
		for (;;)
		{
			loadEh(fib[cur].eh);
			setCountdown();
			wantNext = -1;
			sim_switch(&mainSp, fib[cur].sp);
			if (wantNext >= 0) { cur = wantNext; continue; }
			// finished or blocked
			const int nx = pickNext(cur);
			if (nx < 0)
			{
				bool all = true;
				for (int t = 0; t < team; t++) { all = all && fib[t].st == DONE; }
				if (all) { break; }
				fatal("deadlock: no virtual thread can run");
			}
			cur = nx;
		}
		inRegion = false; running = false; cur = 0;
		u64 tot = 0;
		for (int t = 0; t < team; t++) { tot += fib[t].acc; }
		st.accesses += tot;
		lastRegionAcc = tot ? tot / static_cast<u64>(team) : 50;
		loadEh(mainEh);
	}

	static void blockCur(Wait w, const void* on)
	{
		fib[cur].st = BLOCKED; fib[cur].wait = w; fib[cur].waitOn = on;
		wantNext = -1;
		toMain();
	}
	static void wake(Wait w, const void* on)
	{
		for (int t = 0; t < team; t++)
		{
			if (fib[t].st == BLOCKED && fib[t].wait == w && fib[t].waitOn == on) { fib[t].st = READY; fib[t].wait = W_NONE; }
		}
	}
	static bool tryLock(const void* l, bool nest)
	{
		AllocPause ap;
		auto& k = (*locks)[l];
		if (k.count > 0 && !(nest && k.owner == cur)) { return false; }
		k.owner = cur; k.count++;
		st.locks++;
		for (int i = 0; i < MAXT; i++) { fib[cur].vc.c[i] = std::max(fib[cur].vc.c[i], k.vc.c[i]); }
		return true;
	}
	static void lock(const void* l, bool nest = false)
	{
		if (!inRegion) { return; }
		fib[cur].acc++; sliceAcc++;
		if (--countdown <= 0) { preempt(); }
		while (!tryLock(l, nest)) { blockCur(W_LOCK, l); }
	}
	static void unlock(const void* l)
	{
		if (!inRegion) { return; }
		AllocPause ap;
		auto& k = (*locks)[l];
		if (--k.count <= 0)
		{
			k.count = 0;
			k.vc = fib[cur].vc;
			fib[cur].vc.c[cur]++;
			wake(W_LOCK, l);
		}
	}

	static int wantTeam = 0; // size of the next team, given by run_threads
	static int chooseTeam()
	{
		if (serialOnly) { return 1; }
		if (replay)
		{
			const auto it = repR->find(region);
			if (it == repR->end()) { return 1; }
			return std::max(1, std::min(it->second.to, MAXT));
		}
		if (wantTeam) { return cfg.threads > 1 ? wantTeam : 1; }
		int t = cfg.threads;
		if (cfg.varyTeam && t > 1) { t = 1 + static_cast<int>(rng.below(static_cast<u64>(t))); }
		return std::min(t, MAXT);
	}

	void reset(const SchedConfig& c)
	{
		AllocPause ap;
		cfg = c; rng = Rng(mix(c.seed, 0x5C4ED));
		replay = false;
		if (!tr)
		{
			tr = new std::vector<Event>; rc = new std::vector<std::string>; dlInfo = new std::string;
			repR = new std::map<u32, Event>; repS = new std::remove_pointer_t<decltype(repS)>; repF = new std::remove_pointer_t<decltype(repF)>;
			locks = new std::map<const void*, Lock>; disp = new std::map<u32, Disp>;
		}
		tr->clear(); rc->clear(); dlInfo->clear(); dl = false;
		region = 0; hash = 0xCBF29CE484222325ull; lastRegionAcc = 2000;
		std::memset(&st, 0, sizeof st);
		// region tags restart: drop old shadow contents
		if (pages)
		{
			for (std::size_t i = 0; i < pageCap; i++)
			{
				if (pages[i].cells) { munmap(pages[i].cells, 512 * sizeof(Cell)); pages[i].cells = nullptr; }
			}
			pageCnt = 0; lastKey = 0; lastCells = nullptr;
		}
	}
	void reset_replay(const std::vector<Event>& ev)
	{
		reset(SchedConfig{});
		replay = true;
		repR->clear(); repS->clear(); repF->clear();
		for (auto& e : ev)
		{
			if (e.kind == 'R') { (*repR)[e.region] = e; }
			else if (e.kind == 'S') { (*repS)[{ e.region, { e.tid, e.acc } }] = e.to; }
			else if (e.kind == 'F') { (*repF)[{ e.region, { e.tid, e.acc } }] = e.to; }
		}
	}
	void serial_mode(bool on) { serialOnly = on; }
	const std::vector<Event>& trace() { return *tr; }
	const std::vector<std::string>& races() { return *rc; }
	bool deadlocked() { return dl; }
	const std::string& deadlock_info() { return *dlInfo; }
	u64 interleaving_hash() { return hash; }
	const Stats& stats() { return st; }
	int current_thread() { return inRegion ? cur : 0; }
	bool in_parallel() { return inRegion; }
	void yield_point()
	{
		if (!inRegion) { return; }
		fib[cur].acc++; sliceAcc++;
		if (--countdown <= 0) { preempt(); }
	}

	static void fork(kmpc_micro m, int nargs, va_list ap_)
	{
		void* args[40] = {};
		if (nargs > 32) { std::fprintf(stderr, "sim: too many fork arguments\n"); std::_Exit(70); }
		for (int i = 0; i < nargs; i++) { args[i] = va_arg(ap_, void*); }

		const bool nested = inRegion || serialLevel > 0;
		int t = 1;
		if (!nested)
		{
			AllocPause ap;
			region++;
			st.regions++;
			t = chooseTeam();
			if (!serialOnly && pushNum > 0 && t > 1) { t = std::min(pushNum, MAXT); }
			pushNum = 0;
			if (t > 1)
			{
				st.parRegions++; st.maxTeam = std::max<u64>(st.maxTeam, static_cast<u64>(t));
				team = t;
				Event e{ 'R', region, 0, 0, t, {} };
				cuts[0] = 0; cuts[t] = 1024;
				if (replay)
				{
					auto& r = (*repR)[region];
					for (int k = 1; k < t; k++) { cuts[k] = static_cast<std::size_t>(k - 1) < r.cuts.size() ? r.cuts[static_cast<std::size_t>(k - 1)] : -1; }
				}
				else if (cfg.uneven && rng.chance(0.7))
				{
					std::vector<int> v;
					const bool extreme = rng.chance(0.3);
					for (int k = 1; k < t; k++) { v.push_back(extreme ? (rng.chance(0.5) ? 0 : 1024) : static_cast<int>(rng.below(1025))); }
					std::sort(v.begin(), v.end());
					for (int k = 1; k < t; k++) { cuts[k] = v[static_cast<std::size_t>(k - 1)]; }
				}
				else { for (int k = 1; k < t; k++) { cuts[k] = -1; } }
				for (int k = 1; k < t; k++) { e.cuts.push_back(cuts[k]); h(static_cast<u64>(cuts[k] + 7)); }
				h(0xABC00 + static_cast<u64>(t));
				tr->push_back(e);
				if (!replay)
				{
					stalled = false; stallVictim = static_cast<int>(rng.below(static_cast<u64>(t))); stallAt = 1 + rng.below(std::max<u64>(lastRegionAcc, 2));
					pctLow = 0;
				}
				locks->clear(); disp->clear(); singlesDone = 0; barrierCount = 0;
				for (int k = 0; k < t; k++)
				{
					initFiber(k);
					fib[k].prio = replay ? 0 : 1 + static_cast<int>(rng.below(1000));
					repThread[k].clear(); repPos[k] = 0;
				}
				if (replay)
				{
					for (auto it = repS->lower_bound({ region, { -1, 0 } }); it != repS->end() && it->first.first == region; ++it)
					{
						if (it->first.second.first >= 0 && it->first.second.first < t) { repThread[it->first.second.first].push_back({ it->first.second.second, it->second }); }
					}
				}
			}
		}
		else { pushNum = 0; }
		curMicro = nested || t == 1 ? curMicro : m;
		if (t > 1)
		{
			std::memcpy(curArgs, args, sizeof args);
			const bool armed = allocArmed;
			runTeam();
			allocArmed = armed && !allocFired_ ? true : armed;
		}
		else
		{
			if (inRegion) { fib[cur].level++; } else { serialLevel++; }
			int z = inRegion ? cur : 0, tid = 0;
			auto a = args;
			reinterpret_cast<void (*)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*,
				void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*)>(m)(&z, &tid,
				a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15],
				a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31]);
			if (inRegion) { fib[cur].level--; } else { serialLevel--; }
		}
	}

	struct Threads { void (*f)(int, void*); void* arg; bool ran[MAXT]; };
	static void threadMicro(int* gtid, int*, void* a)
	{
		auto& t = *static_cast<Threads*>(a); const int k = *gtid;
		t.ran[k] = true;
		t.f(k, t.arg);
	}
	static void forkOf(kmpc_micro m, int nargs, ...) { va_list ap; va_start(ap, nargs); fork(m, nargs, ap); va_end(ap); }
	void run_threads(int n, void (*f)(int, void*), void* arg)
	{
		Threads t{ f, arg, {} };
		const bool so = serialOnly; 
		wantTeam = n;
		forkOf(reinterpret_cast<kmpc_micro>(threadMicro), 1, static_cast<void*>(&t));
		wantTeam = 0;
		serialOnly = true;
		for (int k = 0; k < n; k++) { if (!t.ran[k]) { f(k, arg); } } // without concurrency: one after the other
		serialOnly = so;
	}

	static bool single() { return !inRegion || fib[cur].level > 0; } // effective team of one

	template<typename T>
	static void staticInit(int sched, int* last, T* lower, T* upper, std::make_signed_t<T>* stride, std::make_signed_t<T> incr, std::make_signed_t<T> chunk)
	{
		using S = std::make_signed_t<T>; using U = std::make_unsigned_t<T>;
		const int nt = single() ? 1 : team; const int t = single() ? 0 : cur;
		const T lo = *lower, hi = *upper;
		U trip;
		if (incr > 0) { trip = hi >= lo ? static_cast<U>(static_cast<U>(hi) - static_cast<U>(lo)) / static_cast<U>(incr) + 1 : 0; }
		else { trip = lo >= hi ? static_cast<U>(static_cast<U>(lo) - static_cast<U>(hi)) / static_cast<U>(-incr) + 1 : 0; }
		if (trip == 0) { if (last) { *last = 0; } *stride = incr; return; }
		if (nt == 1) { if (last) { *last = 1; } *stride = static_cast<S>(incr > 0 ? static_cast<U>(hi) - static_cast<U>(lo) + 1 : static_cast<U>(0) - (static_cast<U>(lo) - static_cast<U>(hi) + 1)); return; }
		const bool chunked = (sched & 0xFF) == 33;
		if (chunked)
		{
			if (chunk < 1) { chunk = 1; }
			const S span = static_cast<S>(chunk * incr);
			*stride = static_cast<S>(span * nt);
			*lower = static_cast<T>(lo + static_cast<T>(span * t));
			*upper = static_cast<T>(*lower + static_cast<T>(span - incr));
			if (last) { *last = (static_cast<U>(t) == ((trip - 1) / static_cast<U>(chunk)) % static_cast<U>(nt)); }
			return;
		}
		auto bound = [&](int k) -> U
		{
			if (k <= 0) { return 0; }
			if (k >= nt) { return trip; }
			if (cuts[k] < 0) { return trip / static_cast<U>(nt) * static_cast<U>(k) + std::min<U>(static_cast<U>(k), trip % static_cast<U>(nt)); }
			return static_cast<U>(static_cast<double>(trip) * cuts[k] / 1024.0);
		};
		const U b = bound(t), e = bound(t + 1);
		*stride = static_cast<S>(static_cast<S>(trip) * incr);
		if (b >= e)
		{
			// no iterations
			*lower = static_cast<T>(hi + static_cast<T>(incr));
			*upper = hi;
			if (incr > 0 && *lower < hi) { *lower = hi; *upper = static_cast<T>(hi - 1); }
			if (last) { *last = 0; }
			return;
		}
		*lower = static_cast<T>(lo + static_cast<T>(static_cast<S>(b) * incr));
		*upper = static_cast<T>(lo + static_cast<T>(static_cast<S>(e - 1) * incr));
		if (last) { *last = (e == trip); }
	}

	template<typename T>
	static void dispInit(int sched, T lb, T ub, std::make_signed_t<T> st_, std::make_signed_t<T> chunk)
	{
		AllocPause ap;
		const u32 k = single() ? 1000000u + fib[cur].dispCount++ : fib[cur].dispCount++;
		auto& d = (*disp)[k];
		if (!d.init)
		{
			d.init = true; d.lb = static_cast<long long>(lb); d.ub = static_cast<long long>(ub); d.st = static_cast<long long>(st_);
			d.chunk = chunk < 1 ? 1 : static_cast<long long>(chunk); d.next = 0; d.sched = sched;
			d.trip = st_ > 0 ? (d.ub >= d.lb ? (d.ub - d.lb) / d.st + 1 : 0) : (d.lb >= d.ub ? (d.lb - d.ub) / -d.st + 1 : 0);
			const int kind = sched & 0xFFFF; // ordered loops go to one thread as a whole
			if (single() || (kind >= 64 && kind < 96)) { d.chunk = std::max<long long>(1, d.trip); }
		}
	}
	template<typename T>
	static int dispNext(int* last, T* lb, T* ub, std::make_signed_t<T>* st_)
	{
		AllocPause ap;
		const u32 n = fib[cur].dispCount - 1;
		auto& d = (*disp)[single() ? 1000000u + n : n];
		yield_point();
		if (d.next >= d.trip) { return 0; }
		const auto b = d.next, e = std::min(d.trip, d.next + d.chunk);
		d.next = e;
		*lb = static_cast<T>(d.lb + b * d.st); *ub = static_cast<T>(d.lb + (e - 1) * d.st);
		if (st_) { *st_ = static_cast<std::make_signed_t<T>>(d.st); }
		if (last) { *last = e == d.trip; }
		return 1;
	}
}

using namespace sim;

// ---------------------------------------------------------------- OpenMP runtime ABI
extern "C" {
struct ident_t;

void __kmpc_fork_call(ident_t*, int nargs, kmpc_micro m, ...)
{
	va_list ap; va_start(ap, m);
	sim::fork(m, nargs, ap);
	va_end(ap);
}
int __kmpc_global_thread_num(ident_t*) { return inRegion ? cur : 0; }
void __kmpc_serialized_parallel(ident_t*, int) { if (inRegion) { fib[cur].level++; } else { serialLevel++; } }
void __kmpc_end_serialized_parallel(ident_t*, int) { if (inRegion) { fib[cur].level--; } else { serialLevel--; } }
void __kmpc_push_num_threads(ident_t*, int, int n) { pushNum = n; }
void __kmpc_push_proc_bind(ident_t*, int, int) {}
void __kmpc_begin(ident_t*, int) {}
void __kmpc_end(ident_t*) {}
int __kmpc_ok_to_fork(ident_t*) { return 1; }
void __kmpc_flush(ident_t*) { yield_point(); }

void __kmpc_barrier(ident_t*, int)
{
	if (single()) { return; }
	yield_point();
	barrierCount++;
	int alive = 0;
	for (int t = 0; t < team; t++) { alive += fib[t].st != DONE; }
	if (barrierCount >= team || (barrierCount >= alive && alive == team)) { releaseBarrier(); }
	else { blockCur(W_BARRIER, nullptr); }
}
int __kmpc_cancel_barrier(ident_t* l, int g) { __kmpc_barrier(l, g); return 0; }

void __kmpc_for_static_init_4(ident_t*, int, int s, int* last, std::int32_t* lo, std::int32_t* hi, std::int32_t* st_, std::int32_t inc, std::int32_t ch) { staticInit<std::int32_t>(s, last, lo, hi, st_, inc, ch); }
void __kmpc_for_static_init_4u(ident_t*, int, int s, int* last, std::uint32_t* lo, std::uint32_t* hi, std::int32_t* st_, std::int32_t inc, std::int32_t ch) { staticInit<std::uint32_t>(s, last, lo, hi, st_, inc, ch); }
void __kmpc_for_static_init_8(ident_t*, int, int s, int* last, std::int64_t* lo, std::int64_t* hi, std::int64_t* st_, std::int64_t inc, std::int64_t ch) { staticInit<std::int64_t>(s, last, lo, hi, st_, inc, ch); }
void __kmpc_for_static_init_8u(ident_t*, int, int s, int* last, std::uint64_t* lo, std::uint64_t* hi, std::int64_t* st_, std::int64_t inc, std::int64_t ch) { staticInit<std::uint64_t>(s, last, lo, hi, st_, inc, ch); }
void __kmpc_for_static_fini(ident_t*, int) {}

void __kmpc_dispatch_init_4(ident_t*, int, int s, std::int32_t lb, std::int32_t ub, std::int32_t st_, std::int32_t ch) { dispInit<std::int32_t>(s, lb, ub, st_, ch); }
void __kmpc_dispatch_init_4u(ident_t*, int, int s, std::uint32_t lb, std::uint32_t ub, std::int32_t st_, std::int32_t ch) { dispInit<std::uint32_t>(s, lb, ub, st_, ch); }
void __kmpc_dispatch_init_8(ident_t*, int, int s, std::int64_t lb, std::int64_t ub, std::int64_t st_, std::int64_t ch) { dispInit<std::int64_t>(s, lb, ub, st_, ch); }
void __kmpc_dispatch_init_8u(ident_t*, int, int s, std::uint64_t lb, std::uint64_t ub, std::int64_t st_, std::int64_t ch) { dispInit<std::uint64_t>(s, lb, ub, st_, ch); }
int __kmpc_dispatch_next_4(ident_t*, int, int* l, std::int32_t* lb, std::int32_t* ub, std::int32_t* s) { return dispNext<std::int32_t>(l, lb, ub, s); }
int __kmpc_dispatch_next_4u(ident_t*, int, int* l, std::uint32_t* lb, std::uint32_t* ub, std::int32_t* s) { return dispNext<std::uint32_t>(l, lb, ub, s); }
int __kmpc_dispatch_next_8(ident_t*, int, int* l, std::int64_t* lb, std::int64_t* ub, std::int64_t* s) { return dispNext<std::int64_t>(l, lb, ub, s); }
int __kmpc_dispatch_next_8u(ident_t*, int, int* l, std::uint64_t* lb, std::uint64_t* ub, std::int64_t* s) { return dispNext<std::uint64_t>(l, lb, ub, s); }
void __kmpc_dispatch_fini_4(ident_t*, int) {}
void __kmpc_dispatch_fini_4u(ident_t*, int) {}
void __kmpc_dispatch_fini_8(ident_t*, int) {}
void __kmpc_dispatch_fini_8u(ident_t*, int) {}
void __kmpc_dispatch_deinit(ident_t*, int) {}

void __kmpc_critical(ident_t*, int, void* l) { if (!single()) { sim::lock(l); } }
void __kmpc_critical_with_hint(ident_t*, int, void* l, unsigned) { if (!single()) { sim::lock(l); } }
void __kmpc_end_critical(ident_t*, int, void* l) { if (!single()) { sim::unlock(l); } }
int __kmpc_master(ident_t*, int) { return single() || cur == 0; }
void __kmpc_end_master(ident_t*, int) {}
int __kmpc_masked(ident_t*, int, int f) { return single() ? f == 0 : cur == f; }
void __kmpc_end_masked(ident_t*, int) {}
int __kmpc_single(ident_t*, int)
{
	if (single()) { return 1; }
	yield_point();
	const u32 k = fib[cur].singleCount++;
	if (k >= singlesDone) { singlesDone = k + 1; return 1; }
	return 0;
}
void __kmpc_end_single(ident_t*, int) {}
int __kmpc_reduce_nowait(ident_t*, int, int, std::size_t, void*, void*, void* l) { if (!single()) { sim::lock(l); } return 1; }
void __kmpc_end_reduce_nowait(ident_t*, int, void* l) { if (!single()) { sim::unlock(l); } }
int __kmpc_reduce(ident_t*, int, int, std::size_t, void*, void*, void* l) { if (!single()) { sim::lock(l); } return 1; }
void __kmpc_end_reduce(ident_t* i, int g, void* l) { if (!single()) { sim::unlock(l); __kmpc_barrier(i, g); } }
void __kmpc_copyprivate(ident_t* id, int g, std::size_t, void* data, void (*cpy)(void*, void*), int did)
{
	static void* src;
	if (did) { src = data; }
	__kmpc_barrier(id, g);
	if (!did) { cpy(data, src); }
	__kmpc_barrier(id, g);
}
// tasks are executed at once by the thread that meets them
struct kmp_task { void* shareds; int (*routine)(int, void*); int part; void* a; void* b; };
void* __kmpc_omp_task_alloc(ident_t*, int, int, std::size_t sz, std::size_t shared, int (*fn)(int, void*))
{
	auto p = static_cast<char*>(std::calloc(1, sz + shared + 64));
	auto t = reinterpret_cast<kmp_task*>(p);
	t->routine = fn; t->shareds = shared ? p + ((sz + 15) / 16) * 16 : nullptr;
	return t;
}
int __kmpc_omp_task(ident_t*, int g, void* t) { static_cast<kmp_task*>(t)->routine(g, t); std::free(t); return 0; }
int __kmpc_omp_task_with_deps(ident_t* l, int g, void* t, int, void*, int, void*) { return __kmpc_omp_task(l, g, t); }
void __kmpc_omp_task_begin_if0(ident_t*, int, void*) {}
void __kmpc_omp_task_complete_if0(ident_t*, int, void* t) { std::free(t); }
int __kmpc_omp_taskwait(ident_t*, int) { return 0; }
int __kmpc_omp_taskyield(ident_t*, int, int) { yield_point(); return 0; }
void __kmpc_taskgroup(ident_t*, int) {}
void __kmpc_taskloop(ident_t*, int g, void* t, int, std::uint64_t*, std::uint64_t*, std::int64_t, int, int, std::uint64_t, void*) { static_cast<kmp_task*>(t)->routine(g, t); std::free(t); }
void __kmpc_ordered(ident_t*, int) { yield_point(); }
void __kmpc_end_ordered(ident_t*, int) {}
void __kmpc_end_taskgroup(ident_t*, int) {}

int omp_get_thread_num() { return single() ? 0 : cur; }
int omp_get_num_threads() { return single() ? 1 : team; }
int omp_get_max_threads() { return serialOnly ? 1 : (cfg.threads > 1 ? cfg.threads : MAXT); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return inRegion; }
void omp_set_num_threads(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_active_level() { return inRegion ? 1 : 0; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 1; *c = 0; }
int omp_get_team_size(int l) { return l == 1 && inRegion ? team : 1; }
int omp_get_ancestor_thread_num(int l) { return l == 1 && inRegion ? cur : 0; }
int omp_get_num_teams() { return 1; }
int omp_get_team_num() { return 0; }
int omp_get_num_devices() { return 0; }
int omp_is_initial_device() { return 1; }
int omp_get_cancellation() { return 0; }
int omp_get_proc_bind() { return 0; }
int omp_get_dynamic() { return 1; }
void omp_set_dynamic(int) {}
int omp_get_level() { return inRegion ? 1 + fib[cur].level : serialLevel; }
int omp_get_thread_limit() { return MAXT; }
double omp_get_wtime() { return static_cast<double>(st.accesses) * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void* l) { AllocPause ap; if (locks) { locks->erase(l); } }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { sim::lock(l); }
void omp_unset_lock(void* l) { sim::unlock(l); }
int omp_test_nest_lock(void* l) { return !inRegion || tryLock(l, true); }
int omp_test_lock(void* l) { return !inRegion || tryLock(l, false); }
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { sim::lock(l, true); }
void omp_unset_nest_lock(void* l) { sim::unlock(l); }
void omp_init_lock_with_hint(void* l, int) { omp_init_lock(l); }

// ---------------------------------------------------------------- other synchronisation
int pthread_mutex_lock(pthread_mutex_t* m) { sim::lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return (!inRegion || tryLock(m, false)) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { sim::unlock(m); return 0; }

int __cxa_guard_acquire(std::uint64_t* g)
{
	auto b = reinterpret_cast<unsigned char*>(g);
	for (;;)
	{
		if (b[0]) { return 0; }
		if (!b[1]) { b[1] = 1; return 1; }
		if (!inRegion) { std::fprintf(stderr, "sim: recursive static initialisation\n"); std::abort(); }
		blockCur(W_GUARD, g);
	}
}
void __cxa_guard_release(std::uint64_t* g) { auto b = reinterpret_cast<unsigned char*>(g); b[0] = 1; b[1] = 0; if (inRegion) { wake(W_GUARD, g); } }
void __cxa_guard_abort(std::uint64_t* g) { auto b = reinterpret_cast<unsigned char*>(g); b[1] = 0; if (inRegion) { wake(W_GUARD, g); } }

struct emutls_object { std::size_t size, align; void* index; void* templ; };
void* __emutls_get_address(emutls_object* o)
{
	AllocPause ap;
	auto tab = static_cast<void**>(o->index);
	if (!tab) { tab = static_cast<void**>(std::calloc(MAXT, sizeof(void*))); o->index = tab; }
	const int t = inRegion ? cur : 0;
	if (!tab[t])
	{
		tab[t] = std::calloc(1, o->size + 64);
		if (o->templ) { std::memcpy(tab[t], o->templ, o->size); }
	}
	return tab[t];
}

// ---------------------------------------------------------------- compiler access callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
	void __tsan_read##n(void* p) { sim::access(p, n, false, false); } \
	void __tsan_write##n(void* p) { sim::access(p, n, true, false); } \
	void __tsan_read_write##n(void* p) { sim::access(p, n, false, false); sim::access(p, n, true, false); } \
	void __tsan_unaligned_read##n(void* p) { sim::access(p, n, false, false); } \
	void __tsan_unaligned_write##n(void* p) { sim::access(p, n, true, false); } \
	void __tsan_unaligned_read_write##n(void* p) { sim::access(p, n, false, false); sim::access(p, n, true, false); } \
	void __tsan_volatile_read##n(void* p) { sim::access(p, n, false, false); } \
	void __tsan_volatile_write##n(void* p) { sim::access(p, n, true, false); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_read(void** p) { sim::access(p, 8, false, false); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) { sim::access(p, 8, true, false); } }
void __tsan_read_range(void* p, std::size_t n) { sim::access(p, n, false, false); }
void __tsan_write_range(void* p, std::size_t n) { sim::access(p, n, true, false); }
// the memory of exceptions is reused from one thread to the other
void* __cxa_allocate_exception(std::size_t n) noexcept
{
	using F = void* (*)(std::size_t);
	static F real = nullptr;
	if (!real) { real = reinterpret_cast<F>(::dlsym(RTLD_NEXT, "__cxa_allocate_exception")); }
	auto p = real(n);
	if (p && sim::inRegion) { sim::shadowClear(p, n); }
	return p;
}
void* __tsan_memcpy(void* d, const void* s, std::size_t n) { sim::access(s, n, false, false); sim::access(d, n, true, false); return std::memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, std::size_t n) { sim::access(s, n, false, false); sim::access(d, n, true, false); return std::memmove(d, s, n); }
void* __tsan_memset(void* d, int c, std::size_t n) { sim::access(d, n, true, false); return std::memset(d, c, n); }
} // extern C

// Atomic operations are single steps here (one OS thread), and preemption points.
// Acquire/release orders establish happens-before; relaxed ones (OpenMP atomic) do not.
namespace sim
{
	static std::map<const void*, VC>* atomVc = nullptr;
	static u32 atomRegion = 0;
	static void atomicOp(const volatile void* p_, std::size_t n, bool rd, bool wr, int mo)
	{
		if (!inRegion) { return; }
		auto p = const_cast<const void*>(p_);
		st.atomics++;
		if (rd) { access(p, n, false, true); }
		if (wr) { access(p, n, true, true); }
		if (mo != 0)
		{
			AllocPause ap;
			if (!atomVc) { atomVc = new std::map<const void*, VC>; }
			if (atomRegion != region) { atomVc->clear(); atomRegion = region; }
			auto& v = (*atomVc)[p];
			if (rd && mo != 3) { for (int i = 0; i < MAXT; i++) { fib[cur].vc.c[i] = std::max(fib[cur].vc.c[i], v.c[i]); } }
			if (wr && mo >= 3) { for (int i = 0; i < MAXT; i++) { v.c[i] = std::max(v.c[i], fib[cur].vc.c[i]); } fib[cur].vc.c[cur]++; }
		}
	}
}
extern "C" {
#define ATOM(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* p, int mo) { sim::atomicOp(p, sizeof(T), true, false, mo); return *p; } \
	void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { sim::atomicOp(p, sizeof(T), false, true, mo); *p = v; } \
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { sim::atomicOp(p, sizeof(T), true, true, mo); T o = *p; *p = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { sim::atomicOp(p, sizeof(T), true, true, mo); T o = *p; *p = static_cast<T>(o + v); return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { sim::atomicOp(p, sizeof(T), true, true, mo); T o = *p; *p = static_cast<T>(o - v); return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { sim::atomicOp(p, sizeof(T), true, true, mo); T o = *p; *p = static_cast<T>(o & v); return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { sim::atomicOp(p, sizeof(T), true, true, mo); T o = *p; *p = static_cast<T>(o | v); return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { sim::atomicOp(p, sizeof(T), true, true, mo); T o = *p; *p = static_cast<T>(o ^ v); return o; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { sim::atomicOp(p, sizeof(T), true, true, mo); T o = *p; *p = static_cast<T>(~(o & v)); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) { sim::atomicOp(p, sizeof(T), true, true, mo); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int) { sim::atomicOp(p, sizeof(T), true, true, mo); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int mo, int) { sim::atomicOp(p, sizeof(T), true, true, mo); T o = *p; if (o == c) { *p = v; } return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long long) ATOM(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { yield_point(); }
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- allocator
// A simulated run takes its memory from an arena at a fixed address that starts out empty, so the addresses it gets, and
// with them what a stray or stale pointer reads, depend on nothing but the run itself. Freed memory is overwritten.
extern "C" void __libc_free(void*) noexcept;
namespace
{
	constexpr std::size_t ARENA = 512ull << 20, BIG = 1ull << 20;
	char* const ARENA_AT = reinterpret_cast<char*>(0x100000000000ull);
	char* const BIG_AT = reinterpret_cast<char*>(0x110000000000ull);
	char* const BIG_END = reinterpret_cast<char*>(0x180000000000ull);
	struct Hdr { std::size_t size; Hdr* next; }; // 16 bytes before every block
	Hdr* const TAKEN = reinterpret_cast<Hdr*>(8); // in next: taken inside an armed window
	bool arenaOn = false;
	char* arenaTop = nullptr; char* bigTop = nullptr;
	Hdr* freeList[128];
	std::size_t sizeClass(std::size_t n, std::size_t& rounded)
	{
		if (n <= 1024) { const auto c = (n + 15) / 16; rounded = c * 16; return c; } // 0..64
		std::size_t c = 65; rounded = 1280;
		while (rounded < n) { rounded += rounded / 4 & ~static_cast<std::size_t>(15); c++; }
		return c;
	}
	void* arenaNew(std::size_t n)
	{
		if (n == 0) { n = 1; }
		if (n >= BIG)
		{
			if (n > (1ull << 40)) { return nullptr; }
			const auto len = (n + 16 + 4095) & ~static_cast<std::size_t>(4095);
			if (bigTop + len + 4096 > BIG_END) { return nullptr; }
			void* p = ::mmap(bigTop, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
			if (p == MAP_FAILED) { return nullptr; }
			bigTop += len + 4096;
			auto h = static_cast<Hdr*>(p); h->size = len; h->next = nullptr;
			return h + 1;
		}
		std::size_t r; const auto c = sizeClass(n, r);
		if (freeList[c]) { auto h = freeList[c]; freeList[c] = h->next; return h + 1; }
		if (arenaTop + r + 16 > ARENA_AT + ARENA) { return nullptr; }
		auto h = reinterpret_cast<Hdr*>(arenaTop); arenaTop += r + 16;
		h->size = r; h->next = nullptr;
		return h + 1;
	}
	void simDelete(void* p) noexcept
	{
		auto q = static_cast<char*>(p);
		if (q < ARENA_AT || q >= BIG_END) { __libc_free(p); return; }
		auto h = static_cast<Hdr*>(p) - 1;
		if (h->next == TAKEN) { h->next = nullptr; sim::live.blocks--; sim::live.bytes -= static_cast<long long>(h->size); }
		if (q >= BIG_AT) { ::munmap(h, h->size); return; }
		std::size_t r; const auto c = sizeClass(h->size, r);
		if (h->size == 0 || r != h->size) { std::abort(); } // not a block of ours: a wild pointer or a damaged heap
		std::memset(p, sim::fillByte ^ 0x5A, h->size);
		h->next = freeList[c]; freeList[c] = h;
	}
}
void sim::heap_arena()
{
	if (arenaOn) { return; }
	if (::mmap(ARENA_AT, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA_AT) { return; }
	arenaTop = ARENA_AT; bigTop = BIG_AT; arenaOn = true;
}
static void* simNew(std::size_t n)
{
	if (sim::allocArmed)
	{
		const auto k = sim::allocCount++;
		if (k == sim::allocFail) { sim::allocFired_ = true; return nullptr; }
	}
	auto p = arenaOn ? arenaNew(n) : std::malloc(n ? n : 1);
	if (p && arenaOn) { auto h = static_cast<Hdr*>(p) - 1; h->next = nullptr; if (sim::allocArmed) { h->next = TAKEN; sim::live.blocks++; sim::live.bytes += static_cast<long long>(h->size); } }
	if (p) { std::memset(p, sim::fillByte, n); }
	if (p && sim::inRegion) { sim::shadowClear(p, n); }
	return p;
}
void* operator new(std::size_t n) { auto p = simNew(n); if (!p) { throw std::bad_alloc(); } return p; }
void* operator new[](std::size_t n) { auto p = simNew(n); if (!p) { throw std::bad_alloc(); } return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return simNew(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return simNew(n); }
void operator delete(void* p) noexcept { if (p) { simDelete(p); } }
void operator delete[](void* p) noexcept { if (p) { simDelete(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { simDelete(p); } }
void operator delete[](void* p, std::size_t) noexcept { if (p) { simDelete(p); } }
// the C++ runtime library releases the texts of exceptions with free
extern "C" void free(void* p) noexcept { if (p) { simDelete(p); } }
