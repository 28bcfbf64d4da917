// Deterministic OpenMP runtime + compiler-access scheduler (see DESIGN.md, "The simulator").
// Everything runs on ONE OS thread; virtual threads are fibers whose switches are
// decided only by a seeded PRNG or by a recorded schedule.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim
{
	using u64 = std::uint64_t;
	using u32 = std::uint32_t;

	struct Rng
	{
		u64 s;
		explicit Rng(u64 seed = 0) : s(seed) {}
		u64 next()
		{
			u64 z = (s += 0x9E3779B97F4A7C15ull);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		u64 below(u64 n) { return n ? next() % n : 0; }
		double uni() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
		double range(double a, double b) { return a + (b - a) * uni(); }
		bool chance(double p) { return uni() < p; }
	};
	u64 mix(u64 a, u64 b);

	enum Policy { SEQ = 0, REV, RANDPICK, RANDOM, RR, PCT, STALL, WRITEPREEMPT, POLICY_COUNT };

	struct SchedConfig
	{
		u64 seed = 0;
		int threads = 1;          // maximum team size; 1: no concurrency
		bool varyTeam = false;    // team size varies from region to region
		bool uneven = false;      // uneven static partition
		int policy = SEQ;
		double mean = 100;        // mean accesses between preemptions
		u64 maxSwitches = 20000;  // per run
	};

	struct Event // one schedule decision
	{
		char kind;            // 'R' region, 'S' preemption, 'F' pick after finish/block
		u32 region;
		int tid;
		u64 acc;
		int to;
		std::vector<int> cuts;
		std::string str() const;
		static bool parse(const std::string& line, Event& e);
	};

	struct Race
	{
		std::string what;
	};

	// starts a run; everything afterwards is a pure function of cfg (or of the replayed events)
	void reset(const SchedConfig& cfg);
	void reset_replay(const std::vector<Event>& events);
	void serial_mode(bool on);              // on: all regions run with a team of one (baseline runs)

	const std::vector<Event>& trace();
	const std::vector<std::string>& races();
	bool deadlocked();
	const std::string& deadlock_info();
	u64 interleaving_hash();

	struct Stats { u64 regions, parRegions, accesses, switches, atomics, locks, maxTeam; };
	const Stats& stats();

	int current_thread();      // virtual thread number, 0 outside parallel regions
	bool in_parallel();
	void yield_point();        // explicit preemption point (callbacks)
	// n threads of the application itself, each calling f(k); their own parallel regions have a team of one
	void run_threads(int n, void (*f)(int, void*), void* arg);

	// allocation faults: the k-th (from 0) operator new inside the armed window throws bad_alloc
	void alloc_arm(long long failAt);  // -1: count only
	long long alloc_disarm();          // returns the number of allocations seen; 
	bool alloc_fired();
	struct Live { long long blocks, bytes; };
	Live alloc_live();                 // blocks taken inside armed windows and not given back yet

	bool alloc_pause();                // harness code inside an armed window
	void alloc_resume(bool state);
	struct AllocPauser { bool o; AllocPauser() : o(alloc_pause()) {} ~AllocPauser() { alloc_resume(o); } };
	void heap_arena();                 // from now on operator new takes memory from an empty arena at a fixed address
	void heap_fill(unsigned char b);   // every new allocation is filled with this byte

	// called when a run can not go on (deadlock or no progress); must not return
	extern void (*fatal_hook)(const char* what);
}
