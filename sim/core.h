/*
 * Deterministic simulator core: choice stream, event log, coroutine scheduler.
 *
 * A simulated run is a pure function of its choice list.  Choices are drawn
 * from a seeded generator (search) or from a recorded list (replay); value 0
 * is always the simplest alternative, and a list that runs out continues with
 * zeros, so any list is a valid run and lists can be minimised freely.
 */
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef std::string str;

/* splitmix64 */
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 0) : s(seed) {}
	u64 next() {
		u64 z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	u32 below(u32 n) { return n <= 1 ? 0 : (u32)(next() % n); }
};

str sfmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

/* Thrown out of nothing: failures are recorded, the run then winds down. */
struct Failure {
	bool set = false;
	str cls; /* failure class, kept constant by the minimiser */
	str msg;
};

struct Choices {
	bool replay = false;
	std::vector<u32> in, out;
	size_t pos = 0;
	Rng rng;
	/* uniform in [0, n) */
	u32 choose(u32 n);
	/* true with probability num/den; false is the simple value */
	bool chance(u32 num, u32 den);
	/* index drawn with the given weights; index 0 is the simple value */
	u32 weighted(std::initializer_list<u32> w);
	/* lo..hi inclusive, lo simple */
	u32 range(u32 lo, u32 hi) { return lo + choose(hi - lo + 1); }
	/* small values likelier; 0 simple */
	u32 skewed(u32 n);
	void put(u32 v);
};

enum Unit { UNIT_SEAM = 0, UNIT_SHARED = 1, UNIT_GLOBAL_WRITE = 2 };

const u32 CLOCK_THREADS = 16;
struct Clock {
	u32 t[CLOCK_THREADS] = {0};
};

struct Thread {
	int id;
	enum State { READY, BLOCKED, DONE, ABORTED } state = READY;
	const void* wait_on = nullptr;
	std::function<void()> fn;
	void* sp = nullptr;
	u8* stack = nullptr;
	void* fake_stack = nullptr;
	bool started = false;
	/* CPU the thread runs on, and all CPUs visited since mark_cpus() */
	u32 cpu = 0;
	std::vector<u32> visited;
	u32 alloc_faults = 0;
	int errno_save = 0;
	/* what this thread asked of the system */
	u64 getcpu_ops = 0, lock_ops = 0;
	int told_cpu = -1; /* getcpu answers this, whatever is broken */
	/* stores it knows of; those before its last fence; those a fence would make known */
	Clock clock, before, behind;
};

/* Everything about one simulated run. */
struct Run {
	Choices ch;
	Failure fail;
	u64 hash = 1469598103934665603ull;
	u64 sched_hash = 1469598103934665603ull;
	u64 events = 0;
	bool trace = false;
	std::vector<str> log;
	std::map<str, u64> faults;  /* fault kind -> times fired */
	std::map<str, u64> probes;  /* rare conditions reached */
	u64 steps = 0;              /* seam calls and memory accesses */
	u64 blocks = 0;             /* basic blocks of library code */
	u64 switches = 0;
	u64 inits = 0;              /* library initialisations executed */
	bool nontrivial = false;
	u64 shape = 0;              /* hash of the machine/workload shape */
	str sample;
	void violation(const str& cls, const char* f, ...) __attribute__((format(printf, 3, 4)));
	void ev(const char* f, ...) __attribute__((format(printf, 2, 3)));
	void mix(u64 v) { hash = (hash ^ v) * 1099511628211ull; }
	void probe(const char* name) { probes[name]++; }
	void fault(const str& name) { faults[name]++; }
};

/* shared memory that survives a crash of the run */
struct Mirror {
	u64 hash;
	u64 index;
	u32 failed;
	char cls[64];
	char msg[512];
	u32 count;
	u32 choices[1 << 20];
};
extern Mirror* mirror;
extern Run* R;      /* current run */
extern Thread* T;   /* current simulated thread, null in the driver */

/* ---- scheduler ---- */
struct SchedCfg {
	u32 mode = 0;             /* 0: switch only when blocked/finished */
	Unit unit = UNIT_SEAM;
	u32 max_gap = 8;          /* gaps drawn from 1..max_gap */
	u32 max_switches = 0;     /* preemptions left */
	bool migrate = false;     /* threads may move between CPUs at preemption points */
	u32 migrate_den = 4;
	bool weak = false;        /* reads may miss stores they are not ordered after */
};
extern SchedCfg sched_cfg;
/* CPUs simulated threads may be placed on (Linux numbers) */
extern std::vector<u32> sched_cpus;
extern u64 step_limit; /* violation when exceeded; 0: none */
extern u64 block_limit;

void sched_configure(bool concurrent);
/* Runs all functions as concurrent simulated threads until every one is done. */
struct ThreadResult { bool done, aborted; };
std::vector<ThreadResult> run_threads(std::vector<std::function<void()>> fns);
ThreadResult run_one(std::function<void()> fn);
void yield_point(Unit u);
/* ---- weakly ordered memory ---- */
void memory_reset();
void memory_settle();
void memory_release(const void* object);
void memory_acquire(const void* object);
void memory_fence();
void memory_write(void* p, u32 size, bool release);
/* reads the last value and replaces it */
void memory_update(void* p, u32 size, bool release);
void memory_read(void* p, u32 size, bool atomic, bool acquire);
/* how many steps fast non-seam counting may take; called by __tsan hooks */
void block_on(const void* what);
void wake_all(const void* what);
[[noreturn]] void thread_abort();
void set_cpu(Thread* t, u32 cpu);
u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ull);
extern u64 sim_clock_ns; /* simulated time, advanced by seam calls */
bool on_thread_stack(const void* p);
extern u32 stack_junk_seed;
extern bool sim_race_variant; /* library code has memory-access preemption points */
