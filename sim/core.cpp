#include "core.h"

#include <cerrno>
#include <cstdlib>
#include <sys/mman.h>

Run* R = nullptr;
Thread* T = nullptr;
SchedCfg sched_cfg;
std::vector<u32> sched_cpus;
u64 step_limit = 0;
u64 sim_clock_ns = 0;
u32 stack_junk_seed = 0;
bool sim_race_variant = false;

extern "C" {
void __sanitizer_start_switch_fiber(void**, const void*, size_t) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void*, const void**, size_t*) __attribute__((weak));
void __asan_unpoison_memory_region(const volatile void*, size_t) __attribute__((weak));
}

str sfmt(const char* f, ...) {
	char b[2048];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}

u64 fnv(const void* p, size_t n, u64 h) {
	const u8* b = (const u8*)p;
	for (size_t i = 0; i < n; i++)
		h = (h ^ b[i]) * 1099511628211ull;
	return h;
}

/* ---- choices ---- */
Mirror* mirror = nullptr;

void Choices::put(u32 v) {
	if (mirror && out.size() < sizeof mirror->choices / 4) {
		mirror->choices[out.size()] = v;
		mirror->count = (u32)out.size() + 1;
	}
	out.push_back(v);
}

u32 Choices::choose(u32 n) {
	u32 v;
	if (n <= 1)
		return 0;
	if (replay) {
		v = pos < in.size() ? in[pos++] : 0;
		if (v >= n)
			v = n - 1;
	} else {
		v = rng.below(n);
	}
	put(v);
	return v;
}

bool Choices::chance(u32 num, u32 den) {
	if (num == 0)
		return false;
	u32 v;
	if (replay) {
		v = pos < in.size() ? in[pos++] : 0;
		v = v ? 1 : 0;
	} else {
		v = rng.below(den) < num;
	}
	put(v);
	return v != 0;
}

u32 Choices::weighted(std::initializer_list<u32> w) {
	u32 v = 0;
	if (replay) {
		v = pos < in.size() ? in[pos++] : 0;
		if (v >= w.size())
			v = (u32)w.size() - 1;
	} else {
		u32 sum = 0;
		for (u32 x : w)
			sum += x;
		u32 r = rng.below(sum);
		for (u32 x : w) {
			if (r < x)
				break;
			r -= x;
			v++;
		}
	}
	put(v);
	return v;
}

u32 Choices::skewed(u32 n) {
	if (n <= 1)
		return 0;
	u32 v;
	if (replay) {
		v = pos < in.size() ? in[pos++] : 0;
		if (v >= n)
			v = n - 1;
	} else {
		u32 cap = n;
		switch (rng.below(4)) {
			case 0: cap = 2; break;
			case 1: cap = 8; break;
			case 2: cap = 64; break;
		}
		v = rng.below(cap < n ? cap : n);
	}
	put(v);
	return v;
}

/* ---- run ---- */
void Run::violation(const str& cls, const char* f, ...) {
	if (fail.set)
		return;
	char b[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	fail.set = true;
	fail.cls = cls;
	fail.msg = b;
	ev("VIOLATION %s: %s", cls.c_str(), b);
}

void Run::ev(const char* f, ...) {
	char b[1024];
	va_list ap;
	va_start(ap, f);
	int n = vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	if (n > (int)sizeof b - 1)
		n = sizeof b - 1;
	events++;
	hash = fnv(b, (size_t)n, hash);
	mix(T ? (u64)T->id + 1 : 0);
	if (mirror)
		mirror->hash = hash;
	if (trace) {
		if (log.size() < 20000)
			log.push_back(T ? sfmt("[t%d cpu%u] %s", T->id, T->cpu, b) : sfmt("[driver] %s", b));
	}
}

/* ---- coroutines ---- */
static const size_t STACK_SIZE = 512 * 1024;
static const size_t STACK_JUNK = 96 * 1024;
static std::vector<u8*> stack_pool;
static std::vector<Thread*> threads;
static void* sched_sp;
static void* sched_fake;
static const void* sched_stack_bottom;
static size_t sched_stack_size;
static u32 gap_left; /* preemption points until the next preemption, 0: never */
static u32 preemptions;

asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");
extern "C" void sim_switch(void** save_sp, void* load_sp);

bool on_thread_stack(const void* p) {
	return T && (const u8*)p >= T->stack && (const u8*)p < T->stack + STACK_SIZE;
}

static void to_sched(bool dying) {
	Thread* t = T;
	memory_settle();
	t->errno_save = errno;
	if (__sanitizer_start_switch_fiber)
		__sanitizer_start_switch_fiber(dying ? nullptr : &t->fake_stack, sched_stack_bottom, sched_stack_size);
	sim_switch(&t->sp, sched_sp);
	if (__sanitizer_finish_switch_fiber)
		__sanitizer_finish_switch_fiber(t->fake_stack, nullptr, nullptr);
	errno = t->errno_save;
}

extern "C" void sim_thread_main() {
	if (__sanitizer_finish_switch_fiber)
		__sanitizer_finish_switch_fiber(nullptr, &sched_stack_bottom, &sched_stack_size);
	T->fn();
	T->state = Thread::DONE;
	to_sched(true);
	abort();
}

static void resume(Thread* t) {
	T = t;
	if (!t->started) {
		t->started = true;
		void** sp = (void**)(t->stack + STACK_SIZE);
		*--sp = nullptr; /* fake return address, leaves the ABI's alignment */
		*--sp = (void*)sim_thread_main;
		for (int i = 0; i < 6; i++)
			*--sp = nullptr;
		t->sp = sp;
	}
	if (__sanitizer_start_switch_fiber)
		__sanitizer_start_switch_fiber(&sched_fake, t->stack, STACK_SIZE);
	sim_switch(&sched_sp, t->sp);
	if (__sanitizer_finish_switch_fiber)
		__sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
	T = nullptr;
}

static void draw_gap() {
	if (sched_cfg.mode == 0 || preemptions >= sched_cfg.max_switches) {
		gap_left = 0;
		return;
	}
	/* 0: run until blocked */
	gap_left = R->ch.choose(sched_cfg.max_gap + 1);
}

void set_cpu(Thread* t, u32 cpu) {
	if (t->cpu != cpu) {
		t->cpu = cpu;
		t->visited.push_back(cpu);
	}
}

static void maybe_migrate(Thread* t) {
	if (!sched_cfg.migrate || sched_cpus.size() < 2)
		return;
	if (R->ch.chance(1, sched_cfg.migrate_den)) {
		u32 c = sched_cpus[R->ch.choose((u32)sched_cpus.size())];
		if (c != t->cpu) {
			set_cpu(t, c);
			R->fault("migrate");
			R->ev("t%d migrates to cpu %u", t->id, c);
		}
	}
}

static u64 spin_guard;
u64 block_limit = 0;

/* every basic block of the library calls this */
extern "C" void __sanitizer_cov_trace_pc() {
	if (!R || !T)
		return;
	memory_settle();
	R->blocks++;
	if (block_limit && R->blocks > block_limit && !R->fail.set) {
		R->violation("unbounded", "execution budget of %llu basic blocks exceeded", (unsigned long long)block_limit);
		thread_abort();
	}
}

void yield_point(Unit u) {
	if (!R)
		return;
	memory_settle();
	R->steps++;
	sim_clock_ns += u == UNIT_SEAM ? 500 : 1;
	if (!T)
		return;
	if (step_limit && R->steps > step_limit && !R->fail.set) {
		R->violation("unbounded", "step budget of %llu exceeded", (unsigned long long)step_limit);
		thread_abort();
	}
	bool forced = false;
	if (++spin_guard > 200000 && threads.size() > 1) {
		/* fairness: a thread may spin on memory for another one */
		spin_guard = 0;
		forced = true;
	}
	if (sched_cfg.mode == 0 && !forced)
		return;
	if (!forced) {
		switch (sched_cfg.unit) {
			case UNIT_SEAM:
				if (u != UNIT_SEAM)
					return;
				break;
			case UNIT_SHARED:
				break;
			case UNIT_GLOBAL_WRITE:
				if (u != UNIT_GLOBAL_WRITE)
					return;
				break;
		}
		if (gap_left == 0)
			return;
		if (--gap_left != 0)
			return;
		preemptions++;
		maybe_migrate(T);
	}
	T->state = Thread::READY;
	to_sched(false);
}

void block_on(const void* what) {
	T->state = Thread::BLOCKED;
	T->wait_on = what;
	to_sched(false);
}

void wake_all(const void* what) {
	for (Thread* t : threads)
		if (t->state == Thread::BLOCKED && t->wait_on == what) {
			t->state = Thread::READY;
			t->wait_on = nullptr;
		}
}

void thread_abort() {
	T->state = Thread::ABORTED;
	to_sched(true);
	abort();
}

std::vector<ThreadResult> run_threads(std::vector<std::function<void()>> fns) {
	std::vector<Thread> store(fns.size());
	threads.clear();
	for (size_t i = 0; i < fns.size(); i++) {
		Thread* t = &store[i];
		t->id = (int)i;
		t->fn = fns[i];
		if (stack_pool.size() <= i) {
			u8* m = (u8*)mmap(nullptr, STACK_SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			mprotect(m, 4096, PROT_NONE);
			stack_pool.push_back(m + 4096);
		}
		t->stack = stack_pool[i];
		if (__asan_unpoison_memory_region)
			__asan_unpoison_memory_region(t->stack, STACK_SIZE);
		/* garbage on the stack, as in a long-running thread */
		u32* w = (u32*)(t->stack + STACK_SIZE - STACK_JUNK);
		u32 x = stack_junk_seed * 2654435761u + (u32)i * 40503u;
		for (size_t k = 0; k < STACK_JUNK / 4; k++) {
			if (stack_junk_seed) {
				x = x * 1664525u + 1013904223u;
				w[k] = x;
			} else {
				w[k] = 0;
			}
		}
		t->cpu = sched_cpus.empty() ? 0 : sched_cpus[fns.size() > 1 ? i % sched_cpus.size() : 0];
		t->visited.push_back(t->cpu);
		threads.push_back(t);
	}
	preemptions = 0;
	memory_reset();
	draw_gap();
	Thread* last = nullptr;
	for (;;) {
		std::vector<Thread*> ready;
		bool alive = false;
		for (Thread* t : threads) {
			if (t->state == Thread::READY)
				ready.push_back(t);
			if (t->state == Thread::READY || t->state == Thread::BLOCKED)
				alive = true;
		}
		if (!alive)
			break;
		if (ready.empty()) {
			R->violation("deadlock", "all remaining threads are blocked forever");
			break;
		}
		Thread* t = ready[0];
		if (ready.size() > 1) {
			u32 k = sched_cfg.mode == 0 ? 0 : R->ch.choose((u32)ready.size());
			t = ready[k];
		}
		if (t != last && last) {
			R->switches++;
			R->sched_hash = (R->sched_hash ^ (u64)t->id) * 1099511628211ull;
			R->sched_hash = (R->sched_hash ^ R->events) * 1099511628211ull;
			R->mix(0x5eed0000u + (u64)t->id);
			if (R->trace)
				R->log.push_back(sfmt("[sched] switch t%d -> t%d", last->id, t->id));
		}
		last = t;
		if (gap_left == 0)
			draw_gap();
		spin_guard = 0;
		resume(t);
		if (R->fail.set && R->fail.cls == "unbounded")
			break;
	}
	std::vector<ThreadResult> res;
	for (Thread& t : store)
		res.push_back({t.state == Thread::DONE, t.state == Thread::ABORTED});
	threads.clear();
	return res;
}

ThreadResult run_one(std::function<void()> fn) {
	return run_threads({fn})[0];
}

void sched_configure(bool concurrent) {
	sched_cfg = SchedCfg();
	if (!concurrent)
		return;
	sched_cfg.mode = 1;
	sched_cfg.unit = sim_race_variant ? (Unit)R->ch.weighted({3, 3, 4}) : UNIT_SEAM;
	static const u32 gaps[] = {4, 16, 64, 1024};
	sched_cfg.max_gap = gaps[R->ch.choose(4)];
	if (sched_cfg.unit == UNIT_SHARED && R->ch.chance(1, 2))
		sched_cfg.max_gap *= 32;
	sched_cfg.max_switches = 4 + R->ch.choose(60);
}
