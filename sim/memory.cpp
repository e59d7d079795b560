/*
 * Memory of a machine with weak ordering: a plain read of the library's data
 * may still give the value from before a store of another thread, unless
 * synchronisation orders the store before the read.
 */
#include "env.h"

#include <algorithm>

namespace {

struct Store {
	u8 before[16];
	int thread;
	u32 at;
	Clock released; /* what reading the value stored here brings along */
};

struct Location {
	std::vector<Store> stores;
	std::map<int, size_t> seen; /* thread -> number of stores it knows of */
	std::map<int, u32> stale;   /* thread -> old values in a row */
};

std::map<std::pair<const void*, u32>, Location> locations;
std::map<const void*, Clock> objects;

/* an old value that is in memory for the length of one access */
struct {
	u8* at = nullptr;
	u32 size;
	u8 old[16], now[16];
} shown;

void join(Clock& a, const Clock& b) {
	for (u32 i = 0; i < CLOCK_THREADS; i++)
		a.t[i] = std::max(a.t[i], b.t[i]);
}

bool active() {
	return sched_cfg.weak && R && T && T->id < (int)CLOCK_THREADS;
}

}

void memory_reset() {
	memory_settle();
	locations.clear();
	objects.clear();
}

void memory_settle() {
	if (!shown.at)
		return;
	u8* p = shown.at;
	shown.at = nullptr;
	if (memcmp(p, shown.old, shown.size) == 0)
		memcpy(p, shown.now, shown.size);
}

void memory_release(const void* object) {
	if (!active())
		return;
	join(objects[object], T->clock);
	T->clock.t[T->id]++;
}

void memory_acquire(const void* object) {
	if (active() && objects.count(object))
		join(T->clock, objects[object]);
}

void memory_fence() {
	if (!active())
		return;
	join(T->clock, T->behind);
	T->before = T->clock;
	T->clock.t[T->id]++;
}

void memory_write(void* p, u32 size, bool release) {
	memory_settle();
	if (!active() || size > 16 || !in_library_data(p))
		return;
	Location& l = locations[{p, size}];
	Store s;
	memcpy(s.before, p, size);
	s.thread = T->id;
	s.at = ++T->clock.t[T->id];
	s.released = release ? T->clock : T->before;
	l.stores.push_back(s);
	l.seen[T->id] = l.stores.size();
}

void memory_update(void* p, u32 size, bool release) {
	memory_write(p, size, release);
	auto i = locations.find({p, size});
	if (!active() || i == locations.end() || i->second.stores.size() < 2)
		return;
	auto& s = i->second.stores;
	join(s[s.size() - 1].released, s[s.size() - 2].released);
}

/* atomic: always gives the last value, which is one of those possible */
void memory_read(void* p, u32 size, bool atomic, bool acquire) {
	memory_settle();
	if (!active() || size > 16 || !in_library_data(p))
		return;
	auto i = locations.find({p, size});
	if (i == locations.end())
		return;
	Location& l = i->second;
	size_t known = l.seen[T->id], n = l.stores.size(), oldest = n;
	while (oldest > known && T->clock.t[l.stores[oldest - 1].thread] < l.stores[oldest - 1].at)
		oldest--;
	size_t seen = n;
	if (!atomic && oldest < n && l.stale[T->id] < 4) {
		R->probe("unordered_read");
		if (R->ch.chance(1, 3))
			seen = n - 1 - R->ch.choose((u32)(n - oldest));
	}
	if (seen < n) {
		l.stale[T->id]++;
		shown.at = (u8*)p;
		shown.size = size;
		memcpy(shown.now, p, size);
		memcpy(shown.old, l.stores[seen].before, size);
		memcpy(p, shown.old, size);
		R->fault("stale-read");
		R->ev("read of old value, %u of %u stores missed", (u32)(n - seen), (u32)n);
	} else {
		l.stale[T->id] = 0;
	}
	l.seen[T->id] = seen;
	if (seen) {
		join(T->behind, l.stores[seen - 1].released);
		if (acquire)
			join(T->clock, l.stores[seen - 1].released);
	}
}
