/*
 * Systems other than Linux: what the system answers, and what becomes of it.
 */
#include "hosts.h"
#include "oracle.h"
#include "props.h"
#include "shadow/windows.h"

#include <algorithm>

static void start(Host& h) {
	E.world = &h;
	generate_host(h);
	place_threads(h);
	str s = h.outline();
	R->shape = std::hash<str>()(s);
	R->sample = s;
	if (R->trace)
		R->log.insert(R->log.begin(), "[machine] " + s);
	noise();
	sched_configure(false);
	E.alloc_limit = 256u << 10; /* keeps the tables small enough to look at */
}

/* ---- hostile answers ---- */

static u32 odd_number(const Host& h) {
	Choices& ch = R->ch;
	static const u32 v[] = {0, 1, 2, 3, 5, 6, 7, 8, 12, 16, 64, 100, 255, 256, 512, 0x01000000u, 0x10000000u, 0x40000000u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
	switch (ch.weighted({5, 2})) {
		case 0: return v[ch.choose(sizeof v / sizeof *v)];
	}
	u32 near[] = {h.threads, h.cores, h.packages};
	return near[ch.choose(3)] + ch.choose(3) - 1;
}

static str odd_text(const str& in) {
	Choices& ch = R->ch;
	str s = in;
	while (!s.empty() && !s.back())
		s.pop_back();
	static const char* const texts[] = {"", "iPhone", "iPhone,", "iPhone9", "iPhone4294967295,1", "iPad7,4", "iPad6,3", "iPad99,1", "iPod7,1", "AppleTV5,3", "VirtualMac2,1", "arm64",
		"x", "0", ",", "iPhone-1,1", "<groups>", "<group level=\"1\"", "<group level=\"2\" cache-level=\"0\">", "<group level=\"1\" cache-level=\"0\">"};
	switch (ch.weighted({3, 3, 2, 2, 2})) {
		case 0: s = texts[ch.choose(sizeof texts / sizeof *texts)]; break;
		case 1: s.resize(ch.choose((u32)s.size() + 1)); break;
		case 2: {
			Rng r(ch.choose(1 << 16));
			for (u32 i = 0, n = 1 + ch.skewed(16); i < n && !s.empty(); i++)
				s[r.below((u32)s.size())] = (char)(1 + r.below(255));
			break;
		}
		case 3: {
			static const char* const more[] = {"<group level=\"2\" cache-level=\"0\">", "<group level=\"1\" cache-level=\"0\">", "A", "9", " "};
			const char* m = more[ch.choose(5)];
			u32 n = 1 + ch.skewed(90);
			size_t at = ch.choose((u32)s.size() + 1);
			str many;
			for (u32 i = 0; i < n; i++)
				many += m;
			s.insert(at, many);
			break;
		}
		case 4: { /* part of the text twice */
			if (s.empty())
				break;
			size_t a = ch.choose((u32)s.size()), b = ch.choose((u32)s.size() - (u32)a) + 1;
			s.insert(a, s.substr(a, b));
			break;
		}
	}
	if (s.size() > 4000)
		s.resize(4000);
	return s + str(1, '\0');
}

/* Lists of well-formed records only: the system makes them. */
static str odd_records(const Host& h, const str& in) {
	Choices& ch = R->ch;
	std::vector<str> rec;
	for (size_t at = 0; at + 8 <= in.size();) {
		u32 n;
		memcpy(&n, &in[at + 4], 4);
		rec.push_back(in.substr(at, n));
		at += n;
	}
	if (rec.empty())
		return in;
	auto p8 = [](str& r, size_t at, u32 v) { r[at] = (char)v; };
	auto p16 = [](str& r, size_t at, u32 v) { uint16_t x = (uint16_t)v; memcpy(&r[at], &x, 2); };
	u32 n = 1 + ch.skewed(3);
	for (u32 i = 0; i < n; i++) {
		u32 k = ch.choose((u32)rec.size());
		str& r = rec[k];
		bool cache = r[0] == RelationCache;
		size_t group = cache ? 38 : 30; /* of the number of groups */
		size_t mask = cache ? 40 : 32;
		switch (cache ? ch.weighted({3, 1, 1, 1, 2, 8}) : ch.weighted({3, 1, 1, 2})) {
			case 0: /* one that is missing */
				if (rec.size() > 1)
					rec.erase(rec.begin() + k);
				break;
			case 1: /* the last ones are missing */
				rec.resize(1 + ch.choose((u32)rec.size()));
				break;
			case 2: /* no processors */
				memset(&r[mask], 0, 8);
				break;
			case 3: { /* group or processor that is not there */
				u32 groups = (h.cpus.back().id >> 8) + 1, have = 0, g = 0;
				memcpy(&g, &r[mask + 8], 2);
				for (auto& c : h.cpus)
					have += c.id >> 8 == g;
				if (ch.chance(1, 2) || have >= 64)
					p16(r, mask + 8, groups + ch.choose(70));
				else {
					u64 m = (u64)1 << (have + ch.choose(64 - have));
					memcpy(&r[mask], &m, 8);
				}
				break;
			}
			case 4:
				p16(r, group, 0);
				break;
			case 5: { /* odd cache */
				static const u32 sizes[] = {0, 1, 63, 64, 100, 4096, 0x7fffffffu, 0xffffffffu};
				switch (ch.choose(5)) {
					case 0: p8(r, 8, ch.choose(2) ? 0 : 4 + ch.choose(3)); break;
					case 1: p8(r, 9, ch.choose(3) == 0 ? 0xff : ch.choose(3)); break;
					case 2: p16(r, 10, ch.choose(2) ? 0 : 1 + ch.choose(300)); break;
					case 3: { u32 v = sizes[ch.choose(8)]; memcpy(&r[12], &v, 4); break; }
					case 4: { u32 v = r[8] == 1 ? ch.choose(3) : ch.choose(5); if (r[8] == 1 && v) v += 2; memcpy(&r[16], &v, 4); break; }
				}
				break;
			}
		}
	}
	str out;
	for (auto& r : rec)
		out += r;
	return out;
}

/* type and data of a registry value */
static str odd_value(const str& in) {
	Choices& ch = R->ch;
	u32 type = 0;
	if (in.size() >= 4)
		memcpy(&type, in.data(), 4);
	if (ch.chance(1, 6)) {
		static const u32 types[] = {REG_SZ, REG_DWORD, REG_QWORD, REG_BINARY};
		type = types[ch.choose(4)];
	}
	str r((const char*)&type, 4);
	if (type != REG_SZ) {
		u64 v = ch.chance(1, 2) ? 0 : odd_number(Host()) | (u64)odd_number(Host()) << 32;
		return r + str((const char*)&v, type == REG_DWORD ? 4 : 8);
	}
	static const u32 lengths[] = {0, 1, 46, 47, 48, 49, 100, 200, 16};
	u32 n = lengths[ch.choose(9)];
	u32 kind = ch.choose(4);
	Rng g(ch.choose(1 << 16));
	for (u32 i = 0; i <= n; i++) {
		static const u32 odd[] = {0xae, 0x2122, 0xd800, 0xdc00, 0xffff, 0x20, 0x7f};
		wchar_t c = i == n ? 0 : (wchar_t)(kind == 0 ? 'a' + i % 26 : kind == 1 ? 0xae : kind == 2 && g.below(8) ? 'x' : odd[g.below(7)]);
		r.append((const char*)&c, sizeof c);
	}
	return r;
}

static str odd_answer(const Host& h, const str& key, const str& in) {
	Choices& ch = R->ch;
	if (key.rfind("win:info:", 0) == 0)
		return odd_records(h, in);
	if (key.rfind("win:reg:", 0) == 0)
		return odd_value(in);
	if (key.rfind("win:", 0) == 0) {
		/* a group has at most 64 processors */
		static const u32 v[] = {0, 1, 2, 3, 4, 8, 16, 63, 64, 65};
		u32 n = v[ch.choose(10)];
		return str((const char*)&n, 4);
	}
	/* every system terminates its strings */
	for (const char* t : {"topology_spec", "brand_string", "hw.machine", "hw.model"})
		if (key.find(t) != str::npos)
			return odd_text(in);
	str s = in;
	if (s.empty())
		s = str(4, '\0');
	u32 width = s.size() == 4 ? 4 : 8;
	u32 n = 1 + (width == 8 ? ch.choose(4) : 0);
	for (u32 i = 0; i < n; i++) {
		u64 v = odd_number(h);
		if (width == 8 && ch.chance(1, 4))
			v |= (u64)odd_number(h) << 32;
		memcpy(&s[width * ch.choose((u32)s.size() / width)], &v, width);
	}
	/* of another size than expected */
	if (ch.chance(1, 6)) {
		static const u32 sizes[] = {0, 1, 2, 4, 7, 8, 9, 16, 40, 80, 256};
		s.resize(sizes[ch.choose(sizeof sizes / sizeof *sizes)], '\0');
	}
	return s;
}

static void hostile(Host& h, const std::set<str>& asked) {
	Choices& ch = R->ch;
	std::vector<str> keys(asked.begin(), asked.end());
	if (keys.empty())
		return;
	u32 n = 1 + ch.weighted({3, 3, 2, 1, 1});
	for (u32 i = 0; i < n; i++) {
		str key = keys[ch.choose((u32)keys.size())], base;
		if (E.answer.count(key))
			base = E.answer[key];
		else if (key.rfind("sysctl:", 0) == 0)
			h.sysctl(key.substr(7), &base);
		else if (key.rfind("win:", 0) == 0)
			h.sysctl(key, &base);
		else if (key == "num_logical_cores")
			base = str((const char*)&h.logical, 4);
		switch (ch.weighted({6, 2, 2})) {
			case 0:
				E.answer[key] = odd_answer(h, key, base);
				R->fault("answer:odd");
				break;
			case 1:
				E.answer_later[key] = odd_answer(h, key, base);
				if (key.rfind("win:info:", 0) == 0 && ch.chance(1, 2)) {
					/* more of them than before */
					E.answer[key] = E.answer_later[key];
					E.answer_later[key] = base;
				}
				if (obs_os == 3)
					E.later_from[key] = 1 + ch.choose(3);
				R->fault("answer:changes");
				break;
			case 2:
				E.dead_calls.insert(key);
				R->fault("answer:none");
				break;
		}
	}
}

/* ---- C22 ---- */

static std::set<str> asked;

static bool judge(const Outcome& o, const char* what) {
	if (!ended(o, what))
		return false;
	if (!E.misuse.empty())
		R->violation("misuse", "%s: %s", what, E.misuse.c_str());
	Leak l = unreachable_blocks();
	if (l.count)
		R->violation("leak", "%s: %u allocations of %zu bytes are neither released nor part of the description when initialize returned %d", what, l.count, l.bytes, o.ret);
	if (!o.ret && !E.heap.empty())
		R->violation("leak", "%s: failed initialization keeps %zu allocations of %zu bytes", what, E.heap.size(), live_bytes());
	if (R->fail.set)
		return false;
	if (o.ret) {
		str e = check_consistent(o.d);
		if (!e.empty())
			R->violation("inconsistent", "%s: %s", what, e.c_str());
		return !R->fail.set;
	}
	u64 work = E.seam_ops();
	ThreadResult again = run_one([&] {
		if (lib_initialize())
			R->violation("not-final", "%s: initialize returned true after it had returned false", what);
	});
	if (!again.done && !R->fail.set)
		R->violation("died", "%s: repeated initialize did not return", what);
	if (E.seam_ops() != work && !R->fail.set)
		R->violation("repeated", "%s: detection was repeated after a failed initialization", what);
	if (!R->fail.set)
		refuse(what);
	return !R->fail.set;
}

/* Everybody asks at once, with the same answers and the same faults. */
static bool together(const Outcome& ref, const char* what) {
	Choices& ch = R->ch;
	u32 n = 2 + ch.choose(3);
	process_restart();
	arm_limits();
	sched_configure(true);
	sched_cfg.weak = obs_arch != ARCH_X86 && sim_race_variant && ch.chance(1, 2);
	E.faults_on = true;
	R->inits++;
	std::vector<bool> ret(n);
	std::vector<Desc> seen(n);
	std::vector<std::function<void()>> fns;
	for (u32 t = 0; t < n; t++)
		fns.push_back([&, t] {
			bool r = lib_initialize();
			ret[t] = r;
			R->ev("initialize -> %d", (int)r);
			if (r)
				seen[t] = observe();
		});
	auto res = run_threads(fns);
	sched_configure(false);
	for (u32 t = 0; t < n && !R->fail.set; t++) {
		if (!res[t].done)
			R->violation("died", "%s: initialize did not return in thread %u", what, t);
		else if (ret[t] != ref.ret)
			R->violation("disagree", "%s: thread %u was told %d, alone it is %d", what, t, (int)ret[t], (int)ref.ret);
		else if (ret[t]) {
			str e = diff(seen[t], ref.d);
			if (!e.empty())
				R->violation("differs", "%s: thread %u sees another description than alone: %s", what, t, e.c_str());
		}
	}
	R->probe("together");
	return !R->fail.set;
}

void c22() {
	Choices& ch = R->ch;
	Host h;
	start(h);
	Outcome plain = detect();
	if (!judge(plain, "coherent answers"))
		return;
	asked.clear();
	for (auto& a : E.answered)
		asked.insert(a.first);
	Outcome o = plain;
	if (ch.chance(4, 5)) {
		hostile(h, asked);
		o = detect();
		if (!judge(o, "odd answers"))
			return;
		R->probe(o.ret ? "odd_init_true" : "odd_init_false");
	}
	R->nontrivial = true;
	if (ch.chance(1, 2)) {
		fault_plan(o);
		o = detect();
		if (!judge(o, "odd answers and failing calls"))
			return;
		R->probe(o.ret ? "faulted_init_true" : "faulted_init_false");
	}
	if (ch.chance(1, 3))
		together(o, "several callers");
}

/* ---- C23 ---- */
void c23() {
	Choices& ch = R->ch;
	Host h;
	start(h);
	E.alloc_limit = (size_t)1 << 28;
	Outcome o = detect();
	if (!ended(o, "coherent answers"))
		return;
	if (!o.ret) {
		R->violation("refused", "initialize failed on a machine whose answers are complete and coherent");
		return;
	}
	if (!o.d.broken.empty()) {
		R->violation("broken", "%s", o.d.broken.c_str());
		return;
	}
	str e = check_truth_host(o.d, h);
	if (!e.empty()) {
		R->violation("wrong", "%s", e.c_str());
		return;
	}
	R->nontrivial = true;
	u64 work = E.seam_ops();
	if (!ch.chance(1, 2))
		return;
	if (together(o, "several callers") && E.alloc_ops + E.other_ops + E.cpuid_ops > 0 && E.seam_ops() > work)
		R->violation("repeated", "several callers made detection ask %llu times, one alone %llu times", (unsigned long long)E.seam_ops(), (unsigned long long)work);
}
