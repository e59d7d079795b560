#include "props.h"
#include "oracle.h"

#include <algorithm>
#include <cerrno>

/* ---- shared pieces ---- */

static Arch arch() { return (Arch)obs_arch; }

void arm_limits() {
	step_limit = R->steps + 400000000ull;
	block_limit = R->blocks + 400000000ull;
}

static int errno_at_start = 0;
std::function<void()> before_initialize, after_initialize;

Outcome detect(bool look) {
	Outcome o;
	process_restart();
	arm_limits();
	E.faults_on = true;
	R->inits++;
	ThreadResult r = run_one([&] {
		if (before_initialize)
			before_initialize();
		errno = errno_at_start;
		o.ret = lib_initialize();
		if (after_initialize)
			after_initialize();
		o.ops = E.ops;
		o.kinds = E.kinds;
		o.sites = E.sites;
		o.opened = E.opened;
		o.misuse = E.misuse;
		R->ev("initialize -> %d", (int)o.ret);
		E.faults_on = false;
		if (o.ret && look)
			o.d = observe();
	});
	o.done = r.done;
	if (o.d.valid) {
		u64 h = o.d.hash();
		R->mix(h);
	}
	return o;
}

/* Every detection must end by returning; anything else is a violation everywhere. */
bool ended(const Outcome& o, const char* what) {
	if (R->fail.set)
		return false;
	if (!o.done) {
		R->violation("died", "%s: initialize terminated the process instead of returning", what);
		return false;
	}
	return true;
}

void place_threads(const Machine& m) {
	sched_cpus = m.online_ids();
	if (sched_cpus.empty())
		sched_cpus.push_back(0);
}

/* Incidental process state: must never matter. */
void noise() {
	Choices& ch = R->ch;
	static const u32 bases[] = {3, 0, 1000, 5};
	E.fd_base = bases[ch.weighted({4, 1, 1, 1})];
	E.junk = ch.weighted({1, 2}) ? 1 + ch.choose(1000) : 0;
	stack_junk_seed = ch.weighted({1, 2}) ? 1 + ch.choose(1000) : 0;
}

void read_pattern(bool force) {
	Choices& ch = R->ch;
	switch (ch.weighted({force ? 0u : 4u, 2, 3, 3, 2})) {
		case 0: break;
		case 1: E.read_mode = READ_ONE; break;
		case 2:
			E.read_mode = READ_FIXED;
			E.read_size = 1 + ch.skewed(4200);
			break;
		case 3:
			E.read_mode = READ_RANDOM;
			E.read_size = 1 + ch.skewed(3000);
			E.read_rng = Rng(ch.choose(1 << 20));
			break;
		case 4:
			E.read_mode = READ_CHOSEN;
			E.read_size = 1 + ch.skewed(2100);
			E.chosen_reads = 1 + ch.choose(40);
			break;
	}
}

/* Choose operations of a fault-free run to fail. */
u32 fault_plan(const Outcome& ref, std::initializer_list<const char*> only, u32 max_faults, bool late_reads) {
	Choices& ch = R->ch;
	/* every kind of operation alike, or every kind of file and stage of its use */
	bool by_site = late_reads || ch.chance(1, 2);
	std::map<str, std::vector<u64>> by;
	for (u64 i = 0; i < ref.kinds.size(); i++) {
		if (late_reads && !(ref.sites[i] & 2))
			continue;
		if (only.size() && std::find_if(only.begin(), only.end(), [&](const char* k) { return !strcmp(k, ref.kinds[i]); }) == only.end())
			continue;
		by[by_site ? sfmt("%s %016llx", ref.kinds[i], (unsigned long long)ref.sites[i]) : ref.kinds[i]].push_back(i);
	}
	if (by.empty())
		return 0;
	std::vector<str> names;
	for (auto& k : by)
		names.push_back(k.first);
	u32 n = 1;
	if (max_faults > 1)
		n += ch.weighted({5, 2, 1, 1, 1});
	if (n > max_faults)
		n = max_faults;
	for (u32 i = 0; i < n; i++) {
		auto& v = by[names[ch.choose((u32)names.size())]];
		u64 at = v[ch.choose((u32)v.size())];
		Fault f;
		f.variant = 1 + ch.choose(9);
		f.persistent = ch.chance(1, 5);
		/* what stays broken is a device or a resource, not a signal */
		if (f.persistent)
			f.variant = f.variant & 1 ? 1 : 3;
		E.fault_at[at] = f;
	}
	return n;
}

void finish(const Machine& m) {
	R->shape = m.shape();
	R->sample = m.describe();
	if (R->trace)
		R->log.insert(R->log.begin(), "[machine] " + m.describe());
}

/* ---- damaged kernel files ---- */

static const char* const nums[] = {"0", "1", "2", "7", "31", "32", "63", "64", "255", "256", "1023", "1024", "8191", "65535", "65536", "2147483647", "2147483648",
	"4294967294", "4294967295", "4294967296", "18446744073709551615", "99999999999999999999999", "-1", "-0", "+3", "0x10", "0xffffffff", "0x41", "0xfffffffff", "", " ", "a", ":", "007", "0.5", "1e9"};

static bool is_num(char c) { return c >= '0' && c <= '9'; }

static str damage(const str& in, const Machine& m) {
	Choices& ch = R->ch;
	str s = in;
	auto lines = [&] {
		std::vector<std::pair<size_t, size_t>> v;
		size_t i = 0;
		while (i < s.size()) {
			size_t e = s.find('\n', i);
			size_t end = e == str::npos ? s.size() : e + 1;
			v.push_back({i, end});
			i = end;
		}
		return v;
	};
	switch (ch.weighted({4, 3, 2, 2, 2, 2, 2, 3, 2, 2, 3, 2})) {
		case 0: { /* a number becomes another */
			std::vector<std::pair<size_t, size_t>> v;
			for (size_t i = 0; i < s.size();) {
				if (is_num(s[i])) {
					size_t j = i;
					while (j < s.size() && (is_num(s[j])))
						j++;
					v.push_back({i, j});
					i = j;
				} else
					i++;
			}
			const char* n = nums[ch.choose(sizeof nums / sizeof *nums)];
			if (v.empty())
				return n;
			auto w = v[ch.choose((u32)v.size())];
			s.replace(w.first, w.second - w.first, n);
			break;
		}
		case 1: /* cut short */
			s.resize(ch.choose((u32)s.size() + 1));
			break;
		case 2: { /* byte garbage */
			if (s.empty())
				break;
			u32 n = 1 + ch.skewed(16);
			Rng r(ch.choose(1 << 16));
			for (u32 i = 0; i < n; i++)
				s[r.below((u32)s.size())] = (char)r.below(256);
			break;
		}
		case 3: { /* line lost */
			auto v = lines();
			if (v.empty())
				break;
			auto w = v[ch.choose((u32)v.size())];
			s.erase(w.first, w.second - w.first);
			break;
		}
		case 4: { /* line repeated, maybe many times */
			auto v = lines();
			if (v.empty())
				break;
			auto w = v[ch.choose((u32)v.size())];
			str l = s.substr(w.first, w.second - w.first), many;
			u32 n = 1 + ch.skewed(200);
			for (u32 i = 0; i < n; i++)
				many += l;
			s.insert(w.first, many);
			break;
		}
		case 5: { /* insert a special character */
			static const char sp[] = {',', '-', ':', '\n', ' ', '\t', '\0', '0', '9', 'x', '\r', (char)0xff, '/', 'P'};
			char c = sp[ch.choose(sizeof sp)];
			s.insert(ch.choose((u32)s.size() + 1), 1 + ch.skewed(4), c);
			break;
		}
		case 6: { /* very long run */
			static const char sp[] = {'1', ' ', 'a', ',', '-', ':', '0', '9', '\n', '\t'};
			char c = sp[ch.choose(sizeof sp)];
			u32 n = 16 + ch.skewed(6000);
			s.insert(ch.choose((u32)s.size() + 1), n, c);
			break;
		}
		case 7: { /* another CPU list */
			std::vector<u32> ids;
			u32 n = ch.choose(8);
			u32 lim = m.cpus.back().id + 3;
			for (u32 i = 0; i < n; i++)
				ids.push_back(ch.choose(lim));
			if (ch.chance(1, 2))
				std::sort(ids.begin(), ids.end());
			s.clear();
			for (u32 i = 0; i < ids.size(); i++) {
				if (i)
					s += ch.chance(1, 8) ? ",," : ",";
				if (ch.chance(1, 3))
					s += sfmt("%u-%u", ids[i], ids[i] + ch.choose(6));
				else
					s += sfmt("%u", ids[i]);
			}
			s += "\n";
			break;
		}
		case 8: { /* reversed or huge range */
			static const char* const r[] = {"5-2\n", "0-4294967295\n", "0-4294967296\n", "4294967295\n", "0-0\n", "-\n", "1-\n", "-3\n", "0-8191\n", "0-3-5\n", "3,1,2\n", "0,0,0\n", "\n", "", "0-1000000\n", "0,99999999999\n", "2-2,1-1,0-0\n"};
			s = r[ch.choose(sizeof r / sizeof *r)];
			break;
		}
		case 9: { /* many list entries */
			u32 n = 1 + ch.skewed(400), step = 1 + ch.choose(3);
			s.clear();
			for (u32 i = 0; i < n; i++)
				s += sfmt("%s%u", i ? "," : "", i * step);
			s += "\n";
			break;
		}
		case 10: { /* a value of chosen length after a key */
			auto v = lines();
			if (v.empty())
				break;
			auto w = v[ch.choose((u32)v.size())];
			str l = s.substr(w.first, w.second - w.first);
			size_t c = l.find(':');
			if (c == str::npos)
				break;
			static const u32 lens[] = {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 1023, 1024, 1025, 2047, 2048, 2049};
			u32 n = lens[ch.choose(sizeof lens / sizeof *lens)];
			static const char fill[] = {'A', '0', 'f', ' ', '8'};
			s.replace(w.first, w.second - w.first, l.substr(0, c) + ": " + str(n, fill[ch.choose(5)]) + "\n");
			break;
		}
		case 11: { /* extra or changed footer and keys */
			static const char* const keys[] = {"Hardware\t: ", "Revision\t: ", "Serial\t\t: ", "processor\t: ", "apicid\t\t: ", "CPU part\t: ", "CPU implementer\t: ", "CPU architecture: ", "CPU variant\t: ", "CPU revision\t: ", "Features\t: ", "I size\t\t: ", "D assoc\t\t: ", "D sets\t\t: ", "I line length\t: ", "Cache format\t: ", ": ", "\t: "};
			static const u32 lens[] = {0, 1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128};
			str l = keys[ch.choose(sizeof keys / sizeof *keys)];
			if (ch.chance(1, 2))
				l += nums[ch.choose(sizeof nums / sizeof *nums)];
			else
				l += str(lens[ch.choose(16)], ch.chance(1, 2) ? '9' : 'Z');
			l += "\n";
			auto v = lines();
			size_t at = v.empty() || ch.chance(1, 2) ? s.size() : v[ch.choose((u32)v.size())].first;
			s.insert(at, l);
			break;
		}
	}
	return s;
}

static str pick_path(const Machine& m) {
	Choices& ch = R->ch;
	static const str sys = "/sys/devices/system/cpu/";
	switch (ch.weighted({5, 3, 3, 3, 6})) {
		case 0: return "/proc/cpuinfo";
		case 1: return sys + "present";
		case 2: return sys + "possible";
		case 3: return sys + "kernel_max";
	}
	static const char* const leaves[] = {"topology/cluster_cpus_list", "topology/core_siblings_list", "topology/package_cpus_list", "topology/core_cpus_list",
		"topology/physical_package_id", "topology/thread_siblings_list", "cpufreq/cpuinfo_max_freq", "cpufreq/cpuinfo_min_freq"};
	u32 k = ch.choose((u32)m.cpus.size());
	return sys + sfmt("cpu%u/", m.cpus[k].id) + leaves[ch.choose(8)];
}

/* Kernel files that are missing, wrong, contradictory or change between reads. */
void damage_files(Machine& m) {
	Choices& ch = R->ch;
	u32 n = ch.weighted({3, 3, 2, 1, 1, 1}) + 1;
	for (u32 i = 0; i < n; i++) {
		str path = pick_path(m);
		str base;
		bool exists = m.file(path, &base);
		if (E.content.count(path))
			base = E.content[path];
		u32 how = ch.weighted({8, 2, 2});
		if (how == 1 && exists) {
			E.absent.insert(path);
			R->fault("file:absent");
		} else if (how == 2) {
			E.content_later[path] = damage(base, m);
			R->fault("file:changes");
		} else {
			E.content[path] = damage(base, m);
			R->fault("file:damaged");
		}
	}
	/* the same leaf for every CPU missing: kernels without that file */
	if (ch.chance(1, 5)) {
		static const char* const leaves[] = {"topology/cluster_cpus_list", "topology/core_siblings_list", "topology/physical_package_id", "cpufreq/cpuinfo_max_freq",
			"cpufreq/cpuinfo_min_freq", "topology/package_cpus_list", "topology/core_cpus_list"};
		u32 k = ch.choose(7);
		for (auto& c : m.cpus)
			E.absent.insert(sfmt("/sys/devices/system/cpu/cpu%u/", c.id) + leaves[k]);
		R->fault("file:kernel-without");
	}
}

void show_files() {
	if (!R->trace)
		return;
	for (auto& c : E.content)
		R->log.push_back(sfmt("[file] %s = '%.600s'", c.first.c_str(), c.second.c_str()));
	for (auto& c : E.content_later)
		R->log.push_back(sfmt("[file, second open] %s = '%.600s'", c.first.c_str(), c.second.c_str()));
	for (auto& c : E.absent)
		R->log.push_back(sfmt("[file] %s absent", c.c_str()));
}

static GenOpts small_machine() {
	GenOpts o;
	o.max_cpus = 12;
	return o;
}

/* ---- C01 ---- */
static void c01() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	generate(m, arch(), go);
	place_threads(m);
	finish(m);
	sched_configure(false);
	noise();
	Outcome ref = detect();
	if (!ended(ref, "reference"))
		return;
	bool faulty = ch.chance(1, 4);
	if (faulty && fault_plan(ref, {"alloc", "open", "read"}, 2)) {
		ref = detect();
		if (!ended(ref, "reference with faults"))
			return;
	}
	u32 n = 2 + ch.choose(5);
	std::vector<u32> calls(n);
	for (auto& c : calls)
		c = 1 + ch.choose(3);
	sched_configure(true);
	sched_cfg.migrate = ch.chance(1, 2);
	sched_cfg.weak = arch() != ARCH_X86 && sim_race_variant && ch.chance(1, 2);
	process_restart();
	E.faults_on = true;
	arm_limits();
	bool first_returned = false;
	Desc first;
	u64 work_at_return = 0;
	R->inits++;
	std::vector<std::function<void()>> fns;
	for (u32 t = 0; t < n; t++)
		fns.push_back([&, t] {
			errno = (int)t;
			for (u32 k = 0; k < calls[t]; k++) {
				bool r = lib_initialize();
				R->ev("initialize -> %d", (int)r);
				u64 work = E.file_ops + E.cpuid_ops + E.other_ops + E.alloc_ops;
				if (!first_returned) {
					first_returned = true;
					work_at_return = work;
				} else if (work != work_at_return) {
					R->violation("late-work", "detection work happened after an initialize call had already returned");
				}
				if (r != ref.ret) {
					R->violation("return-differs", "initialize returned %d to thread %u, but %d in a single-threaded process on the same machine", r, t, ref.ret);
					return;
				}
				if (!r)
					continue;
				Desc d = observe();
				if (!d.broken.empty())
					R->violation("incomplete", "thread %u was told true but: %s", t, d.broken.c_str());
				str e = diff(ref.d, d);
				if (!e.empty())
					R->violation("incomplete", "thread %u was told true but does not see the complete description: %s", t, e.c_str());
				if (!first.valid)
					first = d;
				else if (!(e = diff(first, d, true)).empty())
					R->violation("disagree", "threads see different descriptions: %s", e.c_str());
			}
		});
	auto res = run_threads(fns);
	for (auto& r : res)
		if (!r.done)
			R->violation("died", "a caller of initialize did not return");
	if (E.opened != ref.opened) {
		str f;
		for (auto& p : E.opened)
			if (!ref.opened.count(p.first) || ref.opened[p.first] != p.second)
				f = sfmt("%s opened %u times instead of %u", p.first.c_str(), p.second, ref.opened.count(p.first) ? ref.opened[p.first] : 0);
		R->violation("detection-count", "detection did not run exactly once: %s", f.c_str());
	}
	if (R->switches > 1)
		R->nontrivial = true;
}

/* ---- C02 ---- */
static u64 call_random_query(u32& which) {
	Choices& ch = R->ch;
	which = ch.choose((u32)queries.size());
	static const u32 args[] = {0, 1, 2, 3, 5, 31, 1000, 0x7fffffffu, 0x80000000u, 0xffffffffu};
	u32 a = queries[which].kind == Q_ELEM || queries[which].kind == Q_CURRENT ? args[ch.choose(10)] : 0;
	return queries[which].call(a);
}

/* What the current-processor queries say on each of the given CPUs. */
static std::vector<u64> current_answers(const std::vector<u32>& cpus) {
	std::vector<u64> v;
	for (u32 c : cpus) {
		T->told_cpu = (int)c;
		for (auto& q : queries)
			if (q.kind == Q_CURRENT)
				v.push_back(q.call(77));
	}
	T->told_cpu = -1;
	return v;
}

/* CPUs a thread may be found on without the library having detected them. */
static std::vector<u32> odd_cpus(const Machine& m) {
	std::vector<u32> v;
	for (auto& c : m.cpus)
		if (!c.online)
			v.push_back(c.id);
	v.push_back(m.kernel_max);
	v.push_back(m.cpus.back().id + 1);
	v.push_back(m.kernel_max + 1);
	v.push_back(0x7fffffff);
	return v;
}

static void c02() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	generate(m, arch(), small_machine());
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	process_restart();
	arm_limits();
	Desc base;
	bool ok = false;
	std::vector<u32> asked = sched_cpus;
	for (u32 c : odd_cpus(m))
		asked.push_back(c);
	std::vector<u64> base_current;
	R->inits++;
	run_one([&] {
		ok = lib_initialize();
		if (ok) {
			base = observe();
			base_current = current_answers(asked);
		}
	});
	if (R->fail.set)
		return;
	if (!ok) {
		R->violation("refused", "initialize failed on a healthy machine");
		return;
	}
	/* the world moves on */
	u32 n = 2 + ch.choose(3);
	u32 len = 3 + ch.choose(12);
	sched_configure(true);
	sched_cfg.migrate = true;
	u64 checks = 0;
	auto look = [&] {
		Desc d = observe();
		checks++;
		str e = diff(base, d, true);
		if (!e.empty())
			R->violation("changed", "description changed after publication: %s", e.c_str());
		std::vector<u64> now = current_answers(asked);
		for (size_t i = 0; i < now.size(); i++)
			if (now[i] != base_current[i]) {
				R->violation("changed", "a current-processor query changed its answer for CPU %u after publication", asked[i / (now.size() / asked.size())]);
				break;
			}
	};
	std::vector<std::function<void()>> fns;
	for (u32 t = 0; t < n; t++)
		fns.push_back([&, t] {
			for (u32 k = 0; k < len && !R->fail.set; k++) {
				switch (ch.weighted({5, 2, 2, 1, 1, 1, 4})) {
					case 0: {
						u32 w;
						call_random_query(w);
						R->ev("query %s", queries[w].name);
						break;
					}
					case 1: {
						bool r = lib_initialize();
						R->ev("initialize again -> %d", (int)r);
						if (!r)
							R->violation("return-changed", "initialize returned false after it had returned true");
						break;
					}
					case 2:
						lib_deinitialize();
						R->ev("deinitialize");
						R->probe("deinitialize");
						break;
					case 3:
						m.event(hotplug_event(ch.choose(4), ch.choose((u32)m.cpus.size())));
						break;
					case 4:
						E.content["/proc/cpuinfo"] = "processor\t: 0\n";
						E.absent.insert("/sys/devices/system/cpu/present");
						R->fault("file:changes");
						break;
					case 5:
						E.getcpu_errno = ch.chance(1, 2) ? ENOSYS : 0;
						break;
					case 6: look(); break;
				}
				yield_point(UNIT_SEAM);
			}
			look();
		});
	auto res = run_threads(fns);
	for (auto& r : res)
		if (!r.done)
			R->violation("died", "a thread using the description was terminated");
	R->nontrivial = checks > 0;
}

/* ---- C03 ---- */
static void c03() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	generate(m, arch(), small_machine());
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	process_restart();
	arm_limits();
	bool ok = false;
	R->inits++;
	run_one([&] { ok = lib_initialize(); });
	if (R->fail.set)
		return;
	if (!ok) {
		R->violation("refused", "initialize failed on a healthy machine");
		return;
	}
	u32 n = 1 + ch.choose(3);
	u32 len = 8 + ch.choose(24);
	sched_configure(true);
	sched_cfg.migrate = true;
	if (ch.chance(1, 2))
		for (u32 c : odd_cpus(m))
			sched_cpus.push_back(c);
	bool fail_some = ch.chance(1, 3);
	/* none of this is ever done, by any thread */
	auto total = [] { return E.file_ops + E.alloc_ops + E.cpuid_ops + E.other_ops + E.write_ops + E.clock_ops; };
	u64 before = total();
	u64 fds = E.fds.size(), blocks = E.heap.size();
	std::vector<std::function<void()>> fns;
	for (u32 t = 0; t < n; t++)
		fns.push_back([&, t] {
			for (u32 k = 0; k < len && !R->fail.set; k++) {
				u32 act = ch.weighted({12, 2, 1, 3});
				u64 g = T->getcpu_ops, l = T->lock_ops;
				if (sched_cpus.size() > 1 && ch.chance(1, 3)) {
					set_cpu(T, sched_cpus[ch.choose((u32)sched_cpus.size())]);
					R->fault("migrate");
				}
				if (fail_some)
					E.getcpu_errno = ch.chance(1, 2) ? 0 : ch.chance(1, 2) ? ENOSYS : EFAULT;
				const char* name = "";
				bool may_ask = false, may_once = false;
				if (act == 0) {
					u32 w;
					call_random_query(w);
					name = queries[w].name;
					may_ask = queries[w].kind == Q_CURRENT;
					R->ev("query %s", name);
				} else if (act == 1) {
					lib_initialize();
					name = "initialize";
					may_once = true;
				} else if (act == 2) {
					lib_deinitialize();
					name = "deinitialize";
					may_once = true;
				} else {
					observe_isa();
					name = "isa queries";
				}
				if (total() != before) {
					R->violation("not-self-contained", "%s made a system, file, memory or output operation after initialization", name);
					return;
				}
				u64 asked = T->getcpu_ops - g;
				if (asked > (may_ask ? 1u : 0u))
					R->violation("getcpu", "%s asked for the current CPU %llu times", name, (unsigned long long)asked);
				if (T->lock_ops != l && !may_once)
					R->violation("lock", "%s took a lock", name);
			}
		});
	auto res = run_threads(fns);
	for (auto& r : res)
		if (!r.done)
			R->violation("died", "a query terminated the process after successful initialization");
	if (E.fds.size() != fds || E.heap.size() != blocks)
		R->violation("not-self-contained", "queries changed the set of open files or live allocations");
	R->nontrivial = true;
}

/* ---- C04 ---- */
void refuse(const char* when) {
	/* every count, table, element and current-processor query refuses */
	Choices& ch = R->ch;
	u32 n = 1 + ch.choose(6);
	for (u32 k = 0; k < n && !R->fail.set; k++) {
		u32 w = ch.choose((u32)queries.size());
		static const u32 args[] = {0, 1, 7, 0xffffffffu};
		u32 a = args[ch.choose(4)];
		size_t wr = E.writes.size();
		u64 v = 0;
		ThreadResult r = run_one([&] { v = queries[w].call(a); });
		if (!r.aborted) {
			R->violation("answered", "%s: cpuinfo_get_%s returned a value (%llu) instead of terminating the process", when, queries[w].name, (unsigned long long)v);
			return;
		}
		str text;
		for (size_t i = wr; i < E.writes.size(); i++)
			if (E.writes[i].fd == 2 || E.writes[i].fd >= ANDROID_STREAM + 5)
				text += E.writes[i].data;
		/* the name must appear as a whole word: "cores" is not "core" */
		str want = str("cpuinfo_get_") + queries[w].name;
		size_t at = text.find(want);
		bool named = at != str::npos && (at + want.size() >= text.size() || !(isalnum((u8)text[at + want.size()]) || text[at + want.size()] == '_'));
		if (!named)
			R->violation("diagnostic", "%s: cpuinfo_get_%s terminated the process without a diagnostic naming it: '%.120s'", when, queries[w].name, text.c_str());
	}
}

static void c04() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	generate(m, arch(), small_machine());
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	Outcome ref = detect(false);
	if (!ended(ref, "reference"))
		return;
	/* queries before any initialize */
	if (ch.chance(1, 4)) {
		process_restart();
		refuse("before initialize");
		if (R->fail.set)
			return;
		R->probe("query_before_init");
	}
	process_restart();
	if (ch.chance(1, 3)) {
		damage_files(m);
		show_files();
	}
	fault_plan(ref);
	E.faults_on = true;
	arm_limits();
	R->inits++;
	bool ret = false;
	ThreadResult tr = run_one([&] {
		ret = lib_initialize();
		R->ev("initialize -> %d", (int)ret);
	});
	if (R->fail.set)
		return;
	if (!tr.done) {
		R->violation("died", "detection terminated the process");
		return;
	}
	E.fault_at.clear();
	E.persistent.clear();
	if (ret)
		return; /* survived the faults: not this property's business */
	R->nontrivial = true;
	R->probe("init_failed");
	if (!E.fds.empty())
		R->violation("fd-left", "failed initialization left %zu files open (%s)", E.fds.size(), E.fds.begin()->second.path.c_str());
	if (!E.heap.empty())
		R->violation("memory-left", "failed initialization left %zu allocations of %zu bytes", E.heap.size(), live_bytes());
	if (R->fail.set)
		return;
	/* final: the environment has recovered, the answer stays */
	u64 work = E.seam_ops();
	u32 n = 1 + ch.choose(3);
	sched_configure(true);
	std::vector<std::function<void()>> fns;
	for (u32 t = 0; t < n; t++)
		fns.push_back([&] {
			for (int k = 0; k < 2; k++) {
				bool again = lib_initialize();
				R->ev("initialize again -> %d", (int)again);
				if (again)
					R->violation("not-final", "initialize returned true after it had returned false");
			}
			lib_deinitialize();
			if (lib_initialize())
				R->violation("not-final", "initialize returned true after it had returned false");
		});
	auto res = run_threads(fns);
	for (auto& r : res)
		if (!r.done && !R->fail.set)
			R->violation("died", "repeated initialize after a failure did not return");
	if (E.seam_ops() != work)
		R->violation("repeated", "detection was repeated after a failed initialization");
	if (R->fail.set)
		return;
	sched_configure(false);
	refuse("after failed initialize");
}

/* ---- C05 ---- */
static void c05() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	generate(m, arch(), go);
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	bool files = ch.chance(1, 3);
	if (files) {
		damage_files(m);
		show_files();
	}
	if (ch.chance(1, 3))
		read_pattern();
	Outcome ref = detect(false);
	if (!ended(ref, "reference"))
		return;
	auto ledger = [&](const Outcome& o) {
		if (!E.misuse.empty())
			R->violation("misuse", "%s", E.misuse.c_str());
		if (!E.fds.empty())
			R->violation("fd-left", "%zu files still open when initialize returned %d (%s)", E.fds.size(), o.ret, E.fds.begin()->second.path.c_str());
		if (E.libraries)
			R->violation("library-left", "%u shared libraries still open when initialize returned %d", E.libraries, o.ret);
		Leak l = unreachable_blocks();
		if (l.count)
			R->violation("leak", "%u allocations of %zu bytes are neither released nor part of the description when initialize returned %d", l.count, l.bytes, o.ret);
		if (!o.ret && !E.heap.empty())
			R->violation("leak", "failed initialization keeps %zu allocations of %zu bytes", E.heap.size(), live_bytes());
	};
	ledger(ref);
	if (R->fail.set)
		return;
	R->nontrivial = true;
	if (ch.chance(5, 6)) {
		fault_plan(ref);
		Outcome o = detect(false);
		if (!ended(o, "with faults"))
			return;
		R->probe(o.ret ? "faulted_init_succeeded" : "faulted_init_failed");
		ledger(o);
	}
}

/* ---- C06 ---- */
static void c06() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	go.truth = false;
	generate(m, arch(), go);
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	E.alloc_limit = 32u << 20;
	if (ch.chance(4, 5)) {
		damage_files(m);
		show_files();
	}
	read_pattern();
	Outcome ref;
	bool faulty = ch.chance(1, 3);
	ref = detect();
	if (!ended(ref, "damaged files"))
		return;
	R->probe(ref.ret ? "init_true" : "init_false");
	if (faulty) {
		fault_plan(ref);
		ref = detect();
		if (!ended(ref, "damaged files and faults"))
			return;
	}
	R->nontrivial = true;
	if (!ref.ret)
		return;
	run_one([&] {
		for (auto& q : queries) {
			static const u32 args[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu};
			for (u32 a : args)
				q.call(a);
		}
		E.getcpu_errno = ENOSYS;
		for (auto& q : queries)
			if (q.kind == Q_CURRENT)
				q.call(3);
		E.getcpu_errno = 0;
		static const int cpus[] = {0, 1, 31, 32, 63, 64, 1023, 1024, 8191, 65536, 0x7fffffff};
		for (int c : cpus) {
			E.getcpu_override = c;
			for (auto& q : queries)
				if (q.kind == Q_CURRENT) {
					u64 v = q.call(0);
					if (v && (!strcmp(q.name, "current_processor") || !strcmp(q.name, "current_core"))) {
						volatile u32 sink = *(const volatile u32*)(uintptr_t)v;
						(void)sink;
						int i = !strcmp(q.name, "current_core") ? core_index(v, ref.d) : processor_index(v, ref.d);
						if (i < 0)
							R->violation("foreign", "cpuinfo_get_%s on CPU %d returned an address outside the table", q.name, c);
					}
				}
		}
		E.getcpu_override = -1;
	});
}

/* ---- C07 ---- */
static void c07() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	go.max_cpus = ch.chance(1, 8) ? 40 : 12;
	go.large = true;
	generate(m, arch(), go);
	place_threads(m);
	finish(m);
	sched_configure(false);
	if (ch.chance(1, 4)) {
		/* list files longer than any buffer */
		damage_files(m);
		/* only damage made of entries Linux could print */
		std::vector<str> drop;
		for (auto* c : {&E.content, &E.content_later})
			for (auto& f : *c) {
				size_t run = 0, worst = 0, line = 0, worst_line = 0;
				for (char x : f.second) {
					if (x == 0)
						worst = 1000;
					if (is_num(x))
						run++;
					else
						run = 0;
					line = x == '\n' ? 0 : line + 1;
					worst = std::max(worst, run);
					worst_line = std::max(worst_line, line);
				}
				bool list = f.first != "/proc/cpuinfo";
				if (list ? worst > 5 || f.second.find(' ') != str::npos || f.second.find('\t') != str::npos : worst_line > 900)
					drop.push_back(f.first);
			}
		for (auto& d : drop) {
			E.content.erase(d);
			E.content_later.erase(d);
		}
		show_files();
	}
	Outcome ref = detect();
	if (!ended(ref, "whole reads"))
		return;
	read_pattern(true);
	if (E.read_mode == READ_FULL)
		return;
	u64 shorts = R->faults["read:short"];
	Outcome o = detect();
	if (!ended(o, "split reads"))
		return;
	if (o.ret != ref.ret) {
		R->violation("return-differs", "initialize returned %d with whole reads but %d with split reads", ref.ret, o.ret);
		return;
	}
	if (R->faults["read:short"] > shorts)
		R->nontrivial = true;
	if (ref.ret) {
		str e = diff(ref.d, o.d);
		if (!e.empty())
			R->violation("result-differs", "splitting the reads changed the description: %s", e.c_str());
	}
}

/* ---- C08, C09, C10 ---- */
static void truth(str (*oracle)(const Desc&, const Machine&)) {
	Machine m;
	E.world = &m;
	GenOpts go;
	go.large = true;
	generate(m, arch(), go);
	place_threads(m);
	finish(m);
	noise();
	read_pattern();
	if (arch() == ARCH_RISCV && R->ch.chance(1, 2))
		E.sort_seed = 1 + R->ch.choose(1000);
	sched_configure(false);
	Outcome o = detect();
	if (!ended(o, "healthy machine"))
		return;
	R->nontrivial = m.cpus.size() > 1;
	if (!o.ret) {
		R->violation("refused", "initialize failed on a healthy machine");
		return;
	}
	if (!o.d.broken.empty())
		R->violation("tables", "%s", o.d.broken.c_str());
	str e = oracle(o.d, m);
	if (!e.empty())
		R->violation("wrong", "%s", e.c_str());
	if (R->trace)
		R->log.push_back("[description]\n" + o.d.text());
}

/* ---- C27 ---- */
/* Makes topology and frequency files of some processors unreadable; returns their names. */
static std::set<str> hide_files(Machine& m) {
	Choices& ch = R->ch;
	static const char* const leaves[] = {"topology/physical_package_id", "topology/cluster_cpus_list", "topology/core_siblings_list", "cpufreq/cpuinfo_max_freq",
		"cpufreq/cpuinfo_min_freq"};
	u32 topology = ch.weighted({2, 6, 2, 2}), freq = ch.weighted({3, 2, 2, 3});
	std::set<str> unreadable;
	for (auto& c : m.cpus)
		for (u32 k = 0; k < 5; k++) {
			bool gone;
			if (k < 3)
				gone = topology == 1 || (topology == 2 && ch.chance(1, 2)) || (topology == 3 && ch.chance(1, 8));
			else
				gone = freq == 1 || (freq == 2 && ch.chance(1, 4)) || (freq == 3 && ch.chance(2, 3));
			if (!gone)
				continue;
			str path = sfmt("/sys/devices/system/cpu/cpu%u/%s", c.id, leaves[k]);
			u32 way = topology == 1 && k < 3 ? 0 : ch.weighted({4, 1, 1, 1});
			if (way == 3) {
				str text;
				if (m.file(path, &text)) /* there, but without a value */
					E.content[path] = k == 0 ? "-1\n" : k < 3 ? "\n" : ch.chance(1, 2) ? "0\n" : "<unknown>\n";
			} else
				E.unreadable[path] = {way, way || topology != 1 ? ch.choose(9) : 0};
			unreadable.insert(path);
		}
	return unreadable;
}

static void c27() {
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	go.phone = true;
	generate(m, arch(), go);
	m.props.clear();
	place_threads(m);
	finish(m);
	noise();
	read_pattern();
	sched_configure(false);
	std::set<str> unreadable = hide_files(m);
	Outcome o = detect();
	if (!ended(o, "missing information"))
		return;
	if (!o.ret) {
		R->violation("refused", "initialize failed though only optional files are missing");
		return;
	}
	ArmGuess g = arm_guess(m, unreadable, obs_os == OS_ANDROID && arch() == ARCH_ARM32);
	R->nontrivial = !g.listed;
	R->probe(sfmt("clusters_%s", g.how).c_str());
	R->probe(sfmt("types_%s", g.types).c_str());
	if (R->trace)
		R->log.push_back("[description]\n" + o.d.text());
	str e = check_guess(o.d, m, g);
	if (!e.empty())
		R->violation("wrong", "%s", e.c_str());
}

/* ---- C28 ---- */
static void c28() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	go.phone = ch.chance(1, 2);
	generate(m, arch(), go);
	if (ch.chance(1, 2)) { /* any cores with any other */
		static const u32 any[] = {0x410FD034, 0x411FD040, 0x411FD050, 0x412FD051, 0x411FD061, 0x411FD072, 0x410FD083, 0x410FD092, 0x413FD0A0, 0x413FD0B1, 0x413FD0C1,
			0x411FD0D0, 0x411FD0E1, 0x411FD401, 0x411FD411, 0x411FD440, 0x411FD461, 0x412FD470, 0x412FD480, 0x410FD490, 0x410FD4A2, 0x411FD4D0, 0x411FD4E0, 0x410FD4F1,
			0x420F00F2, 0x421F1000, 0x420F5160, 0x431F0AF2, 0x480FD010, 0x481FD400, 0x4E0F0000, 0x4E0F0030, 0x4E0F0040, 0x500F0000, 0x512F2011, 0x511F2052, 0x511F2112,
			0x51AF8002, 0x51AF8014, 0x517F802C, 0x517F803C, 0x51DF804E, 0x51DF805E, 0x510FC000, 0x531F0011, 0x534F0010, 0x531F0020, 0x531F0030, 0x531F0040, 0x561F5811,
			0x410FC051, 0x410FC075, 0x413FC082, 0x412FC09A, 0x410FC0D1, 0x410FC0E1, 0x413FC0F3, 0x510F00F2, 0x511F04D4, 0x512F06F1};
		for (auto& t : m.types)
			do
				t.midr = any[ch.choose(sizeof any / sizeof *any)];
			while (arch() == ARCH_ARM64 && ((t.midr & 0xff00f000) == 0x4100c000 || (t.midr >> 24 == 0x51 && (t.midr >> 4 & 0xfff) < 0x200)));
	}
	if (ch.chance(1, 4)) {
		static const char* const chips[] = {"Hisilicon Kirin980", "Hisilicon Kirin970", "Qualcomm Technologies, Inc SDM845", "Qualcomm Technologies, Inc SDM660",
			"Qualcomm Technologies, Inc MSM8953", "Qualcomm MSM8974PRO", "MT6797", "MT6765", "SAMSUNG Exynos5422", "SAMSUNG Exynos7420", "sun8i", "Amlogic S905", "rk3288", "SDM670"};
		m.has_footer = true;
		m.hardware = chips[ch.choose(sizeof chips / sizeof *chips)];
	}
	m.props.clear();
	place_threads(m);
	finish(m);
	noise();
	read_pattern();
	sched_configure(false);
	L1Told told;
	u32 mode = arch() == ARCH_ARM32 && !m.old_style ? ch.weighted({2, 2, 2}) : 0;
	m.arm32_cache_lines = false;
	if (mode) {
		for (auto& c : m.cpus) {
			if (mode == 2 && ch.chance(1, 3))
				continue;
			static const char* const names[] = {"size\t\t: ", "assoc\t\t: ", "line length\t: ", "sets\t\t: "};
			str text;
			u32 bad = ch.chance(2, 5) ? 1 + ch.choose(8) : 0; /* a line that is missing or makes no sense */
			for (int k = 0; k < 2; k++) {
				std::array<u32, 4> v;
				v[1] = 1u << ch.choose(5);
				v[2] = 16u << ch.choose(4);
				v[3] = 1u << (3 + ch.choose(8));
				v[0] = v[1] * v[2] * v[3];
				if (ch.chance(1, 6))
					v[ch.choose(2)] += 1 + ch.choose(40); /* published as reported all the same */
				bool whole = true;
				for (int f = 0; f < 4; f++) {
					str value = sfmt("%u", v[(size_t)f]);
					if (bad == (u32)(k * 4 + f + 1)) {
						whole = false;
						u32 how = ch.choose(f == 2 ? 4 : 3);
						if (how == 0)
							continue;
						value = how == 1 ? "0" : how == 2 ? "unknown" : ch.chance(1, 2) ? "48" : "256";
					}
					text += sfmt("%c %s%s\n", k ? 'D' : 'I', names[f], value.c_str());
				}
				if (whole && c.online)
					told[{c.id, k}] = v;
			}
			m.cache_lines[c.id] = text;
		}
	}
	bool hidden = ch.chance(1, 3);
	if (hidden)
		hide_files(m);
	Outcome o = detect();
	if (!ended(o, "detection"))
		return;
	if (!o.ret) {
		R->violation("refused", "initialize failed on a healthy machine");
		return;
	}
	R->nontrivial = o.d.clusters.size() > 1 || !told.empty();
	if (!told.empty())
		R->probe("level_1_reported");
	R->probe(o.d.cache[3].empty() ? "no_level_3" : o.d.cache[3].size() == 1 ? "one_level_3" : "level_3_by_cluster");
	if (R->trace)
		R->log.push_back("[description]\n" + o.d.text());
	str e = check_arm_caches(o.d, m, told);
	if (!e.empty()) {
		R->violation("wrong", "%s", e.c_str());
		return;
	}
	/* The caches of a processor do not depend on the types of cores in other clusters */
	if (hidden || m.old_style || !m.hardware.empty() || m.online_ids().size() != m.cpus.size() || m.types.size() < 2)
		return;
	std::vector<CoreType> types = m.types;
	for (size_t t = 0; t < types.size() && !R->fail.set; t++) {
		for (auto& u : m.types)
			u.midr = types[t].midr;
		Outcome ref = detect();
		if (!ended(ref, "detection") || !ref.ret)
			break;
		R->probe("compared_with_cores_of_one_type");
		for (auto& c : m.cpus) {
			const DProc *p = nullptr, *q = nullptr;
			for (auto& x : o.d.procs)
				if ((u32)x.linux_id == c.id)
					p = &x;
			for (auto& x : ref.d.procs)
				if ((u32)x.linux_id == c.id)
					q = &x;
			if (c.type != t || !p || !q || o.d.clusters[(size_t)p->cluster].pcount != ref.d.clusters[(size_t)q->cluster].pcount)
				continue;
			for (int k = 0; k < 5; k++) {
				const DCache* a = p->cache[k] < 0 ? nullptr : &o.d.cache[k][(size_t)p->cache[k]];
				const DCache* b = q->cache[k] < 0 ? nullptr : &ref.d.cache[k][(size_t)q->cache[k]];
				if (!a != !b || (a && (a->size != b->size || a->assoc != b->assoc || a->sets != b->sets || a->line != b->line || a->flags != b->flags)))
					R->violation("wrong", "level %d cache of processor %u: %u bytes, but %u if all cores are of its type", k ? k : 1, c.id, a ? a->size : 0, b ? b->size : 0);
			}
		}
	}
	m.types = types;
}

/* ---- C29 ---- */
static const char* const arm32_features[] = {"swp", "half", "thumb", "26bit", "fastmult", "fpa", "vfp", "edsp", "java", nullptr, "crunch", "thumbee", "neon", "vfpv3",
	"vfpv3d16", "tls", "vfpv4", "idiva", "idivt", "vfpd32", "lpae", "evtstrm"};
static const char* const arm32_features2[] = {"aes", "pmull", "sha1", "sha2", "crc32"};

/* Answers that follow from the capability words alone; the others are left to comparison */
struct IsaFact {
	const char* query;
	u64 need, need2; /* bits of both words, all of which are needed */
	bool only_then;  /* false: other things can make it true */
};
static const IsaFact arm64_facts[] = {
	{"arm_aes", 1 << 3, 0, true}, {"arm_pmull", 1 << 4, 0, true}, {"arm_sha1", 1 << 5, 0, true}, {"arm_sha2", 1 << 6, 0, true}, {"arm_crc32", 1 << 7, 0, true},
	{"arm_atomics", 1 << 8, 0, true},
	{"arm_jscvt", 1 << 13, 0, true}, {"arm_fcma", 1 << 14, 0, true}, {"arm_sve", 1 << 22, 0, true}, {"arm_fhm", 1 << 23, 0, true}, {"arm_sve2", 0, 1 << 1, true},
	{"arm_i8mm", 0, 1 << 13, true}, {"arm_sme", 0, 1 << 23, true}, {"arm_sme2", 0, 1ull << 37, true}, {"arm_sme2p1", 0, 1ull << 38, true},
	{"arm_sme_i16i32", 0, 1ull << 39, true}, {"arm_sme_bi32i32", 0, 1ull << 40, true}, {"arm_sme_b16b16", 0, 1ull << 41, true}, {"arm_sme_f16f16", 0, 1ull << 42, true},
};
static const IsaFact arm32_facts[] = {
	{"arm_aes", 0, 1, true}, {"arm_pmull", 0, 2, true}, {"arm_sha1", 0, 4, true}, {"arm_sha2", 0, 8, true}, {"arm_crc32", 0, 16, true},
};
static const IsaFact arm32_v8_facts[] = {
	{"arm_v8", 0, 0, true}, {"arm_v7", 0, 0, true}, {"arm_neon", 0, 0, true}, {"arm_idiv", 0, 0, true}, {"arm_vfpv4_d32", 0, 0, true}, {"arm_neon_fma", 0, 0, true},
	{"arm_v5e", 0, 0, true}, {"arm_v6", 0, 0, true}, {"arm_v6k", 0, 0, true}, {"arm_v7mp", 0, 0, true}, {"arm_thumb", 0, 0, true}, {"arm_thumb2", 0, 0, true},
	{"arm_vfpv3", 0, 0, true}, {"arm_vfpv3_d32", 0, 0, true}, {"arm_vfpv3_fp16", 0, 0, true}, {"arm_vfpv3_fp16_d32", 0, 0, true}, {"arm_vfpv4", 0, 0, true},
	{"arm_neon_fp16", 0, 0, true}, {"arm_neon_v8", 0, 0, true},
};
static const IsaFact riscv_facts[] = {
	{"riscv_i", 1 << 8, 0, true}, {"riscv_m", 1 << 12, 0, true}, {"riscv_a", 1 << 0, 0, true}, {"riscv_f", 1 << 5, 0, true}, {"riscv_d", 1 << 3, 0, true},
	{"riscv_c", 1 << 2, 0, true}, {"riscv_v", 1 << 21, 0, true}, {"riscv_g", 1 << 8 | 1 << 12 | 1 | 1 << 5 | 1 << 3, 0, true},
};

template <size_t N>
static void check_isa(const Desc& d, const IsaFact (&facts)[N], u64 cap, u64 cap2) {
	for (auto& f : facts)
		for (u32 i = 0; i < d.isa.size(); i++) {
			if (str(isa_name(i)) != str("cpuinfo_has_") + f.query)
				continue;
			bool want = (cap & f.need) == f.need && (cap2 & f.need2) == f.need2;
			if (d.isa[i] != want && (want || f.only_then))
				R->violation("wrong", "%s is %u with capabilities 0x%llx 0x%llx", isa_name(i), d.isa[i], (unsigned long long)cap, (unsigned long long)cap2);
		}
}

template <size_t N>
static bool has_value(const u32 (&list)[N], u32 x) {
	return std::find(list, list + N, x) != list + N;
}

/* What the type of the core implies, whatever the process is told: 1 it has the instructions, 0 it does not say */
static int implied_fp16_rdm(u32 midr) {
	static const u32 both[] = {0x4100D050, 0x4100D0A0, 0x4100D0B0, 0x4100D0C0, 0x4100D0D0, 0x4100D0E0, 0x4100D400, 0x4100D490, 0x4100D4F0, 0x4800D400, 0x51008020,
		0x51008030, 0x51008040, 0x51008050, 0x53000030, 0x53000040};
	static const u32 only64[] = {0x4100D060}, only32[] = {0x4100D410, 0x4100D440, 0x4100D460, 0x4100D470, 0x4100D480, 0x4100D4D0, 0x4100D4E0};
	u32 key = midr & 0xff00fff0;
	return has_value(both, key) || (arch() == ARCH_ARM64 ? has_value(only64, key) : has_value(only32, key));
}

/* -1: it does not have them */
static int implied_dot(u32 midr) {
	static const u32 both[] = {0x4100D0B0, 0x4100D0C0, 0x4100D0D0, 0x4100D0E0, 0x4100D400, 0x4100D490, 0x4100D4F0, 0x4800D400, 0x51008040, 0x51008050, 0x53000030,
		0x53000040};
	static const u32 only64[] = {0x4100D060, 0x4100D4A0}, only32[] = {0x4100D410, 0x4100D440, 0x4100D460, 0x4100D470, 0x4100D480, 0x4100D4D0, 0x4100D4E0};
	u32 key = midr & 0xff00fff0, variant = midr >> 20 & 15;
	if (key == 0x4100D050)
		return variant >= 1 ? 1 : -1;
	if (key == 0x4100D0A0)
		return variant >= 2 ? 1 : -1;
	return has_value(both, key) || (arch() == ARCH_ARM64 ? has_value(only64, key) : has_value(only32, key));
}

/* What the types of all cores agree on, or something else if they do not */
template <class F>
static int all_types(const Machine& m, F implied) {
	int all = implied(m.types[0].midr);
	for (auto& t : m.types)
		if (implied(t.midr) != all)
			return 2;
	return all;
}

static void expect_isa(const Desc& d, const Machine& m, const char* query, bool want) {
	for (u32 i = 0; i < d.isa.size(); i++)
		if (str(isa_name(i)) == str("cpuinfo_has_") + query && d.isa[i] != want)
			R->violation("wrong", "%s is %u with capabilities 0x%llx 0x%llx, architecture %s and cores 0x%08x", isa_name(i), d.isa[i], (unsigned long long)m.hwcap,
				(unsigned long long)m.hwcap2, m.arm_architecture, m.types[0].midr);
}

/* 32-bit cores before version 8 of the architecture */
static void check_arm_before_v8(const Desc& d, const Machine& m, u64 cap) {
	auto bit = [&](u32 b) { return (cap >> b & 1) != 0; };
	enum { ARM11 = 1, ARM1156 = 3, A9 = 4, MP = 8, SCORPION = 16, KRAIT = 32 };
	int kind = all_types(m, [](u32 midr) {
		switch (midr & 0xff00fff0) {
			case 0x4100B560: return (int)ARM1156;
			case 0x4100C050: return (int)MP;
			case 0x4100C090: return A9 | MP;
			case 0x510000F0: return (int)SCORPION;
			case 0x510002D0: return SCORPION | MP;
			case 0x510004D0: case 0x510006F0: return KRAIT | MP;
		}
		return (midr & 0xff00f000) == 0x4100b000 ? (int)ARM11 : 64;
	});
	if (kind == 2)
		return;
	int version = atoi(m.arm_architecture);
	if (version == 7 && kind & ARM11)
		version = 6;
	if (bit(12) || bit(13) || bit(14) || bit(16) || bit(17) || bit(18) || bit(19))
		version = 7;
	bool idiv = bit(17) && bit(18), thumb = bit(2) || strchr(m.arm_architecture, 'T');
	bool vfp = bit(6) || bit(12) || bit(13) || bit(14) || bit(16) || bit(19), d32 = bit(12) || bit(19), fp16 = bit(16) || kind & (A9 | SCORPION);
	expect_isa(d, m, "arm_v5e", version >= 6 || bit(7) || strchr(m.arm_architecture, 'E'));
	expect_isa(d, m, "arm_v6", version >= 6);
	expect_isa(d, m, "arm_v6k", version >= 7);
	expect_isa(d, m, "arm_v7", version >= 7);
	expect_isa(d, m, "arm_v7mp", version >= 7 && (idiv || kind & MP));
	expect_isa(d, m, "arm_v8", false);
	expect_isa(d, m, "arm_thumb", thumb);
	expect_isa(d, m, "arm_thumb2", thumb && (version >= 7 || kind == ARM1156));
	expect_isa(d, m, "arm_idiv", idiv || kind & KRAIT);
	expect_isa(d, m, "arm_vfpv2", false); /* the library is built for version 7 */
	expect_isa(d, m, "arm_vfpv3", vfp);
	expect_isa(d, m, "arm_vfpv3_d32", d32);
	expect_isa(d, m, "arm_vfpv3_fp16", vfp && fp16);
	expect_isa(d, m, "arm_vfpv3_fp16_d32", d32 && fp16);
	expect_isa(d, m, "arm_vfpv4", bit(16));
	expect_isa(d, m, "arm_vfpv4_d32", bit(16) && d32);
	expect_isa(d, m, "arm_neon", bit(12));
	expect_isa(d, m, "arm_neon_fp16", bit(12) && fp16);
	expect_isa(d, m, "arm_neon_fma", bit(12) && bit(16));
	expect_isa(d, m, "arm_neon_v8", false);
	expect_isa(d, m, "arm_neon_rdm", false);
	expect_isa(d, m, "arm_fp16_arith", false);
	expect_isa(d, m, "arm_neon_dot", false);
	expect_isa(d, m, "arm_wmmx", false);
}

/* Chipsets whose cores do not all have, or do not run, what their type implies */
static const char* const no_fp16_chip = "Samsung EXYNOS9810";
static const char* const no_dot_chips[] = {"sc9863a", "Unisoc UMS312", "Unisoc T310"};

void check_capabilities(const Desc& d, const Machine& m, u64 cap, u64 cap2) {
	if (arch() == ARCH_RISCV) {
		check_isa(d, riscv_facts, cap, cap2);
		return;
	}
	bool v8 = arch() == ARCH_ARM64 || !strcmp(m.arm_architecture, "8") || !strcmp(m.arm_architecture, "AArch64") || (cap2 & 31);
	if (arch() == ARCH_ARM64) {
		check_isa(d, arm64_facts, cap, cap2);
		bool bf16 = cap2 >> 12 & 5; /* of its own or with SVE */
		expect_isa(d, m, "arm_bf16", bf16);
		expect_isa(d, m, "arm_neon_bf16", bf16);
		expect_isa(d, m, "arm_sve_bf16", bf16 && cap >> 22 & 1);
	} else {
		check_isa(d, arm32_facts, cap, cap2);
		if (v8)
			check_isa(d, arm32_v8_facts, cap, cap2);
		else
			check_arm_before_v8(d, m, cap);
	}
	bool a64 = arch() == ARCH_ARM64, no_fp16 = m.hardware == no_fp16_chip, no_dot = false;
	if (!a64)
		for (auto& t : no_dot_chips)
			no_dot |= m.hardware == t;
	if (!v8 || !m.props.empty() || (!m.hardware.empty() && !no_fp16 && !no_dot))
		return;
	int fp16 = all_types(m, implied_fp16_rdm), dot = all_types(m, implied_dot);
	if (no_fp16)
		fp16 = 0;
	if (no_dot)
		dot = 0;
	if (fp16 != 2) {
		bool told = a64 && !no_fp16;
		expect_isa(d, m, "arm_fp16_arith", fp16 || (told && (cap >> 9 & 3) == 3));
		expect_isa(d, m, "arm_neon_fp16_arith", fp16 || (told && (cap >> 9 & 3) == 3));
		expect_isa(d, m, "arm_neon_rdm", fp16 || (told && cap >> 12 & 1));
	}
	if (dot != 2)
		expect_isa(d, m, "arm_neon_dot", dot > 0 || (a64 && !dot && cap >> 20 & 1));
}

static void c29() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	generate(m, arch(), go);
	m.props.clear();
	bool named = !m.hardware.empty();
	if (ch.chance(2, 3)) {
		m.hardware.clear();
		m.has_footer = named = false;
	}
	place_threads(m);
	finish(m);
	noise();
	read_pattern();
	sched_configure(false);
	bool arm32 = arch() == ARCH_ARM32;
	/* the capabilities of the process */
	auto word = [&](u32 bits) {
		u64 w = 0;
		u32 density = ch.choose(4); /* none, few, many, all */
		for (u32 i = 0; i < bits; i++)
			if (density == 3 || (density && ch.chance(density, 3)))
				w |= 1ull << i;
		return w;
	};
	m.hwcap = word(arch() == ARCH_RISCV ? 26 : arm32 ? 22 : 32) & ~(arm32 ? 1ull << 9 : 0);
	m.hwcap2 = word(arm32 ? 5 : 43);
	if (arm32) {
		static const char* const versions[] = {"7", "8", "6", "6TEJ", "5TEJ", "AArch64", "7 "};
		m.arm_architecture = versions[ch.weighted({5, 4, 1, 1, 1, 1, 1})];
	}
	bool typed = arch() != ARCH_RISCV && !named && ch.chance(1, 3);
	if (arch() != ARCH_RISCV && !named && ch.chance(1, 6)) {
		u32 k = ch.choose(arm32 ? 4 : 1);
		m.hardware = k ? no_dot_chips[k - 1] : no_fp16_chip;
		m.has_footer = named = true;
	}
	if (typed) { /* cores whose type implies something */
		static const u32 old[] = {0x410FB767, 0x4107B362, 0x410FB560, 0x413FC090, 0x410FC051, 0x510F02D2, 0x510F00F2, 0x512F04D0, 0x512F06F1};
		static const u32 newer[] = {0x410FD050, 0x410FD060, 0x410FD0A0, 0x410FD0B0, 0x410FD0C0, 0x410FD0D0, 0x410FD0E0, 0x410FD400, 0x410FD410, 0x410FD440, 0x410FD460,
			0x410FD470, 0x410FD480, 0x410FD490, 0x410FD4A0, 0x410FD4D0, 0x410FD4E0, 0x410FD4F0, 0x480FD400, 0x510F802D, 0x510F803C, 0x510F804E, 0x510F805E, 0x530F0030,
			0x530F0040, 0x410FD070};
		u32 midr = arm32 && atoi(m.arm_architecture) < 8 && ch.chance(3, 4) ? old[ch.choose(9)] : newer[ch.choose(26)] | ch.choose(4) << 20;
		if (arm32 || (midr & 0xff00f000) != 0x4100c000)
			for (auto& t : m.types)
				t.midr = midr;
	}
	if (arch() == ARCH_ARM64)
		m.sve = ch.chance(1, 3) ? -1 : (int)(16 * (1 + ch.choose(16)) | ch.choose(4) << 17);
	u64 cap = m.hwcap, cap2 = m.hwcap2;
	int sve = m.sve;
	/* Features lines: each of its own, some missing */
	std::map<u32, std::pair<u64, u64>> lines;
	if (arm32 && ch.chance(3, 4)) {
		u64 all = word(22) & ~(1ull << 9), all2 = word(5);
		bool alike = ch.chance(1, 2);
		auto line = [&](u32 id) {
			if (ch.chance(1, 8)) {
				m.feature_lines[id] = "";
				return;
			}
			u64 w = all, w2 = all2;
			if (!alike) {
				w ^= word(22) & word(22) & ~(1ull << 9);
				w2 ^= word(5) & word(5);
			}
			str text = "Features\t:";
			for (u32 b = 0; b < 22; b++)
				if (w >> b & 1)
					text += str(" ") + arm32_features[b];
			for (u32 b = 0; b < 5; b++)
				if (w2 >> b & 1)
					text += str(" ") + arm32_features2[b];
			if (text.back() == ':')
				w = 1, text += " swp";
			m.feature_lines[id] = text + " \n";
			lines[id] = {w, w2};
		};
		if (m.old_style)
			line(~0u);
		else
			for (auto& c : m.cpus)
				if (c.online)
					line(c.id);
	} else if (arm32) {
		u64 w = m.old_style ? 0x1b0d7 : 0x3fb0d6;
		if (m.old_style)
			lines[~0u] = {w, 0};
		for (auto& c : m.cpus)
			if (c.online && !m.old_style)
				lines[c.id] = {w, 0};
	}
	/* where the capabilities can be read */
	std::set<str> dead;
	const char* source = "getauxval";
	if (arm32 && obs_os == OS_ANDROID) {
		u32 s = ch.weighted({2, 3, 4});
		if (s) {
			dead.insert(ch.chance(1, 2) ? "dlopen:libc.so" : "dlsym:getauxval");
			source = "auxv";
		}
		if (s == 2) {
			source = "Features";
			static const u32 errs[] = {0, 2, 3, 5};
			u32 at = ch.choose(11); /* entries that can still be read */
			E.unreadable["/proc/self/auxv"] = {at == 10 ? 0 : at * 8 + 1, errs[ch.choose(4)]};
			cap = cap2 = lines.empty() ? 0 : ~0ull;
			for (auto& l : lines)
				cap &= l.second.first, cap2 &= l.second.second;
		}
	} else if (ch.chance(1, 4)) { /* what the process was not told counts as not there */
		u32 which = 1 + ch.choose(arch() == ARCH_RISCV ? 1 : 3);
		if (which & 1)
			dead.insert("getauxval:16"), cap = 0;
		if (which & 2)
			dead.insert("getauxval:26"), cap2 = 0;
		source = "nothing";
	}
	if (arch() == ARCH_ARM64 && ch.chance(1, 4)) {
		dead.insert("prctl:51");
		sve = -1;
	}
	E.dead_calls = dead;
	for (auto& d : dead)
		R->fault(d.substr(0, d.find(':')) + ":absent");
	if (arch() != ARCH_RISCV && ch.chance(1, 3))
		hide_files(m);
	Outcome o = detect();
	if (!ended(o, "detection"))
		return;
	if (!o.ret) {
		R->violation("refused", "initialize failed though only optional sources are missing");
		return;
	}
	R->nontrivial = true;
	R->probe(sfmt("capabilities_from_%s", source).c_str());
	if (R->trace) {
		R->log.push_back("[description]\n" + o.d.text());
		R->log.push_back(sfmt("[capabilities] 0x%llx 0x%llx from %s", (unsigned long long)cap, (unsigned long long)cap2, source));
	}
	check_capabilities(o.d, m, cap, cap2);
	if (arch() == ARCH_ARM64)
		for (u32 i = 0; i < o.d.isa.size(); i++)
			if (!strcmp(isa_name(i), "cpuinfo_get_max_arm_sve_length") && o.d.isa[i] != (sve < 0 ? 0 : (u32)(sve & 0xffff) * 8))
				R->violation("wrong", "vector length of %u bits, the kernel says %d", o.d.isa[i], sve);
	if (R->fail.set)
		return;
	/* The same capabilities told by getauxval to a process on cores of one type, everything else being readable */
	E.unreadable.clear();
	E.content.clear();
	E.dead_calls.clear();
	E.read_mode = READ_FULL;
	std::vector<Desc> refs;
	for (size_t t = 0; t < m.types.size(); t++) {
		Machine r = m;
		r.hwcap = cap;
		r.hwcap2 = cap2;
		r.sve = sve;
		r.feature_lines.clear();
		r.features_len = 0;
		for (auto& u : r.types)
			u = m.types[t];
		if (!named) {
			r.cpus.resize(1);
			r.cpus[0] = Cpu();
			r.kernel_max = 0;
			r.has_possible = true;
		}
		E.world = &r;
		place_threads(r);
		Outcome ref = detect();
		E.world = &m;
		if (!ended(ref, "detection"))
			return;
		if (!ref.ret) {
			R->violation("refused", "initialize failed on a machine that hides nothing");
			return;
		}
		refs.push_back(ref.d);
	}
	for (u32 i = 0; i < o.d.isa.size(); i++) {
		bool known = false;
		for (auto& d : refs)
			known |= d.isa[i] == o.d.isa[i];
		if (!known) {
			R->violation("wrong", "%s is %u, but %u where getauxval reports the same capabilities", isa_name(i), o.d.isa[i], refs[0].isa[i]);
			return;
		}
	}
}

/* ---- C30 ---- */
/* What the texts of a system say of its chipset */
struct ChipTexts {
	const char* name;
	bool only_32;
	const char* text[7]; /* Hardware in /proc/cpuinfo and the properties below */
	const char* revision;
	u32 processors; /* the texts mean this one with so many processors, 0: always */
};
static const char* const chip_properties[] = {"ro.product.board", "ro.board.platform", "ro.mediatek.platform", "ro.arch", "ro.chipname", "ro.hardware.chipname"};
static const ChipTexts chip_texts[] = {
	{"Qualcomm MSM8998", false, {"Qualcomm Technologies, Inc MSM8998", "msm8998", "msm8998", nullptr, nullptr, "MSM8998", "MSM8998"}, nullptr, 0},
	{"Qualcomm MSM8953", false, {"Qualcomm Technologies, Inc MSM8953", "MSM8953", "msm8953", nullptr, nullptr, "msm8953", "MSM8953"}, nullptr, 0},
	{"Qualcomm Snapdragon 845", false, {"Qualcomm Technologies, Inc SDM845", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr}, nullptr, 0},
	{"Qualcomm Snapdragon 8150", false, {nullptr, nullptr, nullptr, nullptr, nullptr, "SM8150", "SM8150"}, nullptr, 0},
	{"MediaTek MT6797", false, {"MT6797", "MT6797", "mt6797", "MT6797", nullptr, "MT6797", "MT6797"}, nullptr, 0},
	{"MediaTek MT6737T", false, {"MT6737T", "MT6737T", "mt6737t", "MT6737T", nullptr, "MT6737T", "MT6737T"}, nullptr, 0},
	{"Samsung Exynos 7420", false, {"SAMSUNG Exynos7420", "universal7420", nullptr, nullptr, "exynos7420", "exynos7420", "exynos7420"}, nullptr, 0},
	{"Samsung Exynos 8895", false, {"Samsung EXYNOS8895", "universal8895", nullptr, nullptr, "exynos8895", "exynos8895", "exynos8895"}, nullptr, 0},
	{"HiSilicon Kirin 955", false, {"Hisilicon Kirin 955", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr}, nullptr, 0},
	{"HiSilicon Kirin 970", false, {"Hisilicon Kirin970", nullptr, "kirin970", nullptr, nullptr, nullptr, nullptr}, nullptr, 0},
	{"Spreadtrum SC7731", false, {"sc7731", "SC7731", nullptr, nullptr, nullptr, "SC7731", "SC7731"}, nullptr, 0},
	{"Rockchip RK3368", false, {"Rockchip RK3368", nullptr, "rk3368", nullptr, nullptr, nullptr, nullptr}, nullptr, 0},
	{"Marvell PXA1908", true, {"PXA1908", "PXA1908", nullptr, nullptr, nullptr, "PXA1908", "PXA1908"}, nullptr, 0},
	{"Broadcom BCM2837", false, {"BCM2835", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr}, "a02082", 0},
	{"Broadcom BCM2711", false, {"BCM2711", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr}, "c03111", 0},
	{"Broadcom BCM2836", false, {"BCM2709", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr}, "a01041", 0},
	{"Rockchip RK3288", false, {"Rockchip RK3288", nullptr, "rk3288", nullptr, nullptr, nullptr, nullptr}, nullptr, 4},
	{"Rockchip RK3399", false, {"Rockchip RK3288", nullptr, "rk3288", nullptr, nullptr, nullptr, nullptr}, nullptr, 6},
	{"MediaTek MT6732", false, {"MT6752", "MT6752", "mt6752", "MT6752", nullptr, "MT6752", "MT6752"}, nullptr, 4},
	{"MediaTek MT6752", false, {"MT6752", "MT6752", "mt6752", "MT6752", nullptr, "MT6752", "MT6752"}, nullptr, 8},
	{"Samsung Exynos 7578", false, {"Samsung Exynos7580", "universal7580", nullptr, nullptr, "exynos7580", "exynos7580", "exynos7580"}, nullptr, 4},
	{"Samsung Exynos 7580", false, {"Samsung Exynos7580", "universal7580", nullptr, nullptr, "exynos7580", "exynos7580", "exynos7580"}, nullptr, 8},
	{"Qualcomm MSM8916", false, {"Qualcomm Technologies, Inc MSM8216", "msm8216", "msm8216", nullptr, nullptr, "MSM8216", "MSM8216"}, nullptr, 0},
	{"Qualcomm MSM8916", false, {"Qualcomm Technologies, Inc MSM8916", "msm8916", "msm8916", nullptr, nullptr, "MSM8916", "MSM8916"}, nullptr, 4},
	{"Qualcomm MSM8939", false, {"Qualcomm Technologies, Inc MSM8916", "msm8916", "msm8916", nullptr, nullptr, "MSM8916", "MSM8916"}, nullptr, 8},
	{"Qualcomm MSM8917", false, {"Qualcomm Technologies, Inc MSM8937", "msm8937", "msm8937", nullptr, nullptr, "MSM8937", "MSM8937"}, nullptr, 4},
	{"Qualcomm MSM8937", false, {"Qualcomm Technologies, Inc MSM8937", "msm8937", "msm8937", nullptr, nullptr, "MSM8937", "MSM8937"}, nullptr, 8},
	{"Qualcomm MSM8960", false, {"Qualcomm Technologies, Inc MSM8960", "msm8960", "msm8960", nullptr, nullptr, "MSM8960", "MSM8960"}, nullptr, 2},
	{"Qualcomm APQ8064", false, {"Qualcomm Technologies, Inc MSM8960", "msm8960", "msm8960", nullptr, nullptr, "MSM8960", "MSM8960"}, nullptr, 4},
	{"Qualcomm MSM8996", false, {"Qualcomm Technologies, Inc MSM8996", "msm8996", "msm8996", nullptr, nullptr, "MSM8996", "MSM8996"}, nullptr, 4},
	{"Qualcomm MSM8994", false, {"Qualcomm Technologies, Inc MSM8996", "msm8996", "msm8996", nullptr, nullptr, "MSM8996", "MSM8996"}, nullptr, 8},
	{"Qualcomm MSM8610", true, {"Qualcomm Technologies, Inc MSM8610", "msm8610", "msm8610", nullptr, nullptr, "MSM8610", "MSM8610"}, nullptr, 2},
	{"Qualcomm MSM8612", true, {"Qualcomm Technologies, Inc MSM8610", "msm8610", "msm8610", nullptr, nullptr, "MSM8610", "MSM8610"}, nullptr, 4},
	{"Samsung Exynos 4412", true, {"Samsung Exynos4410", nullptr, nullptr, nullptr, "exynos4410", nullptr, nullptr}, nullptr, 0},
	{"Samsung Exynos 5420", true, {"Samsung Exynos5420", "universal5420", nullptr, nullptr, "exynos5420", "exynos5420", "exynos5420"}, nullptr, 4},
	{"Samsung Exynos 5260", true, {"Samsung Exynos5420", "universal5420", nullptr, nullptr, "exynos5420", "exynos5420", "exynos5420"}, nullptr, 6},
	{"Qualcomm MSM8976", false, {"Qualcomm Technologies, Inc MSM8976MSM8976", "MSM8976", "msm8976", nullptr, nullptr, "MSM8976", "MSM8976"}, nullptr, 0},
	{"Qualcomm APQ8016", false, {"Qualcomm Technologies, Inc APQ8016APQ8016", nullptr, nullptr, nullptr, nullptr, "APQ8016", "APQ8016"}, nullptr, 0},
	{"MediaTek MT6795T", false, {"MT6795TURBO", "MT6795T", "mt6795t", "MT6795TRUBO", nullptr, "MT6795T", "MT6795T"}, nullptr, 0},
};
static const char* const no_chip[] = {"", "unknown", "Generic DT based system", "goldfish", "full_board", "herolte", "0", "-", "  ", "virt", "ranchu_ranchu"};

static void c30() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	go.phone = ch.chance(3, 4);
	generate(m, arch(), go);
	bool android = obs_os == OS_ANDROID;
	m.props.clear();
	m.revision.clear();
	place_threads(m);
	finish(m);
	noise();
	read_pattern();
	sched_configure(false);
	u32 present = 0;
	for (auto& c : m.cpus)
		present += c.present;
	/* one chipset named in some places, nothing of use in others, perhaps another one in the rest */
	auto pick = [&] {
		for (;;) {
			const ChipTexts& c = chip_texts[ch.choose(sizeof chip_texts / sizeof *chip_texts)];
			if ((c.only_32 && arch() != ARCH_ARM32) || (c.revision && android) || (c.processors && c.processors != present))
				continue;
			return &c;
		}
	};
	const ChipTexts* chip[2] = {pick(), pick()};
	bool mixed = android && ch.chance(1, 3);
	u32 seen[2] = {0, 0}; /* sources, as bits */
	bool letter = false;
	auto lower = [](str t) {
		for (char& c : t)
			c = (char)tolower(c);
		return t;
	};
	auto text_of = [&](u32 i, bool lost) -> str {
		u32 k = ch.weighted({4, 3, mixed ? 3u : 0u});
		if (k == 1 || !chip[k ? 1 : 0]->text[i]) {
			if (ch.chance(1, 20))
				return str(i ? 91 : 63, "x9-_"[ch.choose(4)]);
			return no_chip[ch.choose(sizeof no_chip / sizeof *no_chip)];
		}
		str t = chip[k ? 1 : 0]->text[i];
		if (t.size() == 7 && lower(t) == "mt6737t" && ch.chance(1, 2))
			t.pop_back(); /* some leave out the letter */
		if (!lost) {
			seen[k ? 1 : 0] |= 1u << i;
			letter |= lower(t) == "mt6737t";
		}
		return t;
	};
	m.has_footer = ch.chance(4, 5);
	m.hardware.clear();
	if (m.has_footer) {
		m.hardware = text_of(0, false);
		if (m.hardware.find_first_not_of(' ') == str::npos)
			m.hardware.clear();
		m.revision = chip[0]->revision ? chip[0]->revision : ch.chance(1, 2) ? "0000" : "";
		if (chip[0]->revision && ch.chance(1, 2)) {
			/* warranty and overvoltage bits */
			static const char* const bits[] = {"1", "2", "3", "82", "42"};
			m.revision = bits[ch.choose(5)] + m.revision;
		}
		if (!android && chip[0]->revision && ch.chance(1, 5)) /* named as it is, then */
			m.revision.clear();
	}
	std::set<str> lost;
	if (android)
		for (u32 i = 0; i < 6; i++) {
			bool away = ch.chance(1, 4);
			if (away)
				lost.insert(str("property:") + chip_properties[i]);
			m.props[chip_properties[i]] = text_of(i + 1, away);
			if (away && ch.chance(1, 2))
				m.props.erase(chip_properties[i]);
		}
	E.dead_calls = lost;
	for (size_t i = 0; i < lost.size(); i++)
		R->fault("property:absent");
	if (ch.chance(1, 4))
		hide_files(m);
	Outcome o = detect();
	if (!ended(o, "detection"))
		return;
	if (!o.ret) {
		R->violation("refused", "initialize failed though only optional sources are missing");
		return;
	}
	str name = o.d.packages[0].name;
	u32 all = seen[0] | seen[1];
	R->nontrivial = all != 0;
	R->probe(seen[0] && seen[1] ? "two_chipsets" : all & (all - 1) ? "one_chipset_named_often" : all ? "one_chipset_named_once" : "no_chipset");
	if (R->trace) {
		R->log.push_back("[description]\n" + o.d.text());
		R->log.push_back("[hardware] " + m.hardware + " [revision] " + m.revision);
		for (auto& p : m.props)
			R->log.push_back("[property] " + p.first + " = " + p.second + (lost.count("property:" + p.first) ? " (cannot be read)" : ""));
	}
	auto called = [&](const ChipTexts* c) {
		str want = c->name;
		if (c->revision && m.revision.empty())
			want = str("Broadcom ") + c->text[0];
		if (want == "MediaTek MT6737T" && !letter)
			want.pop_back();
		return want;
	};
	bool unknown = name.empty() || name == "Unknown";
	bool two = seen[0] && seen[1] && strcmp(chip[0]->name, chip[1]->name) != 0;
	if (!seen[0] && !seen[1]) {
		if (!unknown)
			R->violation("wrong", "'%s' though no source names a chipset", name.c_str());
	} else if (!two) {
		str want = called(chip[seen[0] ? 0 : 1]);
		if (name != want)
			R->violation("wrong", "'%s' though every source that names a chipset names '%s'", name.c_str(), want.c_str());
	} else {
		auto maker = [](const char* n) { return str(n, strcspn(n, " ")); };
		/* of one maker: one of them, perhaps with a letter added */
		bool one = false;
		for (u32 k = 0; k < 2; k++) {
			str want = called(chip[k]);
			one |= name.compare(0, want.size(), want) == 0 && name.size() <= want.size() + 1;
		}
		if (maker(chip[0]->name) != maker(chip[1]->name) ? !unknown : !one && !unknown)
			R->violation("wrong", "'%s' where sources name '%s' and '%s'", name.c_str(), chip[0]->name, chip[1]->name);
	}
}

static void c08() { truth(check_truth_x86); }
static void c09() { truth(check_truth_arm); }
static void c10() { truth(check_truth_riscv); }
void healthy_machine() { truth(arch() == ARCH_X86 ? check_truth_x86 : arch() == ARCH_RISCV ? check_truth_riscv : check_truth_arm); }
void chipset_sources() { c30(); }

/* ---- C11 ---- */
static void c11() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	go.large = true;
	go.truth = false;
	generate(m, arch(), go);
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	E.alloc_limit = 32u << 20;
	if (ch.chance(1, 3))
		E.sort_seed = 1 + ch.choose(1000);
	if (ch.chance(4, 5)) {
		damage_files(m);
		show_files();
	}
	Outcome o = detect();
	if (!ended(o, "damaged files"))
		return;
	if (ch.chance(1, 3)) {
		fault_plan(o);
		o = detect();
		if (!ended(o, "damaged files and faults"))
			return;
	}
	R->probe(o.ret ? "init_true" : "init_false");
	if (R->trace)
		R->log.push_back("[description]\n" + o.d.text());
	if (!o.ret)
		return;
	R->nontrivial = true;
	str e = check_consistent(o.d);
	if (!e.empty())
		R->violation("inconsistent", "%s", e.c_str());
}

/* ---- C12 ---- */
static void c12() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	generate(m, arch(), go);
	place_threads(m);
	finish(m);
	sched_configure(false);
	if (ch.chance(1, 5)) {
		damage_files(m);
		show_files();
	}
	Outcome ref = detect();
	if (!ended(ref, "first process"))
		return;
	/* another process on the same machine */
	noise();
	if (E.junk == 0)
		E.junk = 1 + ch.choose(1000);
	if (stack_junk_seed == 0)
		stack_junk_seed = 1 + ch.choose(1000);
	E.sort_seed = ch.chance(2, 3) ? 1 + ch.choose(1000) : 0;
	errno_at_start = ch.chance(1, 2) ? EINTR : ch.choose(40);
	std::vector<u32> on = m.online_ids();
	u32 start = on[ch.choose((u32)on.size())];
	sched_cpus = on;
	std::swap(sched_cpus[0], *std::find(sched_cpus.begin(), sched_cpus.end(), start));
	sched_configure(true);
	sched_cfg.migrate = ch.chance(2, 3);
	sched_cfg.migrate_den = 2;
	Outcome o = detect();
	errno_at_start = 0;
	if (!ended(o, "second process"))
		return;
	R->nontrivial = true;
	if (o.ret != ref.ret) {
		R->violation("return-differs", "initialize returned %d in one process and %d in another on the same machine", ref.ret, o.ret);
		return;
	}
	if (ref.ret) {
		str e = diff(ref.d, o.d);
		if (!e.empty())
			R->violation("result-differs", "two processes on the same machine got different descriptions: %s", e.c_str());
	}
}

/* ---- C13 ---- */
static void c13() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	generate(m, arch(), go);
	place_threads(m);
	finish(m);
	sched_configure(false);
	process_restart();
	arm_limits();
	Desc d;
	bool ok = false;
	R->inits++;
	run_one([&] {
		ok = lib_initialize();
		if (ok)
			d = observe();
	});
	if (R->fail.set)
		return;
	if (!ok) {
		R->violation("refused", "initialize failed on a healthy machine");
		return;
	}
	std::map<u32, size_t> detected;
	for (size_t i = 0; i < d.procs.size(); i++)
		detected[(u32)d.procs[i].linux_id] = i;
	/* threads may land on CPUs that came later, or that nobody detected */
	if (ch.chance(1, 2)) {
		for (u32 c : odd_cpus(m))
			sched_cpus.push_back(c);
	}
	bool fail_some = ch.chance(1, 3);
	u32 n = 1 + ch.choose(4), len = 6 + ch.choose(20);
	sched_configure(true);
	sched_cfg.max_switches = 200;
	sched_cfg.migrate = true;
	sched_cfg.migrate_den = 2;
	bool multi = d.uarchs.size() > 1;
	u64 asked = 0;
	std::vector<std::function<void()>> fns;
	for (u32 t = 0; t < n; t++)
		fns.push_back([&] {
			for (u32 k = 0; k < len && !R->fail.set; k++) {
				if (sched_cpus.size() > 1 && ch.chance(1, 2)) {
					set_cpu(T, sched_cpus[ch.choose((u32)sched_cpus.size())]);
					R->fault("migrate");
				}
				static const char* const names[] = {"current_processor", "current_core", "current_uarch_index", "current_uarch_index_with_default"};
				u32 which = ch.choose(4);
				const Query* q = nullptr;
				for (auto& x : queries)
					if (!strcmp(x.name, names[which]))
						q = &x;
				u32 dflt = ch.choose(3) == 0 ? 0xffffffffu : 17 + ch.choose(4);
				bool broken = fail_some && ch.chance(1, 3);
				if (broken) {
					E.getcpu_errno = ch.chance(1, 2) ? ENOSYS : EFAULT;
					E.fault_at.clear();
				}
				T->visited.assign(1, T->cpu);
				Thread* me = T;
				int saved = E.getcpu_errno;
				u64 v = q->call(dflt);
				asked++;
				(void)me;
				bool now_broken = E.getcpu_errno != 0 || saved != 0;
				std::set<u32> seen(T->visited.begin(), T->visited.end());
				str cpus;
				for (u32 c : seen)
					cpus += sfmt(" %u", c);
				R->ev("%s on cpu%s", q->name, cpus.c_str());
				bool fine = false;
				if (which < 2) {
					int i = v ? (which == 0 ? processor_index(v, d) : core_index(v, d)) : -1;
					if (now_broken && v == 0)
						fine = true;
					for (u32 c : seen) {
						auto it = detected.find(c);
						if (it == detected.end()) {
							if (v == 0)
								fine = true;
						} else if (i >= 0 && i == (which == 0 ? (int)it->second : d.procs[it->second].core))
							fine = true;
					}
					if (!fine)
						R->violation("wrong", "cpuinfo_get_%s on CPU%s returned %s", q->name, cpus.c_str(),
							v == 0 ? "null" : i >= 0 ? sfmt("element %d (Linux CPU %d)", i, which == 0 ? d.procs[(size_t)i].linux_id : d.procs[d.cores[(size_t)i].pstart].linux_id).c_str() : "a foreign address");
				} else {
					u32 none = which == 2 ? 0 : dflt;
					if (now_broken && v == none)
						fine = true;
					if (!multi && v == 0)
						fine = true;
					for (u32 c : seen) {
						auto it = detected.find(c);
						if (it == detected.end()) {
							if (v == none || v == 0)
								fine = true;
						} else if (v < d.uarchs.size() && d.uarchs[v].uarch == d.cores[(size_t)d.procs[it->second].core].uarch)
							fine = true;
					}
					if (!fine)
						R->violation("wrong", "cpuinfo_get_%s on CPU%s returned %llu (default %u)", q->name, cpus.c_str(), (unsigned long long)v, dflt);
				}
				if (broken)
					E.getcpu_errno = 0;
			}
		});
	auto res = run_threads(fns);
	for (auto& r : res)
		if (!r.done && !R->fail.set)
			R->violation("died", "a current-processor query terminated the process");
	R->nontrivial = asked > 0 && (R->faults.count("migrate") || fail_some);
}

/* ---- C14 ---- */
static void c14() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	/* lists that no buffer holds, so that a read can fail after a part of them was used */
	go.long_lists = ch.chance(1, 12);
	generate(m, arch(), go);
	place_threads(m);
	finish(m);
	sched_configure(false);
	E.allow_eof_fault = false;
	if (ch.chance(1, 3))
		read_pattern();
	ReadMode mode = E.read_mode;
	Rng rng = E.read_rng;
	if (mode == READ_CHOSEN)
		E.read_mode = mode = READ_FULL;
	Outcome ref = detect();
	if (!ended(ref, "reference"))
		return;
	if (!ref.ret) {
		R->violation("refused", "initialize failed on a healthy machine");
		return;
	}
	std::set<str> asked = E.asked_calls;
	if (go.long_lists && ch.chance(2, 3))
		fault_plan(ref, {"read"}, 1, true);
	else
		fault_plan(ref, {"open", "read", "getauxval", "hwprobe", "prctl", "property", "dlopen", "dlsym", "alloc"}, 3);
	E.read_rng = rng;
	Outcome o = detect();
	if (!ended(o, "with faults"))
		return;
	std::set<str> files = E.faulted_paths, calls = E.faulted_calls;
	u32 allocs = E.alloc_faults;
	/* a per-CPU query or file whose buffer could not be allocated counts as failed */
	if (allocs) {
		for (auto& k : asked)
			if (!E.asked_calls.count(k))
				calls.insert(k);
		for (auto& f : ref.opened)
			if (!o.opened.count(f.first) || o.opened[f.first] < f.second)
				files.insert(f.first);
	}
	if (files.empty() && calls.empty() && !allocs)
		return;
	R->nontrivial = true;
	R->probe(o.ret ? "faulted_init_succeeded" : "faulted_init_failed");
	if (!o.ret)
		return;
	/* is the description one a machine without (some of) these sources would give? */
	E.fault_at.clear();
	std::vector<str> src(files.begin(), files.end());
	size_t nf = src.size();
	src.insert(src.end(), calls.begin(), calls.end());
	if (src.size() > 8) {
		/* persistent failure: everything of a kind; only the all-absent and per-file alternatives are compared */
		R->probe("many_sources");
	}
	str got = o.d.text();
	std::vector<u64> masks;
	u64 all = src.size() >= 63 ? ~0ull : ((1ull << src.size()) - 1);
	masks.push_back(all);
	masks.push_back(0);
	if (src.size() <= 5) {
		for (u64 s = 1; s < all; s++)
			masks.push_back(s);
	}
	if (src.size() > 62)
		return;
	bool found = false;
	for (u64 s : masks) {
		E.absent.clear();
		E.dead_calls.clear();
		for (size_t i = 0; i < src.size(); i++)
			if (s >> i & 1) {
				if (i < nf)
					E.absent.insert(src[i]);
				else
					E.dead_calls.insert(src[i]);
			}
		E.read_rng = rng;
		Outcome a = detect();
		if (!ended(a, "sources absent"))
			return;
		if (a.ret && a.d.text() == got) {
			found = true;
			break;
		}
	}
	if (!found && src.size() <= 5) {
		str w;
		for (auto& s : src)
			w += " " + s;
		str e = diff(ref.d, o.d);
		R->violation("partial", "failure of%s%s made the description neither the complete one nor one without the source: %s", w.c_str(), allocs ? " (and an allocation)" : "", e.c_str());
	}
}

/* ---- C15 ---- */
static void c15() {
	Choices& ch = R->ch;
	Machine m0;
	E.world = &m0;
	GenOpts go = small_machine();
	generate(m0, arch(), go);
	place_threads(m0);
	finish(m0);
	noise();
	sched_configure(false);
	if (ch.chance(1, 3)) {
		read_pattern();
		if (E.read_mode == READ_CHOSEN)
			E.read_mode = READ_FULL;
	}
	Outcome ref = detect(false);
	if (!ended(ref, "reference"))
		return;
	Machine m = m0;
	E.world = &m;
	m.begin_history();
	u32 n = 1 + ch.weighted({4, 3, 2, 1});
	for (u32 i = 0; i < n; i++) {
		u64 at = ch.choose((u32)ref.ops + 1);
		u32 act = ch.weighted({4, 3, 2, 2});
		u32 cpu = ch.choose((u32)m.cpus.size());
		E.event_at.insert({at, hotplug_event(act, cpu)});
	}
	Outcome o = detect();
	E.event_at.clear();
	if (!ended(o, "hotplug"))
		return;
	if (!m.hotplug_happened)
		return;
	R->nontrivial = true;
	R->probe(o.ret ? "hotplug_init_true" : "hotplug_init_false");
	if (!o.ret)
		return;
	if (R->trace)
		R->log.push_back("[description]\n" + o.d.text());
	str e = check_consistent(o.d);
	if (!e.empty()) {
		R->violation("inconsistent", "%s", e.c_str());
		return;
	}
	std::map<u32, size_t> idx;
	for (size_t i = 0; i < o.d.procs.size(); i++) {
		u32 id = (u32)o.d.procs[i].linux_id;
		const Cpu* c = m.by_id(id);
		if (!c || !c->was_present) {
			R->violation("invented", "processor %u is reported but was never present", id);
			return;
		}
		idx[id] = i;
	}
	std::vector<const Cpu*> st;
	for (auto& c : m.cpus)
		if (c.stayed_online) {
			if (!idx.count(c.id)) {
				R->violation("missing", "processor %u stayed online throughout but is not reported", c.id);
				return;
			}
			st.push_back(&c);
		}
	for (size_t i = 0; i < st.size(); i++)
		for (size_t j = i + 1; j < st.size(); j++) {
			const DProc &a = o.d.procs[idx[st[i]->id]], &b = o.d.procs[idx[st[j]->id]];
			if ((a.core == b.core) != (st[i]->core == st[j]->core)) {
				R->violation("core-grouping", "processors %u and %u stayed online but their core grouping is wrong", st[i]->id, st[j]->id);
				return;
			}
			if ((a.cluster == b.cluster) != (st[i]->cluster == st[j]->cluster)) {
				R->violation("cluster-grouping", "processors %u and %u stayed online but their cluster grouping is wrong", st[i]->id, st[j]->id);
				return;
			}
		}
}

/* ---- C17 ---- */
static u64 biggest_number(const str& s) {
	u64 best = 0, v = 0;
	bool in = false;
	for (char c : s) {
		if (is_num(c)) {
			v = in ? std::min<u64>(v * 10 + (u64)(c - '0'), 1ull << 40) : (u64)(c - '0');
			in = true;
			best = std::max(best, v);
		} else
			in = false;
	}
	return best;
}

static void c17() {
	Choices& ch = R->ch;
	Machine m;
	E.world = &m;
	GenOpts go = small_machine();
	go.large = true;
	go.truth = false;
	generate(m, arch(), go);
	place_threads(m);
	finish(m);
	noise();
	sched_configure(false);
	E.alloc_limit = 32u << 20;
	if (ch.chance(2, 3)) {
		damage_files(m);
		show_files();
	}
	read_pattern();
	/* the kernel's CPU count as far as any file claims it, capped by what fits in memory */
	u64 n = m.kernel_max + 1ull;
	n = std::max<u64>(n, m.cpus.back().id + 1ull);
	n = std::max<u64>(n, 1024); /* assumed by the library where kernel_max gives none */
	static const str sys = "/sys/devices/system/cpu/";
	for (auto& f : {sys + "kernel_max", sys + "possible", sys + "present", str("/proc/cpuinfo")}) {
		str c;
		for (auto* mp : {&E.content, &E.content_later})
			if (mp->count(f) && f != "/proc/cpuinfo") {
				u64 b = biggest_number((*mp)[f]);
				if (b < (1u << 18))
					n = std::max(n, b + 1);
			}
	}
	auto bounded = [&](const char* what, u64 blocks0, u64 sort0) {
		(void)sort0;
		u64 opens = 64 + 16 * n;
		u64 blocks = R->blocks - blocks0;
		u64 lim_blocks = 3000000 + 3000 * n + 60 * (u64)m.cpus.size() * m.cpus.size() + 400 * E.bytes_read + 6000 * E.reads;
		if (E.opens > opens)
			R->violation("ops", "%s: %llu files opened, bound %llu", what, (unsigned long long)E.opens, (unsigned long long)opens);
		u64 reads = 4 * E.opens + 2 * E.bytes_read + 64;
		if (E.reads > reads)
			R->violation("ops", "%s: %llu reads for %llu bytes in %llu files", what, (unsigned long long)E.reads, (unsigned long long)E.bytes_read, (unsigned long long)E.opens);
		u64 others = 4096 + 64 * n;
		if (E.other_ops + E.clock_ops + E.cpuid_ops + E.getcpu_ops > others)
			R->violation("ops", "%s: %llu system queries, bound %llu", what, (unsigned long long)(E.other_ops + E.clock_ops + E.cpuid_ops + E.getcpu_ops), (unsigned long long)others);
		if (E.alloc_ops > 256 + 16 * n + 2 * E.opens)
			R->violation("ops", "%s: %llu allocator calls", what, (unsigned long long)E.alloc_ops);
		if (blocks > lim_blocks)
			R->violation("ops", "%s: %llu basic blocks executed, bound %llu", what, (unsigned long long)blocks, (unsigned long long)lim_blocks);
	};
	u64 b0 = R->blocks;
	E.watch = [&] { bounded("still running", b0, 0); };
	Outcome o = detect(false);
	if (!ended(o, "damaged files"))
		return;
	bounded("without faults", b0, 0);
	R->nontrivial = true;
	if (R->fail.set || !ch.chance(2, 3))
		return;
	fault_plan(o, {}, 4);
	for (auto& f : E.fault_at)
		if (ch.chance(1, 2)) {
			/* whatever the error is, it may stay */
			f.second.variant = 1 + ch.choose(9);
			f.second.persistent = true;
		} else
			f.second.persistent = false;
	b0 = R->blocks;
	o = detect(false);
	if (!ended(o, "damaged files and faults"))
		return;
	bounded("with faults", b0, 0);
}

void c16(); /* logging.cpp */
void c22(); /* otheros.cpp */
void c26(); /* tools.cpp */
void c31(); /* mock.cpp */
void c23();

const std::vector<Scenario> scenarios = {
	{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09},
	{"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16}, {"C17", c17}, {"C22", c22}, {"C23", c23}, {"C24", c22}, {"C25", c23}, {"C26", c26}, {"C27", c27}, {"C28", c28}, {"C29", c29}, {"C30", c30}, {"C31", c31},
};
