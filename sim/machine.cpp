#include "machine.h"
#include "observe.h"

#include <algorithm>
#include <cstdlib>

static u32 ceil_log2(u32 n) {
	u32 b = 0;
	while ((1u << b) < n)
		b++;
	return b;
}

const Cpu* Machine::by_id(u32 id) const {
	size_t lo = 0, hi = cpus.size();
	while (lo < hi) {
		size_t m = (lo + hi) / 2;
		if (cpus[m].id < id)
			lo = m + 1;
		else
			hi = m;
	}
	return lo < cpus.size() && cpus[lo].id == id ? &cpus[lo] : nullptr;
}

str cpulist_text(const std::vector<u32>& ids) {
	str s;
	for (size_t i = 0; i < ids.size();) {
		size_t j = i;
		while (j + 1 < ids.size() && ids[j + 1] == ids[j] + 1)
			j++;
		if (!s.empty())
			s += ',';
		if (i == j)
			s += sfmt("%u", ids[i]);
		else
			s += sfmt("%u-%u", ids[i], ids[j]);
		i = j + 1;
	}
	return s + "\n";
}

str Machine::list(bool (*pred)(const Cpu&)) const {
	std::vector<u32> ids;
	for (auto& c : cpus)
		if (pred(c))
			ids.push_back(c.id);
	return cpulist_text(ids);
}

std::vector<u32> Machine::online_ids() const {
	std::vector<u32> ids;
	for (auto& c : cpus)
		if (c.online)
			ids.push_back(c.id);
	return ids;
}

static bool is_possible(const Cpu& c) { return c.possible; }
static bool is_present(const Cpu& c) { return c.present; }
static bool is_online(const Cpu& c) { return c.online; }

static const str SYS = "/sys/devices/system/cpu/";

int Machine::cpu_of_path(const str& path) const {
	if (path.compare(0, SYS.size() + 3, SYS + "cpu") != 0)
		return -1;
	const char* p = path.c_str() + SYS.size() + 3;
	if (*p < '0' || *p > '9')
		return -1;
	return atoi(p);
}

bool Machine::file(const str& path, str* out) {
	if (path == "/proc/cpuinfo") {
		*out = whole_cpuinfo();
		return true;
	}
	if (path == "/proc/self/auxv") {
		/* pairs of machine words; 0 ends the list */
		static const u32 types[] = {33, 16, 6, 17, 3, 4, 5, 26, 25, 0};
		out->clear();
		for (u32 t : types) {
			u64 w[2] = {t, t == 6 ? 4096 : t == 33 ? 0xffff0000u : auxv(t)};
			for (u64 x : w)
				out->append((const char*)&x, arch == ARCH_ARM32 ? 4 : 8);
		}
		return true;
	}
	if (path.compare(0, SYS.size(), SYS) != 0)
		return false;
	str rest = path.substr(SYS.size());
	if (rest == "kernel_max") {
		*out = sfmt("%u\n", kernel_max);
		return true;
	}
	if (rest == "possible") {
		*out = list(is_possible);
		return has_possible;
	}
	if (rest == "present") {
		*out = list(is_present);
		return true;
	}
	if (rest == "online") {
		*out = list(is_online);
		return true;
	}
	if (rest.compare(0, 3, "cpu") != 0)
		return false;
	char* end;
	u32 id = (u32)strtoul(rest.c_str() + 3, &end, 10);
	const Cpu* c = by_id(id);
	if (!c || !c->present || *end != '/')
		return false;
	str leaf = end + 1;
	if (leaf == "online") {
		*out = c->online ? "1\n" : "0\n";
		return true;
	}
	if (leaf.compare(0, 9, "topology/") == 0) {
		if (!c->online && !offline_topology)
			return false;
		leaf = leaf.substr(9);
		if (leaf == "physical_package_id") {
			*out = sfmt("%u\n", (arch == ARCH_ARM64 || arch == ARCH_ARM32) && !cluster_files ? c->cluster : c->pkg);
			return true;
		}
		if (leaf == "core_id") {
			*out = sfmt("%u\n", c->core);
			return true;
		}
		if (leaf == "cluster_id") {
			*out = sfmt("%u\n", c->cluster);
			return true;
		}
		std::vector<u32> ids;
		bool old_arm = (arch == ARCH_ARM64 || arch == ARCH_ARM32) && !cluster_files;
		for (auto& o : cpus) {
			if (!o.online && !(offline_topology && o.present))
				continue;
			bool in;
			if (leaf == "core_cpus_list" || leaf == "thread_siblings_list")
				in = o.core == c->core;
			else if (leaf == "cluster_cpus_list") {
				if (old_arm)
					return false;
				in = o.cluster == c->cluster;
			} else if (leaf == "core_siblings_list" || leaf == "package_cpus_list")
				in = old_arm ? o.cluster == c->cluster : o.pkg == c->pkg;
			else
				return false;
			if (in)
				ids.push_back(o.id);
		}
		*out = cpulist_text(ids);
		return true;
	}
	if (leaf.compare(0, 8, "cpufreq/") == 0) {
		if (!have_freq || types.empty() || !(c->online || (offline_freq && c->present)))
			return false;
		leaf = leaf.substr(8);
		const CoreType& t = types[c->type];
		if (leaf == "cpuinfo_max_freq")
			*out = sfmt("%u\n", t.freq_khz);
		else if (leaf == "cpuinfo_min_freq")
			*out = sfmt("%u\n", t.min_khz);
		else if (leaf == "cpuinfo_cur_freq" || leaf == "scaling_cur_freq")
			*out = sfmt("%u\n", t.min_khz);
		else
			return false;
		return true;
	}
	return false;
}

std::vector<str> Machine::paths() const {
	std::vector<str> v = {"/proc/cpuinfo", SYS + "kernel_max", SYS + "possible", SYS + "present"};
	static const char* const leaves[] = {
		"topology/physical_package_id", "topology/core_siblings_list", "topology/cluster_cpus_list",
		"topology/core_cpus_list", "topology/package_cpus_list", "topology/thread_siblings_list",
		"topology/core_id", "cpufreq/cpuinfo_max_freq", "cpufreq/cpuinfo_min_freq"};
	for (auto& c : cpus)
		for (auto l : leaves)
			v.push_back(SYS + sfmt("cpu%u/", c.id) + l);
	return v;
}

str Machine::whole_cpuinfo() {
	str s;
	for (u32 i = 0; i < cpuinfo_records(); i++)
		s += cpuinfo_record(i);
	return s;
}

static str filler(u32 n, const char* word) {
	str s;
	while (s.size() + strlen(word) + 1 < n)
		s += (s.empty() ? "" : " ") + str(word);
	return s;
}

str Machine::cpuinfo_record(u32 i) {
	if (i >= cpus.size()) {
		str f;
		if (old_style) {
			const CoreType& t = types[0];
			auto own = feature_lines.find(~0u);
			f += own != feature_lines.end() ? own->second : sfmt("Features\t: %s\n", arch == ARCH_ARM64 ? "fp asimd aes pmull sha1 sha2 crc32" : "swp half thumb fastmult vfp edsp neon vfpv3 tls vfpv4");
			f += sfmt("CPU implementer\t: 0x%02x\nCPU architecture: %s\nCPU variant\t: 0x%x\nCPU part\t: 0x%03x\nCPU revision\t: %u\n\n",
				t.midr >> 24, arch == ARCH_ARM64 ? "8" : arm_architecture, t.midr >> 20 & 15, t.midr >> 4 & 0xfff, t.midr & 15);
		}
		if (has_footer) {
			if (!hardware.empty())
				f += "Hardware\t: " + hardware + "\n";
			if (!revision.empty())
				f += "Revision\t: " + revision + "\n";
			if (!serial.empty())
				f += "Serial\t\t: " + serial + "\n";
		}
		return f;
	}
	const Cpu& c = cpus[i];
	if (!c.online)
		return "";
	if (arch == ARCH_X86) {
		str s = sfmt("processor\t: %u\n", c.id);
		s += sfmt("vendor_id\t: %s\ncpu family\t: 6\nmodel\t\t: 94\nmodel name\t: %s\nstepping\t: 3\nmicrocode\t: 0xf0\ncpu MHz\t\t: 2400.000\ncache size\t: 8192 KB\n",
			amd ? "AuthenticAMD" : "GenuineIntel", brand.c_str());
		if (!no_apicid)
			s += sfmt("physical id\t: %u\nsiblings\t: 4\ncore id\t\t: %u\ncpu cores\t: 4\napicid\t\t: %u\ninitial apicid\t: %u\n",
				c.pkg, c.core, c.apic, c.apic);
		s += "fpu\t\t: yes\nfpu_exception\t: yes\ncpuid level\t: 22\nwp\t\t: yes\nflags\t\t: " + filler(flags_len, "avx512_vnni") +
			"\nbugs\t\t: cpu_meltdown spectre_v1\nbogomips\t: 4800.00\nclflush size\t: 64\ncache_alignment\t: 64\naddress sizes\t: 46 bits physical, 48 bits virtual\npower management:\n\n";
		return s;
	}
	if (arch == ARCH_RISCV)
		return sfmt("processor\t: %u\nhart\t\t: %u\nisa\t\t: rv64imafdc\nmmu\t\t: sv39\n\n", c.id, c.id);
	if (old_style)
		return sfmt("processor\t: %u\nBogoMIPS\t: 38.40\n\n", c.id);
	const CoreType& t = types[c.type];
	str s = sfmt("processor\t: %u\nBogoMIPS\t: 38.40\n", c.id);
	str feat = arch == ARCH_ARM64 ? "fp asimd evtstrm aes pmull sha1 sha2 crc32 atomics fphp asimdhp cpuid asimdrdm lrcpc dcpop asimddp"
				      : "half thumb fastmult vfp edsp neon vfpv3 tls vfpv4 idiva idivt vfpd32 lpae evtstrm";
	if (features_len > feat.size())
		feat += " " + filler(features_len - (u32)feat.size(), "svebf16");
	auto said = feature_lines.find(c.id);
	s += said != feature_lines.end() ? said->second : "Features\t: " + feat + "\n";
	s += sfmt("CPU implementer\t: 0x%02x\nCPU architecture: %s\nCPU variant\t: 0x%x\nCPU part\t: 0x%03x\nCPU revision\t: %u\n",
		t.midr >> 24, arch == ARCH_ARM64 ? "8" : arm_architecture, t.midr >> 20 & 15, t.midr >> 4 & 0xfff, t.midr & 15);
	auto own = cache_lines.find(c.id);
	if (own != cache_lines.end())
		s += own->second;
	else if (arm32_cache_lines)
		s += "Cache type\t: write-back\nCache clean\t: read-block\nCache lockdown\t: not supported\nCache format\t: Harvard\n"
		     "I size\t\t: 32768\nI assoc\t\t: 4\nI line length\t: 32\nI sets\t\t: 256\n"
		     "D size\t\t: 16384\nD assoc\t\t: 4\nD line length\t: 32\nD sets\t\t: 128\n";
	return s + "\n";
}

void Machine::cpuid(u32 cpu, u32 leaf, u32 sub, u32 o[4]) {
	o[0] = o[1] = o[2] = o[3] = 0;
	const Cpu* c = by_id(cpu);
	u32 apic = c ? c->apic : 0;
	u32 max_base = leaf_b ? (amd ? 0x10u : 0x16u) : amd ? 0xDu : 0xAu;
	u32 max_ext = amd ? 0x8000001Eu : 0x80000008u;
	if (leaf < 0x80000000u ? leaf > max_base : leaf > max_ext)
		return;
	auto put = [&](u32 r, const char* s) { memcpy(&o[r], s, 4); };
	switch (leaf) {
		case 0:
			o[0] = max_base;
			put(1, amd ? "Auth" : "Genu");
			put(3, amd ? "enti" : "ineI");
			put(2, amd ? "cAMD" : "ntel");
			break;
		case 1:
			o[0] = signature;
			o[1] = (apic & 0xff) << 24 | (leaf1_logical & 0xff) << 16 | 8 << 8;
			o[2] = 0x7ed8320bu & ~0x00200000u; /* sse4, avx, osxsave, ... */
			if (leaf_b)
				o[2] |= 0x00200000u; /* x2apic */
			o[3] = 0xbfebfbffu & ~0x10000000u;
			if (htt)
				o[3] |= 0x10000000u;
			break;
		case 2:
			if (!amd)
				o[0] = 0x00feff01u; /* consult leaf 4 */
			break;
		case 4:
			if (amd)
				break;
			{
				static const int order[] = {1, 0, 2, 3, 4};
				u32 n = 0;
				for (int k : order) {
					if (!cache[k].exists)
						continue;
					if (n++ != sub)
						continue;
					const CacheSpec& s = cache[k];
					o[0] = s.type | s.level << 5 | 1 << 8 | s.share_field << 14 | leaf4_cores_field << 26;
					o[1] = (s.line - 1) | (s.partitions - 1) << 12 | (s.ways - 1) << 22;
					o[2] = s.sets - 1;
					o[3] = (s.inclusive ? 2u : 0) | (s.complex_indexing ? 4u : 0);
				}
			}
			break;
		case 7:
			if (sub == 0)
				o[1] = 0x029c6fbbu;
			break;
		case 0xB:
			if (!leaf_b)
				break;
			o[2] = sub & 0xff;
			o[3] = apic;
			if (sub == 0) {
				o[0] = smt_bits;
				o[1] = 1u << smt_bits;
				o[2] |= 1 << 8;
			} else if (sub == 1) {
				o[0] = smt_bits + core_bits;
				o[1] = 1u << (smt_bits + core_bits);
				o[2] |= 2 << 8;
			}
			break;
		case 0xD:
			if (sub == 0)
				o[0] = 7, o[1] = 0x340, o[2] = 0x340;
			break;
		case 0x80000000u:
			o[0] = max_ext;
			break;
		case 0x80000001u:
			o[2] = 0x21u;
			if (amd && cmp_legacy)
				o[2] |= 2;
			if (amd && topoext)
				o[2] |= 0x00400000u;
			o[3] = 0x2c100800u;
			break;
		case 0x80000002u:
		case 0x80000003u:
		case 0x80000004u: {
			char b[48];
			memset(b, 0, sizeof b);
			strncpy(b, brand.c_str(), 47);
			memcpy(o, b + (leaf - 0x80000002u) * 16, 16);
			break;
		}
		case 0x80000008u:
			o[0] = 0x3030;
			if (amd)
				o[2] = (nc_field & 0xff) | (smt_bits + core_bits) << 12;
			break;
		case 0x8000001Du:
			if (amd && topoext) {
				static const int order[] = {1, 0, 2, 3};
				u32 n = 0;
				for (int k : order) {
					if (!cache[k].exists)
						continue;
					if (n++ != sub)
						continue;
					const CacheSpec& s = cache[k];
					o[0] = s.type | s.level << 5 | 1 << 8 | s.share_field << 14;
					o[1] = (s.line - 1) | (s.partitions - 1) << 12 | (s.ways - 1) << 22;
					o[2] = s.sets - 1;
					o[3] = s.inclusive ? 2u : 0;
				}
			}
			break;
		case 0x8000001Eu:
			o[0] = apic;
			break;
	}
}

u64 Machine::auxv(u64 t) {
	if (t == 16)
		return hwcap;
	if (t == 26)
		return hwcap2;
	return 0;
}

bool Machine::property(const str& name, str* value) {
	auto it = props.find(name);
	if (it == props.end())
		return false;
	*value = it->second;
	return true;
}

bool Machine::hwprobe(u32 cpu, long long key, u64* v) {
	if (arch != ARCH_RISCV || !hwprobe_ok)
		return false;
	const Cpu* c = by_id(cpu);
	if (!c)
		return false;
	const CoreType& t = types[c->type];
	switch (key) {
		case 0: *v = t.mvendorid; return true;
		case 1: *v = t.marchid; return true;
		case 2: *v = t.mimpid; return true;
		case 3: *v = 1; return true;
		case 4: *v = 3; return true;
		case 5: *v = 3; return true;
	}
	return false;
}

void Machine::begin_history() {
	hotplug_happened = false;
	for (auto& c : cpus) {
		c.was_present = c.present;
		c.was_online = c.online;
		c.stayed_online = c.online;
		c.stayed_put = true;
	}
}

void Machine::event(u32 n) {
	u32 action = n >> 16, k = n & 0xffff;
	if (k >= cpus.size())
		return;
	Cpu& c = cpus[k];
	Cpu before = c;
	switch (action) {
		case HP_OFFLINE:
			c.online = false;
			break;
		case HP_ONLINE:
			if (c.present)
				c.online = true;
			break;
		case HP_REMOVE:
			c.online = c.present = false;
			break;
		case HP_ADD:
			if (c.possible)
				c.present = c.online = true;
			break;
	}
	if (online_ids().empty()) {
		c = before; /* the last CPU cannot go away */
		return;
	}
	if (before.online == c.online && before.present == c.present)
		return;
	hotplug_happened = true;
	c.was_present |= c.present;
	c.was_online |= c.online;
	c.stayed_online = false;
	c.stayed_put = false;
	static const char* const names[] = {"offline", "online", "remove", "add"};
	if (R) {
		R->fault(str("hotplug:") + names[action & 3]);
		R->ev("hotplug: cpu %u %s", c.id, names[action & 3]);
	}
}

str Machine::describe() const {
	u32 np = 0, no = 0, pk = 0, cl = 0, co = 0;
	std::set<u32> sp, sc, so;
	for (auto& c : cpus) {
		np += c.present;
		no += c.online;
		sp.insert(c.pkg);
		sc.insert(c.cluster);
		so.insert(c.core);
	}
	pk = (u32)sp.size();
	cl = (u32)sc.size();
	co = (u32)so.size();
	static const char* const an[] = {"", "x86", "arm64", "arm32", "riscv"};
	return sfmt("%s %s: %zu possible %u present %u online cpus, max id %u, %u packages %u clusters %u cores, kernel_max %u",
		an[arch], arch == ARCH_X86 ? (amd ? "amd" : "intel") : "", cpus.size(), np, no, cpus.empty() ? 0 : cpus.back().id, pk, cl, co, kernel_max);
}

u64 Machine::shape() const {
	u64 h = fnv(&arch, sizeof arch);
	auto m = [&](u64 v) { h = (h ^ v) * 1099511628211ull; };
	m(amd), m(leaf_b), m(cmp_legacy), m(smt_bits), m(core_bits), m(old_style), m(cluster_files), m(have_freq), m(offline_freq);
	for (auto& c : cpus) {
		m(c.id), m(c.online), m(c.present), m(c.pkg), m(c.cluster), m(c.core), m(c.apic);
		if (!types.empty())
			m(types[c.type].midr);
	}
	for (auto& k : cache)
		m(k.exists ? k.share_bits + 1 : 0);
	return h;
}

/* ---- generation ---- */

/* Assign Linux numbers, offline state and the possible set. */
static void number(Machine& m, const GenOpts& o, u32 interleave_keys) {
	Choices& ch = R->ch;
	std::vector<u32> order(m.cpus.size());
	for (u32 i = 0; i < order.size(); i++)
		order[i] = i;
	auto& c = m.cpus;
	switch (o.long_lists ? 3 : o.phone ? ch.weighted({8, 0, 1, 1}) : ch.weighted({5, 3, 3, 3})) {
		case 1: /* first threads of all cores, then second threads */
			std::stable_sort(order.begin(), order.end(), [&](u32 a, u32 b) { return c[a].smt < c[b].smt; });
			break;
		case 2: /* packages or clusters interleaved */
			std::stable_sort(order.begin(), order.end(), [&](u32 a, u32 b) {
				return (c[a].core % interleave_keys) < (c[b].core % interleave_keys);
			});
			break;
		case 3: { /* any permutation */
			u32 seed = ch.choose(1 << 16);
			Rng r(seed + 1);
			for (size_t i = order.size(); i > 1; i--)
				std::swap(order[i - 1], order[r.below((u32)i)]);
			break;
		}
	}
	u32 gap_mode = o.long_lists ? 1 + 2 * ch.choose(2) : o.sparse ? ch.weighted({6, 1, 1, 1}) : 0;
	u32 gap_seed = gap_mode == 3 ? ch.choose(1 << 16) : 0;
	Rng gr(gap_seed + 7);
	std::vector<Cpu> out;
	u32 id = gap_mode ? ch.skewed(8) : 0;
	for (u32 k = 0; k < order.size(); k++) {
		Cpu cpu = c[order[k]];
		cpu.id = id;
		out.push_back(cpu);
		id += 1;
		if (gap_mode == 1)
			id += 1; /* every other number */
		else if (gap_mode == 2 && k + 1 == order.size() / 2)
			id += 1 + ch.skewed(100);
		else if (gap_mode == 3)
			id += gr.below(3);
	}
	/* possible but absent processors */
	u32 extra = ch.weighted({4, 1, 1}) ? ch.skewed(20) : 0;
	m.cpus = out;
	u32 real = (u32)m.cpus.size();
	u32 next_core = 0, next_cluster = 0, next_pkg = 0;
	for (auto& x : m.cpus) {
		next_core = std::max(next_core, x.core + 1);
		next_cluster = std::max(next_cluster, x.cluster + 1);
		next_pkg = std::max(next_pkg, x.pkg + 1);
	}
	for (u32 k = 0; k < extra; k++) {
		Cpu cpu;
		cpu.id = id++;
		cpu.present = cpu.online = false;
		cpu.core = next_core + k;
		cpu.cluster = next_cluster + k;
		cpu.pkg = next_pkg + k;
		cpu.apic = 0;
		m.cpus.push_back(cpu);
	}
	if (o.offline && ch.chance(1, 3)) {
		u32 n = 1 + ch.skewed(real);
		for (u32 k = 0; k < n; k++) {
			u32 w = ch.choose(real);
			m.cpus[w].online = false;
		}
		if (m.online_ids().empty())
			m.cpus[0].online = true;
	}
	u32 last = m.cpus.back().id;
	switch (ch.weighted({3, 3, 2, 1})) {
		case 0: m.kernel_max = std::max(last, 63u); break;
		case 1: m.kernel_max = last; break;
		case 2: m.kernel_max = std::max(last, 8191u); break;
		case 3: m.kernel_max = last + 1 + ch.choose(300); break;
	}
}

static u32 pick_share(Choices& ch, u32 bits) {
	/* any field value that denotes 2^bits identifiers */
	if (bits == 0)
		return 0;
	u32 lo = 1u << (bits - 1), hi = (1u << bits) - 1;
	return ch.chance(1, 3) ? lo + ch.choose(hi - lo + 1) : hi;
}

static void gen_x86(Machine& m, const GenOpts& o) {
	Choices& ch = R->ch;
	m.amd = ch.chance(2, 5);
	bool big = o.long_lists || (o.large && ch.chance(1, 40));
	u32 max_cpus = o.long_lists ? 110 : big ? 700 : o.max_cpus;
	static const u32 pk[] = {1, 2, 4, 3, 8};
	u32 pkgs = pk[ch.weighted({10, 6, 2, 1, 1})];
	u32 mode = m.amd ? ch.weighted({4, 2}) : ch.weighted({4, 2});
	m.leaf_b = mode == 0;
	u32 smt = 1;
	if (!(m.amd && !m.leaf_b)) {
		static const u32 st[] = {1, 2, 4};
		smt = st[ch.weighted({4, 6, m.amd ? 0u : 1u})];
	}
	u32 limit = std::max(1u, max_cpus / (pkgs * smt));
	u32 cores = 1 + (big ? ch.choose(std::min(limit, 64u)) : ch.choose(std::min(limit, 12u)));
	m.smt_bits = ceil_log2(smt);
	m.core_bits = ceil_log2(cores);
	if (m.leaf_b) {
		if (ch.chance(1, 6))
			m.smt_bits += 1; /* threads disabled in firmware */
		if (ch.chance(1, 4))
			m.core_bits += 1 + ch.choose(2); /* cores fused off */
	} else if (!m.amd) {
		/* legacy enumeration: field widths */
		if (ch.chance(1, 6) && m.smt_bits + m.core_bits < 6)
			m.core_bits += 1;
		while (m.core_bits > 6)
			m.core_bits--, cores = 1u << m.core_bits;
		while (m.smt_bits + m.core_bits > 7 && m.core_bits)
			m.core_bits--, cores = std::min(cores, 1u << m.core_bits);
	}
	u32 pkg_bits = m.smt_bits + m.core_bits;
	/* APIC numbers of the cores of a package */
	u32 holes = m.core_bits && (cores < (1u << m.core_bits)) ? ch.choose(4) : 0;
	u32 pkg_base = ch.chance(1, 5) ? ch.choose(8) : 0;
	u32 pkg_stride = ch.chance(1, 5) ? 1 + ch.choose(3) : 1;
	if (m.leaf_b && ch.chance(1, 12))
		pkg_base = 0x7ffff0u >> std::min(pkg_bits, 20u); /* large x2APIC numbers */
	u32 core_no = 0;
	for (u32 p = 0; p < pkgs; p++) {
		std::vector<u32> ids;
		u32 space = 1u << m.core_bits;
		for (u32 k = 0; k < space; k++)
			ids.push_back(k);
		if (holes == 1)
			std::reverse(ids.begin(), ids.end());
		else if (holes >= 2) {
			Rng r(p * 31 + holes);
			for (size_t i = ids.size(); i > 1; i--)
				std::swap(ids[i - 1], ids[r.below((u32)i)]);
		}
		for (u32 k = 0; k < cores; k++, core_no++)
			for (u32 t = 0; t < smt; t++) {
				Cpu c;
				c.pkg = p;
				c.core = core_no;
				c.smt = t;
				c.apic = (pkg_base + p * pkg_stride) << pkg_bits | ids[k] << m.smt_bits | t;
				m.cpus.push_back(c);
			}
	}
	/* caches, nested: each level shared at least as widely as the one below */
	static const u32 ways[] = {8, 4, 12, 16, 6, 1};
	auto mk = [&](int k, u32 level, u32 type, u32 bits, u32 sets) {
		CacheSpec& s = m.cache[k];
		s.exists = true;
		s.level = level;
		s.type = type;
		s.ways = ways[ch.weighted({4, 2, 1, 1, 1, 1})];
		s.sets = ch.chance(1, 6) ? sets + ch.choose(sets) : sets;
		s.share_bits = std::min(bits, pkg_bits);
		s.share_field = pick_share(ch, s.share_bits);
		s.inclusive = ch.chance(1, 4);
		s.complex_indexing = !m.amd && ch.chance(1, 4);
	};
	bool module = m.amd && !m.leaf_b; /* two cores share L1I and L2 */
	u32 l1 = m.smt_bits;
	mk(0, 1, 2, module && m.core_bits ? l1 + 1 : l1, 64);
	mk(1, 1, 1, l1, 64);
	u32 l2 = m.cache[0].share_bits;
	if (ch.chance(1, 4))
		l2 += 1 + ch.choose(2);
	mk(2, 2, 3, l2, 1024);
	if (!ch.chance(1, 6)) {
		u32 lo = m.cache[2].share_bits, l3 = pkg_bits;
		if (pkg_bits > lo && ch.chance(1, 2))
			l3 = lo + ch.choose(pkg_bits - lo + 1);
		mk(3, 3, 3, l3, 4096);
		if (!m.amd && ch.chance(1, 10)) {
			mk(4, 4, 3, pkg_bits, 16384);
		}
	}
	int llc = m.cache[4].exists ? 4 : m.cache[3].exists ? 3 : 2;
	std::map<u64, u32> cl;
	for (auto& c : m.cpus) {
		u64 key = (u64)c.pkg << 32 | c.apic >> m.cache[llc].share_bits;
		if (!cl.count(key)) {
			u32 n = (u32)cl.size();
			cl[key] = n;
		}
		c.cluster = cl[key];
	}
	/* fields of the enumeration leaves */
	m.htt = pkg_bits > 0;
	m.cmp_legacy = m.amd && pkg_bits > 0;
	m.leaf1_logical = pkg_bits > 7 ? 0x80 : pick_share(ch, pkg_bits) + 1;
	m.nc_field = m.amd ? (m.leaf_b ? std::min(255u, cores * smt - 1) : cores - 1) : 0;
	if (m.amd && !m.leaf_b) {
		m.leaf1_logical = cores;
		/* no field width register is consulted: width follows from the count */
	}
	m.leaf4_cores_field = std::min(63u, pick_share(ch, std::min(m.core_bits, 6u)));
	static const u32 isig[] = {0x000506E3, 0x000306C3, 0x000606A6, 0x000206A7};
	static const u32 asig[] = {0x00830F10, 0x00800F11, 0x00A20F10};
	m.signature = m.amd ? (m.leaf_b ? asig[ch.choose(3)] : 0x00600F20) : isig[ch.choose(4)];
	static const struct { const char* brand; const char* name; } ib[] = {
		{"Intel(R) Core(TM) i7-6700 CPU @ 3.40GHz", "Intel Core i7-6700"}, {"Intel(R) Xeon(R) CPU E5-2690 v4 @ 2.60GHz", "Intel Xeon E5-2690 v4"},
		{"      Intel(R) Xeon(R) Gold 6154 CPU @ 3.00GHz", "Intel Xeon Gold 6154"}, {"", ""},
		{"Genuine Intel(R) CPU             0000 @ 2.40GHz", ""}, {"       Intel(R) Xeon(R) CPU E7- 4870  @ 2.40GHz", "Intel Xeon E7-4870"},
		{"Intel(R) Core(TM)2 Extreme CPU X9650  @ 3.00GHz", "Intel Core 2 Extreme X9650"}, {"Intel(R) Core(TM) i7 CPU       Q 720  @ 1.60GHz", "Intel Core i7 720Q"},
	}, ab[] = {
		{"AMD Ryzen 7 1700X Eight-Core Processor         ", "AMD Ryzen 7 1700X"}, {"AMD Ryzen Threadripper 1950X 16-Core Processor ", "AMD Ryzen Threadripper 1950X"},
		{"Quad-Core AMD Opteron(tm) Processor 2347 HE", "AMD Opteron 2347 HE"}, {"AMD Opteron(TM) Processor 6274                 ", "AMD Opteron 6274"},
	};
	auto& b = m.amd ? ab[ch.choose(4)] : ib[ch.choose(8)];
	m.brand = b.brand;
	m.package_name = b.name;
	m.flags_len = ch.chance(1, 4) ? 100 + ch.choose(ch.chance(1, 3) ? 4000 : 1750) : 600;
	if (big)
		m.flags_len = std::min(m.flags_len, 300u);
	if (m.cpus.size() == 1 && pkg_bits == 0 && pkg_base == 0 && ch.chance(1, 3))
		m.no_apicid = true; /* uniprocessor kernel */
	number(m, o, std::max(1u, cores));
}

struct ArmPart { u32 part; u32 score; };

const std::vector<KnownSoc> known_socs = {
	{"Qualcomm Technologies, Inc MSM8976", {4, 4}, {0x410FD034, 0x410FD080}},
	{"Qualcomm Technologies, Inc MSM8992", {4, 2}, {0x410FD033, 0x411FD072}},
	{"Qualcomm Technologies, Inc MSM8994", {4, 4}, {0x410FD032, 0x411FD071}},
	{"SAMSUNG Exynos7420", {4, 4}, {0x410FD032, 0x411FD070}},
	{"MT6797", {4, 4, 2}, {0x410FD034, 0x410FD034, 0x410FD081}},
	{"MT8173", {2, 2}, {0x410FD032, 0x410FD080}},
};

/* Few cores in one to four clusters, of types that are sold together or of any */
static void gen_phone(Machine& m, const GenOpts& o) {
	Choices& ch = R->ch;
	static const u32 shapes[][4] = {{4, 4}, {4, 2}, {4, 4, 2}, {8}, {6}, {4}, {2, 4}, {4, 1}, {1, 3, 4}, {4, 3, 1}, {4, 1, 3}, {1, 4}, {1, 5}, {2, 2, 4}, {4, 2, 2},
		{6, 2}, {2, 6}, {4, 6}, {1, 3, 2}, {1, 3, 4, 2}, {4, 4, 1, 1}, {2, 2}, {3, 3}, {5}, {10}, {3, 5}, {1, 1, 1}, {2, 1, 3}};
	static const u32 pairs[][2] = {{0x410FD083, 0x410FD034}, {0x411FD072, 0x410FD033}, {0x410FD091, 0x410FD034}, {0x412FD0A1, 0x411FD050}, {0x410FC0F3, 0x410FC073},
		{0x410FC0E1, 0x410FC075}, {0x531F0011, 0x410FD034}, {0x51AF8001, 0x51AF8014}, {0x511F2052, 0x511F2112}, {0x4E0F0030, 0x411FD073}, {0x413FD0B0, 0x412FD050},
		{0x410FD034, 0x410FD034}, {0x410FC075, 0x410FC075}, {0x411FD440, 0x414FD0B0}, {0x412FD480, 0x411FD460}, {0x411FD470, 0x411FD460}, {0x518F802D, 0x518F803C}};
	u32 s = ch.choose(sizeof shapes / sizeof *shapes), p = ch.choose(sizeof pairs / sizeof *pairs);
	bool odd = ch.chance(1, 4), little_first = ch.chance(3, 4), same_freq = ch.chance(1, 4);
	u32 core = 0, n = 0;
	const u32* size = shapes[s];
	while (n < 4 && size[n])
		n++;
	if (ch.chance(1, 4)) {
		m.soc = &known_socs[ch.choose((u32)known_socs.size())];
		m.has_footer = true;
		m.hardware = m.soc->hardware;
		if (!ch.chance(1, 5)) {
			size = m.soc->cores.data();
			n = (u32)m.soc->cores.size();
		}
	}
	for (u32 k = 0; k < n; k++) {
		bool big = little_first ? k > 0 : k == 0;
		CoreType t;
		t.midr = odd ? pairs[ch.choose(sizeof pairs / sizeof *pairs)][ch.choose(2)] : pairs[p][big ? 0 : 1];
		if (m.arch == ARCH_ARM64 && (t.midr & 0xff00f000) == 0x4100c000)
			t.midr = big ? 0x410FD083 : 0x410FD034; /* these have no 64-bit mode */
		if (m.soc && k < m.soc->midr.size() && size == m.soc->cores.data())
			t.midr = m.soc->midr[k];
		if (ch.chance(1, 8))
			t.midr ^= 1u << (ch.chance(1, 2) ? 20 : 0);
		t.freq_khz = same_freq ? 2000000 : big ? 2000000 + 100000 * ch.choose(3) : 1400000 + 100000 * ch.choose(8);
		t.min_khz = same_freq || ch.chance(1, 2) ? 300000 : 300000 + 100000 * ch.choose(3);
		m.types.push_back(t);
		for (u32 i = 0; i < size[k]; i++, core++) {
			Cpu c;
			c.cluster = c.type = k;
			c.core = core;
			m.cpus.push_back(c);
		}
	}
	m.cluster_files = !ch.chance(2, 5);
	m.have_freq = !ch.chance(1, 4);
	m.old_style = ch.chance(1, 5);
	m.offline_topology = ch.chance(1, 6);
	m.offline_freq = ch.chance(1, 2);
	m.hwcap = m.arch == ARCH_ARM64 ? 0x119fffull : 0x3fb0d6ull;
	m.hwcap2 = m.arch == ARCH_ARM64 ? 0 : 0x1f;
	number(m, o, 3);
	/* whole clusters are switched off together more often than single cores */
	if (o.offline && ch.chance(2, 5)) {
		u32 off = ch.choose(n);
		for (auto& c : m.cpus)
			if (c.present)
				c.online = ch.chance(1, 16) || c.cluster != off;
		if (m.online_ids().empty())
			m.cpus[0].online = true;
	}
}

static void gen_arm(Machine& m, const GenOpts& o) {
	Choices& ch = R->ch;
	static const ArmPart parts64[] = {
		{0xD03, 2}, {0xD08, 5}, {0xD05, 2}, {0xD0B, 5}, {0xD44, 6}, {0xD0D, 5}, {0xD41, 5}, {0xD46, 2},
		{0xD47, 5}, {0xD48, 6}, {0xD07, 4}, {0xD09, 5}, {0xD0A, 5}, {0xD04, 1}, {0xD0C, 3}, {0xD40, 3}};
	static const ArmPart parts32[] = {{0xC07, 1}, {0xC0F, 5}, {0xD03, 2}, {0xD08, 5}, {0xD07, 4}, {0xC0E, 5}, {0xC09, 3}};
	if (o.phone) {
		gen_phone(m, o);
		return;
	}
	bool a64 = m.arch == ARCH_ARM64;
	const ArmPart* parts = a64 ? parts64 : parts32;
	u32 nparts = a64 ? 16 : 7;
	u32 ntypes = o.hetero ? 1 + ch.weighted({3, 5, 4}) : 1;
	std::vector<ArmPart> sel;
	for (u32 i = 0; i < ntypes; i++) {
		ArmPart p = parts[ch.choose(nparts)];
		bool clash = false;
		for (auto& q : sel)
			if (q.score == p.score)
				clash = true;
		if (!clash)
			sel.push_back(p);
	}
	/* clusters: a type may occupy several */
	u32 nclusters = (u32)sel.size();
	if (ch.chance(1, 4))
		nclusters += 1 + ch.choose(a64 ? 5 : 2);
	bool big = a64 && (o.long_lists || (o.large && ch.chance(1, 40)));
	if (big) {
		nclusters += 10 + ch.choose(30);
	}
	u32 base_khz = 1000000;
	std::vector<u32> ctype;
	u32 core = 0;
	for (u32 k = 0; k < nclusters; k++) {
		u32 t = k < sel.size() ? k : ch.choose((u32)sel.size());
		CoreType ct;
		ct.midr = 0x41000000u | 0x000F0000u | sel[t].part << 4;
		ct.score = sel[t].score;
		if (k >= sel.size() && ch.chance(3, 4)) {
			/* same silicon as the earlier cluster of that type */
			for (u32 q = 0; q < k; q++)
				if ((m.types[q].midr >> 4 & 0xfff) == sel[t].part)
					ct.midr = m.types[q].midr;
		} else {
			ct.midr |= ch.choose(4) << 20 | ch.choose(4);
		}
		ct.freq_khz = base_khz + 100000 * ch.choose(20);
		ct.min_khz = 300000 + 100 * ch.choose(4);
		m.types.push_back(ct);
		u32 n = 1 + ch.choose(big ? 8 : 4);
		if (m.cpus.size() + n > (o.long_lists ? 110u : big ? 300u : o.max_cpus) && k >= sel.size())
			break;
		for (u32 i = 0; i < n; i++, core++) {
			Cpu c;
			c.pkg = 0;
			c.cluster = k;
			c.core = core;
			c.type = k;
			m.cpus.push_back(c);
		}
	}
	m.cluster_files = !ch.chance(2, 5);
	m.have_freq = !ch.chance(1, 4);
	if (!m.have_freq || ch.chance(1, 6)) {
		for (auto& t : m.types)
			t.freq_khz = 2000000;
	}
	if (nclusters == 1 && ch.chance(1, 4))
		m.old_style = true;
	m.has_footer = ch.chance(1, 2);
	if (m.has_footer) {
		static const char* const hw[] = {"Generic DT based system", "Qualcomm Technologies, Inc MSM8998", "BCM2835", "Hisilicon Kirin 960", "MT6797T", "Rockchip RK3399", "Unknown board"};
		m.hardware = hw[ch.choose(7)];
		if (ch.chance(1, 2))
			m.revision = ch.chance(1, 2) ? "0000" : "a02082";
		if (ch.chance(1, 3))
			m.hardware += filler(1 + ch.choose(60), "x");
		m.serial = "0000000000000000";
	}
	m.features_len = ch.chance(1, 5) ? ch.choose(ch.chance(1, 3) ? 2500 : 700) : 0;
	if (!a64)
		m.arm32_cache_lines = ch.chance(1, 5);
	m.hwcap = a64 ? 0x119fffull : 0x3fb0d6ull;
	m.hwcap2 = a64 ? 0 : 0x1f;
	number(m, o, 3);
}

static void gen_riscv(Machine& m, const GenOpts& o) {
	Choices& ch = R->ch;
	static const u32 pk[] = {1, 2, 3};
	u32 pkgs = pk[ch.weighted({8, 3, 1})];
	u32 cl = 1 + ch.choose(3);
	u32 cores = 1 + ch.choose(4);
	u32 smt = 1 + ch.weighted({5, 3, 0, 1});
	bool big = o.long_lists || (o.large && ch.chance(1, 40));
	if (big) {
		cl += 6;
		cores += 4;
	}
	u32 ntypes = o.hetero ? 1 + ch.weighted({3, 2, 1}) : 1;
	static const u64 vend[] = {0x489, 0x5b7, 0x31e, 0x0, 0x602};
	static const u64 archid[] = {0x8000000000000007ull, 0x0ull, 0x8000000000000002ull, 0x1ull};
	for (u32 i = 0; i < ntypes; i++) {
		CoreType t;
		t.mvendorid = vend[ch.choose(5)];
		t.marchid = archid[ch.choose(4)];
		t.mimpid = 0x20181004 + ch.choose(3);
		t.freq_khz = 1000000 + 100000 * ch.choose(10);
		t.min_khz = 500000;
		m.types.push_back(t);
	}
	u32 core = 0, cluster = 0;
	for (u32 p = 0; p < pkgs; p++)
		for (u32 k = 0; k < cl; k++, cluster++) {
			u32 n = cores;
			if (ch.chance(1, 4))
				n = 1 + ch.choose(4);
			u32 type = ntypes > 1 ? ch.choose(ntypes) : 0;
			for (u32 i = 0; i < n; i++, core++)
				for (u32 t = 0; t < smt; t++) {
					if (m.cpus.size() >= (o.long_lists ? 110u : big ? 300u : o.max_cpus))
						continue;
					Cpu c;
					c.pkg = p;
					c.cluster = cluster;
					c.core = core;
					c.smt = t;
					c.type = type;
					m.cpus.push_back(c);
				}
		}
	m.have_freq = !ch.chance(1, 3);
	m.hwprobe_ok = !ch.chance(1, 6);
	m.hwcap = 0x112d;
	GenOpts oo = o;
	oo.offline = false;
	number(m, oo, std::max(1u, cores));
}

/* what an Android image says about its chipset */
static void gen_properties(Machine& m) {
	Choices& ch = R->ch;
	static const char* const names[] = {"ro.product.board", "ro.board.platform", "ro.mediatek.platform", "ro.arch", "ro.chipname", "ro.hardware.chipname"};
	static const char* const values[] = {"", "msm8998", "MSM8953", "sdm845", "universal8895", "exynos9810", "kirin970", "hi6250", "hi3660", "mt6797", "MT6765V/CB", "MT6735M",
		"sp9832a", "sc8830", "trinket", "lito", "kona", "goldfish_arm64", "omap4430", "herolte", "K3V2", "BCM28155", "rk3288", "s5e8825", "Qualcomm Technologies, Inc SDM660"};
	for (auto n : names) {
		u32 k = ch.choose(30);
		if (k < sizeof values / sizeof *values)
			m.props[n] = values[k];
		else if (k == 29)
			m.props[n] = str(91, "mM8aK-"[ch.choose(6)]);
	}
}

void generate(Machine& m, Arch a, const GenOpts& o) {
	m.arch = a;
	switch (a) {
		case ARCH_X86: gen_x86(m, o); break;
		case ARCH_ARM64:
		case ARCH_ARM32: gen_arm(m, o); break;
		case ARCH_RISCV: gen_riscv(m, o); break;
	}
	if (obs_os == 5)
		gen_properties(m);
	m.begin_history();
}
