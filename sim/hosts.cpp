#include "hosts.h"
#include "oracle.h"
#include "shadow/windows.h"

#include <algorithm>

static str raw32(u32 v) { return str((const char*)&v, 4); }

bool Host::sysctl(const str& n, str* raw) {
	auto it = values.find(n);
	if (it == values.end())
		return false;
	*raw = it->second;
	return true;
}

str Host::outline() const {
	str s = sfmt("os %d arch %d: %u packages %u cores %u threads, caches shared by", obs_os, obs_arch, packages, cores, threads);
	for (u32 n : shared)
		s += sfmt(" %u", n);
	if (obs_os == 4)
		s += sfmt(", wasm on %s", x86_host ? "x86" : "ARM");
	return s;
}

/* machine with as many of everything per package, core and so on */
static void count(Host& h) {
	std::set<u32> p, c;
	/* virtual machines describe odd caches */
	if (R->ch.chance(1, 12))
		h.cache[R->ch.choose(2)].exists = false;
	h.threads = 0;
	for (auto& x : h.cpus) {
		if (!x.present)
			continue;
		h.threads++;
		p.insert(x.pkg);
		c.insert(x.core);
	}
	h.packages = (u32)p.size();
	h.cores = (u32)c.size();
	for (int k = 0; k < 5; k++)
		if (h.cache[k].exists) {
			h.geometry[k] = h.cache[k];
			h.has_geometry[k] = true;
		}
	h.vendor = h.amd ? 2 : 1;
}

static u32 divisor(u32 n, u32 at_least) {
	std::vector<u32> v;
	if (n % at_least)
		return n;
	for (u32 d = at_least; d <= n; d += at_least)
		if (n % d == 0)
			v.push_back(d);
	return v[R->ch.choose((u32)v.size())];
}

static str groups(const Host& h) {
	str s = "<groups>\n <group level=\"1\" cache-level=\"";
	u32 per = h.threads / h.packages, smt = h.threads / h.cores;
	auto cpus = [](u32 from, u32 n) {
		str t = sfmt("  <cpu count=\"%u\" mask=\"%llx\">", n, n >= 64 ? ~0ull : ((1ull << n) - 1));
		for (u32 i = 0; i < n; i++)
			t += sfmt(i ? ", %u" : "%u", from + i);
		return t + "</cpu>\n";
	};
	s += h.packages > 1 ? "0\">\n" : "3\">\n";
	s += cpus(0, h.threads);
	s += "  <children>\n";
	for (u32 p = 0; p < h.packages; p++) {
		if (h.packages > 1)
			s += "   <group level=\"2\" cache-level=\"0\">\n" + cpus(p * per, per) + "    <children>\n";
		for (u32 c = 0; smt > 1 && c < per / smt; c++)
			s += sfmt("     <group level=\"%u\" cache-level=\"2\">\n", h.packages > 1 ? 3 : 2) + cpus(p * per + c * smt, smt) +
				"     <flags><flag name=\"THREAD\">THREAD group</flag><flag name=\"SMT\">SMT group</flag></flags>\n     </group>\n";
		if (h.packages > 1)
			s += "    </children>\n   </group>\n";
	}
	s += "  </children>\n </group>\n</groups>\n";
	return s + str(1, '\0');
}

static void gen_freebsd(Host& h) {
	count(h);
	h.values["kern.sched.topology_spec"] = groups(h);
	h.values["kern.smp.cores"] = raw32(h.cores);
	h.values["kern.smp.threads_per_core"] = raw32(h.threads / h.cores);
	h.values["kern.smp.cpus"] = raw32(h.threads);
	h.values["hw.ncpu"] = raw32(h.threads);
	/* the system does not report cache sharing: the usual arrangement is assumed */
	u32 core = h.threads / h.cores, pkg = h.threads / h.packages;
	if (h.cache[0].exists)
		h.shared[0] = core;
	if (h.cache[1].exists)
		h.shared[1] = core;
	if (h.cache[2].exists)
		h.shared[2] = h.cache[3].exists ? core : pkg;
	if (h.cache[3].exists)
		h.shared[3] = pkg;
	if (h.cache[4].exists)
		h.shared[4] = h.threads;
	h.cluster_cores.assign(h.packages, h.cores / h.packages);
}

static void gen_darwin_x86(Host& h) {
	Choices& ch = R->ch;
	count(h);
	h.values["hw.physicalcpu_max"] = h.values["hw.physicalcpu"] = raw32(h.cores);
	h.values["hw.logicalcpu_max"] = h.values["hw.logicalcpu"] = raw32(h.threads);
	h.values["hw.ncpu"] = h.values["hw.activecpu"] = raw32(h.threads);
	h.values["hw.packages"] = raw32(h.packages);
	h.values["hw.machine"] = str("x86_64", 7);
	u32 core = h.threads / h.cores, pkg = h.threads / h.packages;
	u64 conf[10] = {h.threads};
	u32 known = ch.weighted({6, 1, 1}) == 0 ? 10 : ch.choose(6);
	u32 below = core;
	for (u32 level = 1; level <= 4; level++) {
		bool have = level == 1 ? h.cache[0].exists || h.cache[1].exists : h.cache[level].exists;
		if (!have)
			continue;
		if (level < known && !ch.chance(1, 8)) {
			u32 n = level == 1 ? core : below > pkg ? h.threads : divisor(pkg, below);
			if (level == 4 && ch.chance(1, 2))
				n = h.threads;
			conf[level] = n;
			below = n;
		} else {
			/* not reported: the usual arrangement */
			below = level == 1 ? core : level == 2 ? (h.cache[3].exists ? core : pkg) : level == 3 ? pkg : h.threads;
		}
		if (level == 1) {
			h.shared[0] = h.cache[0].exists ? below : 0;
			h.shared[1] = h.cache[1].exists ? below : 0;
		} else
			h.shared[level] = below;
	}
	if (known)
		h.values["hw.cacheconfig"] = str((const char*)conf, 8 * known);
	h.cluster_cores.assign(h.packages, h.cores / h.packages);
}

struct AppleFamily { u32 family, big, little, big_uarch, little_uarch; };
static void gen_darwin_arm(Host& h) {
	Choices& ch = R->ch;
	static const AppleFamily fam[] = {
		{0x1B588BB3, 4, 4, 0x0070010B, 0x0070010C}, /* Firestorm, Icestorm */
		{0x37a09642, 2, 0, 0x00700101, 0},          /* Cyclone */
		{0x2c91a47e, 3, 0, 0x00700102, 0},          /* Typhoon */
		{0x92fb37c8, 2, 0, 0x00700103, 0},          /* Twister */
		{0x67ceee93, 2, 0, 0x00700104, 0},          /* Hurricane */
		{0xe81e7ef6, 2, 4, 0x00700105, 0x00700106}, /* Monsoon, Mistral */
		{0x07D34B9F, 2, 4, 0x00700107, 0x00700108}, /* Vortex, Tempest */
		{0x07D34B9F, 4, 4, 0x00700107, 0x00700108},
		{0x462504D2, 2, 4, 0x00700109, 0x0070010A}, /* Lightning, Thunder */
		{0x1B588BB3, 2, 4, 0x0070010B, 0x0070010C},
		{0xDA33D83D, 2, 4, 0x0070010D, 0x0070010E}, /* Avalanche, Blizzard */
		{0xDA33D83D, 4, 4, 0x0070010D, 0x0070010E},
		{0x8765edea, 6, 0, 0, 0},                   /* newer than the library */
	};
	const AppleFamily& f = fam[ch.choose(sizeof fam / sizeof *fam)];
	h.cores = h.threads = f.big + f.little;
	h.packages = 1;
	h.uarch_cores[f.big_uarch] = f.big;
	h.core_uarchs.assign(f.big, f.big_uarch);
	h.core_uarchs.resize(h.cores, f.little_uarch);
	h.cluster_cores.push_back(f.big);
	if (f.little) {
		h.uarch_cores[f.little_uarch] = f.little;
		h.cluster_cores.push_back(f.little);
	}
	h.vendor = 5;
	h.values["hw.physicalcpu_max"] = raw32(h.cores);
	h.values["hw.logicalcpu_max"] = raw32(h.threads);
	h.values["hw.packages"] = raw32(1);
	h.values["hw.cpufamily"] = raw32(f.family);
	h.values["hw.ncpu"] = h.values["hw.activecpu"] = raw32(h.threads);
	if (!ch.chance(1, 4)) {
		u64 conf[10] = {h.threads, 1, f.big, 0};
		h.values["hw.cacheconfig"] = str((const char*)conf, sizeof conf);
	}
	u32 line = ch.chance(1, 2) ? 128 : 64;
	h.values["hw.cachelinesize"] = raw32(line);
	static const struct { const char* name; int k; u32 ways; } cs[] = {{"hw.l1icachesize", 0, 4}, {"hw.l1dcachesize", 1, 4}, {"hw.l2cachesize", 2, 8}, {"hw.l3cachesize", 3, 16}};
	for (auto& c : cs) {
		if (c.k == 3 ? !ch.chance(1, 3) : ch.chance(1, 10))
			continue;
		u32 size = (c.k < 2 ? 32768u : c.k == 2 ? 1048576u : 4194304u) << ch.choose(3);
		if (ch.chance(1, 4))
			size += size / 2;
		h.values[c.name] = raw32(size);
		CacheSpec& s = h.geometry[c.k];
		s.ways = c.ways;
		s.line = line;
		s.sets = size / (c.ways * line);
		s.partitions = 1;
		s.type = 0;
		h.has_geometry[c.k] = true;
		h.shared[c.k] = c.k < 2 ? 1 : h.threads;
	}
	if (!obs_phone || ch.chance(1, 3)) {
		static const char* const brands[] = {"Apple M1", "Apple M2 Max", "Apple processor with a name of more than forty-seven characters", ""};
		str b = brands[ch.choose(4)];
		h.values["machdep.cpu.brand_string"] = str(b.c_str(), b.size() + 1);
		h.name = b.substr(0, 47);
	} else {
		static const struct { const char* device; u32 major, from, to; const char* name; } devices[] = {
			{"iPad", 2, 1, 7, "A5"}, {"iPad", 3, 1, 3, "A5X"}, {"iPad", 3, 4, 6, "A6X"}, {"iPad", 4, 1, 9, "A7"}, {"iPad", 5, 1, 2, "A8"}, {"iPad", 5, 3, 4, "A8X"},
			{"iPad", 6, 3, 8, "A9X"}, {"iPad", 6, 11, 12, "A9"}, {"iPad", 7, 1, 4, "A10X"}, {"iPad", 7, 5, 6, "A10"}, {"iPod", 5, 1, 1, "A5"}, {"iPod", 7, 1, 1, "A8"},
		};
		str m;
		if (ch.chance(1, 3)) {
			u32 n = 4 + ch.choose(10);
			m = sfmt("iPhone%u,%u", n, 1 + ch.choose(6));
			h.name = sfmt("Apple A%u", n + 1);
		} else {
			auto& v = devices[ch.choose(sizeof devices / sizeof *devices)];
			m = sfmt("%s%u,%u", v.device, v.major, v.from + ch.choose(v.to - v.from + 1));
			h.name = str("Apple ") + v.name;
		}
		h.values["hw.machine"] = str(m.c_str(), m.size() + 1);
	}
	static const struct { const char* feature; const char* query; } ft[] = {
		{"hw.optional.arm.FEAT_LSE", "cpuinfo_has_arm_atomics"}, {"hw.optional.arm.FEAT_RDM", "cpuinfo_has_arm_neon_rdm"},
		{"hw.optional.arm.FEAT_FP16", "cpuinfo_has_arm_fp16_arith"}, {"hw.optional.arm.FEAT_FHM", "cpuinfo_has_arm_fhm"},
		{"hw.optional.arm.FEAT_BF16", "cpuinfo_has_arm_bf16"}, {"hw.optional.arm.FEAT_FCMA", "cpuinfo_has_arm_fcma"},
		{"hw.optional.arm.FEAT_JSCVT", "cpuinfo_has_arm_jscvt"}, {"hw.optional.arm.FEAT_DotProd", "cpuinfo_has_arm_neon_dot"},
		{"hw.optional.arm.FEAT_I8MM", "cpuinfo_has_arm_i8mm"}, {"hw.optional.arm.FEAT_SME", "cpuinfo_has_arm_sme"}, {"hw.optional.arm.FEAT_SME2", "cpuinfo_has_arm_sme2"},
	};
	/* systems before iOS 15 and macOS 12 do not say, but the core tells */
	bool v82 = f.family == 0xe81e7ef6 || f.family == 0x07D34B9F || f.family == 0x462504D2 || f.family == 0x1B588BB3;
	bool v84 = f.family == 0x462504D2 || f.family == 0x1B588BB3;
	bool newer = f.family == 0xDA33D83D || f.family == 0x8765edea;
	bool listed = newer || ch.chance(1, 2);
	for (u32 i = 0; i < sizeof ft / sizeof *ft; i++) {
		str q = ft[i].query;
		bool implied = i < 3 ? v82 : q == "cpuinfo_has_arm_fhm" || q == "cpuinfo_has_arm_fcma" || q == "cpuinfo_has_arm_jscvt" || q == "cpuinfo_has_arm_neon_dot" ? v84 : false;
		u32 v = listed ? ch.choose(2) : 0;
		if (listed)
			h.values[ft[i].feature] = raw32(v);
		h.isa[q] = v || implied;
	}
	/* every 64-bit core of the maker has them */
	for (const char* q : {"aes", "pmull", "sha1", "sha2"})
		h.isa[str("cpuinfo_has_arm_") + q] = true;
	if (v82 || newer)
		h.isa["cpuinfo_has_arm_crc32"] = true;
}

static void gen_wasm(Host& h) {
	Choices& ch = R->ch;
	h.x86_host = ch.chance(1, 2);
	h.logical = (int)(ch.chance(1, 4) ? 1 + ch.choose(128) : 1 + ch.choose(16));
	h.threads = h.cores = (u32)h.logical;
	auto put = [&](int k, u32 shared, u32 ways, u32 sets) {
		h.shared[k] = shared;
		CacheSpec& s = h.geometry[k];
		s.ways = ways;
		s.sets = sets;
		s.line = 64;
		s.type = 0;
		h.has_geometry[k] = true;
	};
	if (h.x86_host) {
		u32 smt = h.threads % 2 ? 1 : 2;
		h.cores = h.threads / smt;
		put(0, smt, 4, 128);
		put(1, smt, 4, 128);
		put(2, smt, 8, 512);
		put(3, h.threads, 16, 2048);
		h.cluster_cores.push_back(h.cores);
	} else {
		put(0, 1, 4, 128);
		put(1, 1, 4, 128);
		u32 big = h.threads <= 4 ? h.threads : h.threads >= 8 ? 4 : 2;
		h.cluster_cores.push_back(big);
		if (h.threads > big)
			h.cluster_cores.push_back(h.threads - big);
	}
	h.name = h.x86_host ? "x86 vCPU" : "ARM vCPU";
}

/* ---- Windows ---- */

/* processors in the order of their numbers -> which bits of which groups */
static std::vector<GROUP_AFFINITY> masks(const std::vector<u32>& ids) {
	std::vector<GROUP_AFFINITY> v;
	for (u32 id : ids) {
		if (v.empty() || v.back().Group != id >> 8) {
			v.push_back(GROUP_AFFINITY());
			v.back().Group = (WORD)(id >> 8);
		}
		v.back().Mask |= (KAFFINITY)1 << (id & 0xff);
	}
	return v;
}

static str record(u32 relationship, const void* body, size_t n, const std::vector<GROUP_AFFINITY>& m) {
	u32 head[2] = {relationship, (u32)(8 + n + m.size() * sizeof m[0])};
	return str((const char*)head, 8) + str((const char*)body, n) + str((const char*)m.data(), m.size() * sizeof m[0]);
}
static str processor_record(u32 relationship, u32 flags, u32 efficiency, const std::vector<u32>& ids) {
	PROCESSOR_RELATIONSHIP p = {};
	auto m = masks(ids);
	p.Flags = (BYTE)flags;
	p.EfficiencyClass = (BYTE)efficiency;
	p.GroupCount = (WORD)m.size();
	return record(relationship, &p, offsetof(PROCESSOR_RELATIONSHIP, GroupMask), m);
}

/* Numbers the processors, packages and cores of the machine in the order they have. */
static void number_windows(Host& h) {
	Choices& ch = R->ch;
	/* a group has whole packages, or else whole cores of one package */
	std::vector<u32> size;
	bool is_wine = obs_arch == ARCH_X86 && ch.chance(1, 8);
	u32 limit = 64;
	if (!is_wine && ch.chance(1, 3)) {
		static const u32 l[] = {1, 2, 4, 8, 16, 32};
		limit = l[ch.choose(6)];
	}
	bool packages_apart = !is_wine && ch.chance(1, 3);
	std::map<u32, u32> in_package;
	for (auto& c : h.cpus)
		in_package[c.pkg]++;
	u32 smt = h.threads / h.cores, group = 0, n = 0;
	limit = std::max(limit, smt);
	for (size_t i = 0; i < h.cpus.size(); i++) {
		Cpu& c = h.cpus[i];
		bool new_package = i && c.pkg != h.cpus[i - 1].pkg, new_core = !i || c.core != h.cpus[i - 1].core;
		if (n && !is_wine && ((new_package && (packages_apart || n + in_package[c.pkg] > limit)) || (new_core && n + smt > limit))) {
			size.push_back(n);
			group++;
			n = 0;
		}
		c.id = group << 8 | n++;
	}
	size.push_back(n);
	auto& v = h.values;
	/* room for processors added later */
	bool room = !is_wine && ch.chance(1, 6);
	u32 more = room && ch.chance(1, 2) ? 1 + ch.choose(2) : 0;
	v["win:activegroups"] = raw32((u32)size.size());
	v["win:maxgroups"] = raw32((u32)size.size() + more);
	for (u32 g = 0; g < size.size() + more; g++) {
		u32 have = g < size.size() ? size[g] : 0;
		u32 most = room ? have + ch.choose(65 - have) : have;
		v[sfmt("win:active:%u", g)] = raw32(have);
		v[sfmt("win:max:%u", g)] = raw32(most);
	}
	if (is_wine)
		v["win:wine"] = "";
	std::map<u32, std::vector<u32>> packages, cores;
	for (auto& c : h.cpus) {
		packages[c.pkg].push_back(c.id);
		cores[c.core].push_back(c.id);
	}
	for (auto& p : packages)
		v["win:info:3"] += processor_record(RelationProcessorPackage, 0, 0, p.second);
	u32 big = obs_arch == ARCH_X86 ? 0 : ch.choose(h.cores + 1);
	for (auto& c : cores)
		v["win:info:0"] += processor_record(RelationProcessorCore, c.second.size() > 1 ? LTP_PC_SMT : 0, c.first < big ? 1 : 0, c.second);
}

static void gen_windows_x86(Host& h) {
	std::vector<Cpu> there;
	for (auto& c : h.cpus)
		if (c.present)
			there.push_back(c);
	h.cpus = there;
	std::stable_sort(h.cpus.begin(), h.cpus.end(), [](const Cpu& a, const Cpu& b) { return a.pkg != b.pkg ? a.pkg < b.pkg : a.core != b.core ? a.core < b.core : a.smt < b.smt; });
	count(h);
	/* Windows does not tell APIC numbers: the library takes them to be without gaps */
	u32 p = 0, c = 0, t = 0;
	for (size_t i = 0; i < h.cpus.size(); i++) {
		Cpu& x = h.cpus[i];
		if (i) {
			const Cpu& y = h.cpus[i - 1];
			if (x.pkg != y.pkg)
				p++, c = t = 0;
			else if (x.core != y.core)
				c++, t = 0;
			else
				t++;
		}
		x.apic = p << (h.smt_bits + h.core_bits) | c << h.smt_bits | t;
	}
	for (auto& x : h.cpus)
		x.cluster = x.pkg;
	number_windows(h);
	h.cluster_cores.assign(h.packages, h.cores / h.packages);
}

static str text(const str& s) {
	str r = raw32(REG_SZ);
	for (size_t i = 0; i <= s.size(); i++) {
		wchar_t c = i < s.size() ? (wchar_t)(u8)s[i] : 0;
		r.append((const char*)&c, sizeof c);
	}
	return r;
}

static void gen_windows_arm(Host& h) {
	Choices& ch = R->ch;
	static const u32 shapes[][4] = {{4, 4}, {8}, {2, 6}, {4}, {4, 4, 4}, {1}, {6}, {2, 2}, {1, 3, 4}, {16, 16}};
	const u32* shape = shapes[ch.choose(sizeof shapes / sizeof *shapes)];
	h.packages = ch.chance(1, 6) ? 2 : 1;
	u32 n = 0;
	struct Cluster { u32 first, count; };
	std::vector<Cluster> clusters;
	for (u32 p = 0; p < h.packages; p++)
		for (u32 i = 0; i < 4 && shape[i]; i++) {
			clusters.push_back({n, shape[i]});
			for (u32 k = 0; k < shape[i]; k++, n++) {
				Cpu c;
				c.pkg = p;
				c.core = c.cluster = n;
				h.cpus.push_back(c);
			}
		}
	h.threads = h.cores = n;
	number_windows(h);
	h.cluster_cores.assign(h.cores, 1);
	auto& v = h.values;
	/* caches; old systems leave the number of groups zero */
	bool by_level = ch.chance(1, 2), uncounted = ch.chance(1, 3), shared_l2 = ch.chance(1, 2);
	bool have[4];
	for (int k = 0; k < 4; k++)
		have[k] = k == 3 ? ch.chance(2, 3) : !ch.chance(1, 12);
	if (!have[0] && !have[1] && !have[2] && !have[3])
		have[1] = true;
	static const u32 ways[] = {4, 8, 16, 2, 1, 12};
	u32 per = n / h.packages;
	for (u32 i = 0; i < clusters.size(); i++) {
		CacheSpec s[4];
		for (int k = 0; k < 4; k++) {
			s[k].level = k < 2 ? 1 : (u32)k;
			s[k].type = k == 0 ? 2 : k == 1 ? 1 : 3;
			s[k].ways = ways[ch.weighted({4, 3, 2, 1, 1, 1})];
			s[k].line = ch.chance(1, 5) ? 128 : 64;
			s[k].sets = (k < 2 ? 64u : k == 2 ? 512u : 2048u) << ch.choose(3);
			if (ch.chance(1, 6))
				s[k].sets += s[k].sets / 2;
			s[k].partitions = 1;
		}
		auto put = [&](int k, u32 first, u32 count) {
			if (have[k])
				h.each.push_back({k, first, count, s[k], s[k].size()});
		};
		for (u32 c = clusters[i].first; c < clusters[i].first + clusters[i].count; c++) {
			put(0, c, 1);
			put(1, c, 1);
			if (!shared_l2)
				put(2, c, 1);
		}
		if (shared_l2)
			put(2, clusters[i].first, clusters[i].count);
		if (clusters[i].first % per == 0)
			put(3, clusters[i].first, per);
	}
	if (by_level)
		std::stable_sort(h.each.begin(), h.each.end(), [](const Host::One& a, const Host::One& b) { return a.k < b.k; });
	for (auto& o : h.each) {
		CACHE_RELATIONSHIP c = {};
		c.Level = (BYTE)o.spec.level;
		c.Associativity = (BYTE)o.spec.ways;
		c.LineSize = (WORD)o.spec.line;
		c.CacheSize = o.bytes;
		c.Type = o.k == 0 ? CacheInstruction : o.k == 1 ? CacheData : CacheUnified;
		std::vector<u32> ids;
		for (u32 i = 0; i < o.count; i++)
			ids.push_back(h.cpus[o.first + i].id);
		auto m = masks(ids);
		c.GroupCount = m.size() == 1 && uncounted ? 0 : (WORD)m.size();
		v["win:info:2"] += record(RelationCache, &c, offsetof(CACHE_RELATIONSHIP, GroupMasks), m);
	}
	for (auto& o : h.each)
		h.shared[o.k] = std::max(h.shared[o.k], o.count);
	static const struct { u32 midr, vendor, uarch; } parts[] = {
		{0x410FD0B1, 3, 0x00300376}, {0x411FD0C1, 3, 0x00300400}, {0x411FD411, 3, 0x00300378}, {0x411FD440, 3, 0x00300501}, {0x511F0011, 4, 0x00400105},
		{0x410FDFF0, 3, 0},       /* newer than the library */
	};
	auto& part = parts[ch.choose(sizeof parts / sizeof *parts)];
	h.vendor = part.vendor;
	h.uarch_cores[part.uarch] = h.cores;
	u64 midr = part.midr;
	v["win:reg:CP 4000"] = raw32(REG_QWORD) + str((const char*)&midr, 8);
	u32 mhz = 1 + ch.choose(4500);
	v["win:reg:~MHz"] = raw32(REG_DWORD) + raw32(mhz);
	h.hertz = (u64)mhz * 1000000;
	static const char* const names[] = {"Snapdragon (TM) 850 @ 2.96 GHz", "Microsoft SQ3 @ 3.0 GHz", "Snapdragon(R) X Elite - X1E80100 - Qualcomm(R) Oryon(TM) CPU", "A",
		"Ampere(R) Altra(R) Processor, exactly forty-seven", "Ampere(R) Altra(R) Processor, forty-seven chars"};
	str name = names[ch.choose(6)];
	v["win:reg:ProcessorNameString"] = text(name);
	h.name = name.substr(0, 47);
	v["win:level"] = raw32(ch.chance(1, 2) ? 0x803 : part.midr >> 4 & 0xfff);
	static const struct { u32 feature; const char* query; } ft[] = {
		{PF_ARM_V81_ATOMIC_INSTRUCTIONS_AVAILABLE, "cpuinfo_has_arm_atomics"}, {PF_ARM_V8_CRC32_INSTRUCTIONS_AVAILABLE, "cpuinfo_has_arm_crc32"},
		{PF_ARM_V82_DP_INSTRUCTIONS_AVAILABLE, "cpuinfo_has_arm_neon_dot"}, {PF_ARM_V82_DP_INSTRUCTIONS_AVAILABLE, "cpuinfo_has_arm_fp16_arith"},
		{PF_ARM_V82_DP_INSTRUCTIONS_AVAILABLE, "cpuinfo_has_arm_neon_rdm"}, {PF_ARM_V8_CRYPTO_INSTRUCTIONS_AVAILABLE, "cpuinfo_has_arm_aes"},
		{PF_ARM_V8_CRYPTO_INSTRUCTIONS_AVAILABLE, "cpuinfo_has_arm_sha1"}, {PF_ARM_V8_CRYPTO_INSTRUCTIONS_AVAILABLE, "cpuinfo_has_arm_sha2"},
		{PF_ARM_V8_CRYPTO_INSTRUCTIONS_AVAILABLE, "cpuinfo_has_arm_pmull"},
	};
	for (auto& f : ft) {
		str key = sfmt("win:feature:%u", f.feature);
		if (!v.count(key))
			v[key] = raw32(ch.choose(2));
		h.isa[f.query] = v[key] != raw32(0);
	}
}

/* caches as described one by one */
static str check_each(const Desc& d, const Host& h) {
	u32 n[5] = {0, 0, 0, 0, 0};
	for (auto& o : h.each) {
		n[o.k]++;
		for (u32 i = o.first; i < o.first + o.count; i++) {
			int j = d.procs[i].cache[o.k];
			if (j < 0)
				return sfmt("processor %u has no cache of kind %d", i, o.k);
			const DCache& c = d.cache[o.k][(size_t)j];
			if (c.pstart != o.first || c.pcount != o.count)
				return sfmt("cache of kind %d of processor %u covers %u+%u, the system says %u+%u", o.k, i, c.pstart, c.pcount, o.first, o.count);
			if (c.size != o.bytes || c.assoc != o.spec.ways || c.line != o.spec.line || c.sets != o.spec.sets || c.partitions != 1 || c.flags != (o.spec.type == 3 ? 1u : 0u))
				return sfmt("cache of kind %d of processor %u has %u bytes %u ways line %u %u sets %u partitions flags 0x%x, the system says %u/%u/%u/%u/1", o.k, i, c.size, c.assoc, c.line, c.sets,
					c.partitions, c.flags, o.bytes, o.spec.ways, o.spec.line, o.spec.sets);
		}
	}
	for (int k = 0; k < 5; k++)
		if (d.cache[k].size() != n[k])
			return sfmt("%zu caches of kind %d, the system has %u", d.cache[k].size(), k, n[k]);
	return "";
}

void generate_host(Host& h) {
	if (obs_os == 4) {
		gen_wasm(h);
		return;
	}
	if (obs_arch == ARCH_X86) {
		GenOpts go;
		go.max_cpus = 48;
		go.offline = go.sparse = false;
		generate(h, ARCH_X86, go);
	}
	if (obs_os == 3 && obs_arch == ARCH_X86)
		gen_windows_x86(h);
	else if (obs_os == 3)
		gen_windows_arm(h);
	else if (obs_os == 1)
		gen_freebsd(h);
	else if (obs_os == 2 && obs_arch == ARCH_X86)
		gen_darwin_x86(h);
	else if (obs_os == 2)
		gen_darwin_arm(h);
}

str check_truth_host(const Desc& d, const Host& h) {
	str e = check_consistent(d);
	if (!e.empty())
		return e;
	if (d.procs.size() != h.threads || d.cores.size() != h.cores || d.packages.size() != h.packages)
		return sfmt("%zu processors %zu cores %zu packages reported, the system has %u, %u and %u", d.procs.size(), d.cores.size(), d.packages.size(), h.threads, h.cores, h.packages);
	for (auto& c : d.cores)
		if (c.pcount != h.threads / h.cores)
			return sfmt("a core has %u processors, the system says %u", c.pcount, h.threads / h.cores);
	std::set<std::pair<int, u32>> smt;
	for (auto& p : d.procs)
		if (p.smt >= h.threads / h.cores || !smt.insert({p.core, p.smt}).second)
			return sfmt("SMT number %u of a processor of core %d is out of range or used twice", p.smt, p.core);
	for (auto& p : d.packages) {
		if (p.ccount != h.cores / h.packages)
			return sfmt("a package has %u cores, the system says %u", p.ccount, h.cores / h.packages);
		if (!h.name.empty() && p.name != h.name)
			return sfmt("package is called '%s', expected '%s'", p.name.c_str(), h.name.c_str());
	}
	std::vector<u32> cl, want = h.cluster_cores;
	for (auto& c : d.clusters)
		cl.push_back(c.ccount);
	std::sort(cl.begin(), cl.end());
	std::sort(want.begin(), want.end());
	if (cl != want)
		return sfmt("%zu clusters (first of %u cores), expected %zu (first of %u cores)", cl.size(), cl[0], want.size(), want[0]);
	if (obs_os == 3) {
		for (size_t i = 0; i < d.procs.size(); i++)
			if (d.procs[i].linux_id != (int)h.cpus[i].id)
				return sfmt("processor %zu is number %d of group %d, expected %u of %u", i, d.procs[i].linux_id & 0xff, d.procs[i].linux_id >> 8, h.cpus[i].id & 0xff, h.cpus[i].id >> 8);
		e = obs_arch == ARCH_X86 ? check_truth_x86(d, h) : check_each(d, h);
		if (!e.empty())
			return e;
	}
	for (auto& c : d.cores)
		if (h.hertz && c.freq != h.hertz)
			return sfmt("core runs at %llu Hz, expected %llu", (unsigned long long)c.freq, (unsigned long long)h.hertz);
	static const char* const kn[] = {"L1 instruction cache", "L1 data cache", "L2 cache", "L3 cache", "L4 cache"};
	for (int k = 0; k < 5 && obs_os != 3; k++) {
		if (obs_os == 4 && !h.x86_host && k == 2) {
			/* one per cluster */
			if (d.cache[2].size() != want.size())
				return sfmt("%zu L2 caches for %zu clusters", d.cache[2].size(), want.size());
			for (auto& p : d.procs)
				for (auto& q : d.procs)
					if ((p.cluster == q.cluster) != (p.cache[2] == q.cache[2]) || p.cache[2] < 0)
						return "L2 caches do not follow the clusters";
			for (auto& c : d.cache[2])
				if (c.size != c.assoc * c.sets * c.partitions * c.line || !c.size)
					return "geometry of an L2 cache does not multiply out";
			continue;
		}
		if (!h.shared[k]) {
			if (!d.cache[k].empty())
				return sfmt("%s reported but the system has none", kn[k]);
			continue;
		}
		if (d.cache[k].size() != h.threads / h.shared[k])
			return sfmt("%zu times %s, expected %u", d.cache[k].size(), kn[k], h.threads / h.shared[k]);
		for (auto& c : d.cache[k])
			if (c.pcount != h.shared[k])
				return sfmt("%s is shared by %u processors, expected %u", kn[k], c.pcount, h.shared[k]);
		for (size_t i = 0; i < d.procs.size(); i++)
			if (d.procs[i].cache[k] < 0)
				return sfmt("processor %zu has no %s", i, kn[k]);
		const CacheSpec& s = h.geometry[k];
		u32 flags = s.type == 0 ? 0 : (s.type == 3 ? 1u : 0) | (s.inclusive ? 2u : 0) | (s.complex_indexing ? 4u : 0);
		str raw;
		for (auto& c : d.cache[k]) {
			if (c.assoc != s.ways || c.sets != s.sets || c.partitions != s.partitions || c.line != s.line || c.flags != flags)
				return sfmt("%s has %u ways %u sets %u partitions line %u flags 0x%x, expected %u/%u/%u/%u/0x%x", kn[k], c.assoc, c.sets, c.partitions, c.line, c.flags,
					s.ways, s.sets, s.partitions, s.line, flags);
			if (c.size < s.size() || c.size >= s.size() + s.ways * s.line)
				return sfmt("%s has %u bytes, expected %u", kn[k], c.size, s.size());
		}
	}
	std::set<std::pair<int, u32>> numbers;
	for (auto& c : d.cores)
		if (!numbers.insert({c.package, c.core_id}).second)
			return sfmt("two cores of package %d have the number %u", c.package, c.core_id);
	std::set<u32> apic;
	if (obs_os != 4 && obs_arch == ARCH_X86)
		for (auto& p : d.procs)
			if (!apic.insert(p.apic).second)
				return sfmt("two processors have APIC ID %u", p.apic);
	for (auto& c : d.cores)
		if (c.vendor != h.vendor)
			return sfmt("core vendor %u, expected %u", c.vendor, h.vendor);
	if (obs_os != 4 && obs_arch == ARCH_X86)
		for (auto& c : d.cores)
			if (c.id != h.signature)
				return sfmt("core signature 0x%x, hardware has 0x%x", c.id, h.signature);
	if (!h.uarch_cores.empty()) {
		std::map<u32, u32> got;
		for (auto& c : d.cores)
			got[c.uarch]++;
		if (got != h.uarch_cores)
			return sfmt("%zu microarchitectures among the cores (first 0x%x: %u), expected %zu (first 0x%x: %u)", got.size(), got.begin()->first, got.begin()->second,
				h.uarch_cores.size(), h.uarch_cores.begin()->first, h.uarch_cores.begin()->second);
	}
	/* the faster ones have the lower numbers */
	for (size_t i = 0; i < h.core_uarchs.size(); i++)
		if (d.cores[i].uarch != h.core_uarchs[i])
			return sfmt("core %zu is of kind 0x%x, expected 0x%x", i, d.cores[i].uarch, h.core_uarchs[i]);
	if (obs_os != 3 && obs_os != 4 && obs_arch == ARCH_X86 && !(e = check_names_x86(d, h)).empty())
		return e;
	for (auto& q : h.isa)
		for (u32 i = 0; i < d.isa.size(); i++)
			if (q.first == isa_name(i) && !!d.isa[i] != q.second)
				return sfmt("%s answers %u, the system says %d", isa_name(i), d.isa[i], (int)q.second);
	return "";
}
