#include "props.h"

#include <algorithm>

using namespace std::string_literals;

/* C26: the command-line tools, run whole. */

extern "C" {
#define TOOL(n) int n(int, char**) __attribute__((weak));
TOOL(tool_cpu_info) TOOL(tool_isa_info) TOOL(tool_cache_info) TOOL(tool_cpuinfo_dump) TOOL(tool_cpuid_dump) TOOL(tool_auxv_dump)
}
typedef int (*Main)(int, char**);

struct Ran {
	bool ended = false; /* came to an end by itself */
	int status = -1;
	str out, err;
};

static Ran run_tool(const char* name, Main f) {
	Ran r;
	process_restart();
	arm_limits();
	E.faults_on = true;
	bool returned = false;
	run_one([&] {
		char arg[32];
		snprintf(arg, sizeof arg, "%s", name);
		char* argv[] = {arg, nullptr};
		r.status = f(1, argv);
		returned = true;
	});
	if (!returned)
		r.status = E.exit_status;
	r.ended = returned || E.exit_status >= 0;
	for (auto& w : E.writes)
		(w.fd == 1 ? r.out : r.err) += w.data;
	R->ev("%s -> status %d", name, r.status);
	R->mix(fnv(r.out.data(), r.out.size()));
	E.faults_on = false;
	return r;
}

static std::vector<str> lines_of(const str& s) {
	std::vector<str> v;
	for (size_t i = 0; i < s.size();) {
		size_t e = s.find('\n', i);
		if (e == str::npos)
			e = s.size();
		v.push_back(s.substr(i, e - i));
		i = e + 1;
	}
	return v;
}

/* letters and digits only, in lower case: "Cortex-A53" and cortex_a53 are the same name */
static str plain(const str& s) {
	str r;
	for (char c : s)
		if (isalnum((unsigned char)c))
			r += (char)tolower((unsigned char)c);
	return r;
}

static bool names(const std::vector<NamedValue>& table, u32 value, const str& text) {
	bool listed = false;
	for (auto& n : table)
		if (n.value == value) {
			listed = true;
			if (plain(n.name) == plain(text) || (!strcmp(n.name, "apm") && text == "Applied Micro"))
				return true;
		}
	/* what has no name is given by number */
	(void)listed;
	return text.find(sfmt("0x%08x", value)) != str::npos;
}

/* Walks over the output line by line. */
struct Reader {
	std::vector<str> v;
	size_t at = 0;
	str error;
	explicit Reader(const str& s) : v(lines_of(s)) {}
	str next() { return at < v.size() ? v[at++] : (at++, "(end of output)"); }
	void line(const str& want) {
		str l = next();
		if (error.empty() && l != want)
			error = sfmt("line %zu is '%.150s', the library says '%.150s'", at, l.c_str(), want.c_str());
	}
	/* the part after `start`, which must be there */
	str after(const str& start) {
		str l = next();
		if (l.compare(0, start.size(), start) == 0)
			return l.substr(start.size());
		if (error.empty())
			error = sfmt("line %zu is '%.150s', the library says '%.150s...'", at, l.c_str(), start.c_str());
		return "";
	}
	void name(const str& got, bool ok, u32 vendor, u32 uarch) {
		if (error.empty() && !ok)
			error = sfmt("line %zu names '%.100s' what is vendor %u, microarchitecture 0x%x", at, got.c_str(), vendor, uarch);
	}
	void end() {
		if (error.empty() && at != v.size())
			error = sfmt("%zu lines, expected %zu", v.size(), at);
	}
};

static str span(const char* what, u32 start, u32 count) {
	return count == 1 ? sfmt("1 %s (%u)", what, start) : sfmt("%u %ss (%u-%u)", count, what, start, start + count - 1);
}

static str check_cpu_info(const str& out, const Desc& d) {
	Reader r(out);
	if (obs_os == OS_ANDROID)
		r.line("SoC name: " + d.packages[0].name);
	else {
		r.line("Packages:");
		for (u32 i = 0; i < d.packages.size(); i++)
			r.line(sfmt("\t%u: ", i) + d.packages[i].name);
	}
	r.line("Microarchitectures:");
	for (auto& u : d.uarchs) {
		str n = r.after(sfmt("\t%ux ", u.ccount));
		r.name(n, names(uarch_names, u.uarch, n), 0, u.uarch);
	}
	auto both = [&](const str& n, u32 vendor, u32 uarch) {
		bool ok = false;
		/* names of vendors may have several words */
		for (size_t i = n.find(' '); i != str::npos && !ok; i = n.find(' ', i + 1))
			ok = names(vendor_names, vendor, n.substr(0, i)) && names(uarch_names, uarch, n.substr(i + 1));
		r.name(n, ok, vendor, uarch);
	};
	r.line("Cores:");
	for (u32 i = 0; i < d.cores.size(); i++) {
		auto& c = d.cores[i];
		both(r.after(sfmt("\t%u: ", i) + span("processor", c.pstart, c.pcount) + ", "), c.vendor, c.uarch);
	}
	r.line("Clusters:");
	for (u32 i = 0; i < d.clusters.size(); i++) {
		auto& c = d.clusters[i];
		both(r.after(sfmt("\t%u: ", i) + span("processor", c.pstart, c.pcount) + sfmt(",\t%u: ", i) + span("core", c.cstart, c.ccount) + ", "), c.vendor, c.uarch);
	}
	r.line("Logical processors (System ID):");
	for (u32 i = 0; i < d.procs.size(); i++)
		r.line(sfmt("\t%u (%d)", i, d.procs[i].linux_id) + (obs_arch == ARCH_X86 ? sfmt(": APIC ID 0x%08x", d.procs[i].apic) : ""));
	r.end();
	return r.error;
}

static str check_cache_info(const str& out, const Desc& d) {
	Reader r(out);
	r.line(sfmt("Max cache size (upper bound): %u bytes", d.max_cache));
	static const u32 level[] = {1, 1, 2, 3, 4};
	for (int k = 0; k < 5; k++) {
		if (d.cache[k].empty())
			continue;
		const DCache& c = d.cache[k][0];
		bool unified = c.flags & 1;
		if (k == 0 && unified)
			continue;
		str l = sfmt("L%u %s cache: ", level[k], unified ? "unified" : k == 0 ? "instruction" : "data");
		if (d.cache[k].size() != 1)
			l += sfmt("%zu x ", d.cache[k].size());
		l += c.size % 1048576 == 0 ? sfmt("%u MB", c.size / 1048576) : c.size % 1024 == 0 ? sfmt("%u KB", c.size / 1024) : sfmt("%u bytes", c.size);
		if (level[k] != 1)
			l += c.flags & 2 ? " (inclusive)" : " (exclusive)";
		l += ", ";
		l += c.assoc * c.line == c.size ? str("fully associative") : sfmt("%u-way set associative", c.assoc);
		if (c.sets) {
			l += sfmt(" (%u sets", c.sets);
			if (c.partitions != 1)
				l += sfmt(", %u partitions", c.partitions);
			l += c.flags & 4 ? ", complex indexing), " : "), ";
		}
		l += sfmt("%u byte lines", c.line);
		if (c.pcount)
			l += sfmt(", shared by %u processors", c.pcount);
		r.line(l);
	}
	r.end();
	return r.error;
}

static const struct { int arch; const char *label, *query; } labels[] = {
#define X(a, l, q) {a, l, q},
#include "isa_labels.inc"
#undef X
};

static str check_isa_info(const str& out, const Desc& d) {
	std::map<str, std::vector<str>> seen;
	for (auto& l : lines_of(out)) {
		size_t c = l.find(": ");
		if (l[0] == '\t' && c != str::npos)
			seen[l.substr(1, c - 1)].push_back(l.substr(c + 2));
	}
	std::map<str, u32> answer;
	for (u32 i = 0; i < d.isa.size(); i++)
		answer[isa_name(i)] = d.isa[i];
	for (auto& l : labels) {
		if (l.arch != obs_arch)
			continue;
		auto& v = seen[l.label];
		if (v.size() != 1)
			return sfmt("%zu lines about %s", v.size(), l.label);
		if (v[0] != (answer[l.query] ? "yes" : "no"))
			return sfmt("'%s: %s', but %s() is %u", l.label, v[0].c_str(), l.query, answer[l.query]);
	}
	if (obs_arch == ARCH_ARM64) {
		auto& v = seen["SVE max length"];
		str want = sfmt("%d", (int)answer["cpuinfo_get_max_arm_sve_length"]);
		if (v.size() != 1 || v[0] != want)
			return sfmt("SVE length '%s', but cpuinfo_get_max_arm_sve_length() is %s", v.empty() ? "(none)" : v[0].c_str(), want.c_str());
	}
	return "";
}

/* A machine with other features than the usual ones. */
struct Featured : Machine {
	bool odd = false;
	Rng bits;
	u64 mask[8], xcr0 = 7;
	void cpuid(u32 cpu, u32 leaf, u32 sub, u32 o[4]) override {
		Machine::cpuid(cpu, leaf, sub, o);
		if (!odd)
			return;
		if (leaf == 1) {
			o[2] ^= (u32)mask[0] & ~0x00200000u;
			o[3] ^= (u32)mask[1] & ~0x10000000u;
		} else if (leaf == 7 && sub <= 1) {
			if (sub == 0)
				o[0] = 1;
			o[1] ^= (u32)mask[2 + sub];
			o[2] ^= (u32)(mask[2 + sub] >> 32);
			o[3] ^= (u32)mask[4 + sub];
			if (sub == 1)
				o[0] ^= (u32)(mask[4] >> 32);
		} else if (leaf == 0x80000001u) {
			o[2] ^= (u32)mask[6] & ~0x00400002u;
			o[3] ^= (u32)(mask[6] >> 32);
		} else if (leaf == 0x80000008u)
			o[1] ^= (u32)mask[7];
		else if (leaf == 0xDu && sub == 0)
			o[0] |= (u32)xcr0;
		else if (leaf == 0xDu && sub == 1)
			o[0] ^= (u32)(mask[7] >> 32);
		else if (leaf == 0x24u && sub == 0)
			o[1] ^= (u32)mask[3] & 0x000700ffu;
	}
	u64 xgetbv(u32) override { return xcr0; }
	long prctl(int o) override { return o == 51 && odd ? (long)(16 << mask[0] % 5) : Machine::prctl(o); }
	void vary() {
		Choices& ch = R->ch;
		odd = true;
		bits = Rng(ch.choose(1 << 20));
		for (auto& x : mask)
			x = ch.chance(1, 3) ? bits.next() & bits.next() & bits.next() : bits.next();
		static const u64 states[] = {7, 3, 1, 0xe7, 0x602e7, 0xffffffffull, 0x27};
		xcr0 = states[ch.choose(7)];
		if (arch != ARCH_X86) {
			hwcap = bits.next();
			hwcap2 = bits.next();
			if (arch == ARCH_ARM32)
				hwcap &= 0xffffffffu, hwcap2 &= 0xffffffffu;
		}
		if (arch == ARCH_X86) {
			/* any family and model */
			u32 family = amd ? bits.below(12) + 0xf : 6;
			u32 model = bits.below(256);
			signature = bits.below(16) | (model & 15) << 4 | std::min(family, 15u) << 8 | (model >> 4) << 16 | (family > 15 ? family - 15 : 0) << 20;
			return;
		}
		static const char* const versions[] = {"7", "8", "6TEJ", "5TE", "5TEJ", "6", "4T", "AArch64", "5T"};
		arm_architecture = versions[ch.weighted({3, 1, 1, 1, 1, 1, 1, 1, 1})];
		static const struct { u32 implementer, part[24]; } parts[] = {
			{0x41, {0xC05, 0xC07, 0xC08, 0xC09, 0xC0C, 0xC0E, 0xC0D, 0xC0F, 0xD01, 0xD04, 0xD06, 0xD02, 0xD03, 0xD05, 0xD07, 0xD08, 0xD09, 0xD0A, 0xD0B, 0xD0C, 0xD0D, 0xD0E, 0xD40, 0xD41}},
			{0x41, {0xD42, 0xD44, 0xD46, 0xD47, 0xD48, 0xD49, 0xD4A, 0xD4B, 0xD4C, 0xD4D, 0xD4E, 0xD4F, 0xD80, 0xD13, 0xB02, 0xB36, 0xB56, 0xB76, 0x920, 0x926, 0x946, 0x966, 0x720, 0xFFF}},
			{0x51, {0x00F, 0x02D, 0x04D, 0x06F, 0x201, 0x205, 0x211, 0x800, 0x801, 0x802, 0x803, 0x804, 0x805, 0xC00, 0xC01, 0x001}},
			{0x53, {0x001, 0x002, 0x003, 0x004}},
			{0x4E, {0x000, 0x003, 0x004}},
			{0x43, {0x0A0, 0x0A1, 0x0A2, 0x0A3, 0x0AF}},
			{0x42, {0x00F, 0x100, 0x516}},
			{0x48, {0xD01, 0xD40}},
			{0x50, {0x000}},
			{0x56, {0x581, 0x584}},
			{0x69, {0x210, 0x212, 0x290, 0x411, 0x688}},
		};
		for (auto& t : types) {
			auto& p = parts[ch.choose(sizeof parts / sizeof *parts)];
			u32 n = 24;
			while (n > 1 && !p.part[n - 1])
				n--;
			t.midr = p.implementer << 24 | ch.choose(4) << 20 | 0x000F0000u | p.part[ch.choose(n)] << 4 | ch.choose(4);
		}
	}
};

static void failed_to(const char* tool, const Ran& r, const char* why) {
	if (r.status == 0)
		R->violation("false-success", "%s: %s, but the tool ended with status 0", tool, why);
	else if (r.err.empty())
		R->violation("silent-failure", "%s: %s, and the tool ended with status %d without saying anything", tool, why, r.status);
}

static void report_tool(Featured& m) {
	Choices& ch = R->ch;
	static const struct { const char* name; Main main; str (*check)(const str&, const Desc&); } tools[] = {
		{"cpu-info", tool_cpu_info, check_cpu_info}, {"cache-info", tool_cache_info, check_cache_info}, {"isa-info", tool_isa_info, check_isa_info}};
	u32 k = ch.choose(3);
	auto& t = tools[k];
	if (ch.chance(1, 3)) {
		damage_files(m);
		show_files();
	}
	/* the same reads, and so the same faults, for the library alone and for the tool */
	read_pattern();
	if (E.read_mode == READ_CHOSEN)
		E.read_mode = READ_FIXED;
	Rng reads = E.read_rng;
	E.quiet_streams = true;
	Outcome ref = detect();
	if (!ref.done)
		return;
	if (ch.chance(1, 2)) {
		fault_plan(ref, {}, 3);
		E.read_rng = reads;
		ref = detect();
		if (!ref.done)
			return;
	}
	noise();
	E.read_rng = reads;
	Ran r = run_tool(t.name, t.main);
	if (R->fail.set)
		return;
	if (!r.ended) {
		R->violation("died", "%s did not end by itself", t.name);
		return;
	}
	R->nontrivial = true;
	if (!ref.ret) {
		R->probe("detection_failed");
		failed_to(t.name, r, "the library cannot be initialized");
		if (!R->fail.set && !r.out.empty())
			R->violation("made-up", "%s: the library cannot be initialized, and the tool reports '%.80s'", t.name, r.out.c_str());
		return;
	}
	if (r.status != 0) {
		R->violation("false-failure", "%s ended with status %d where the library can be initialized", t.name, r.status);
		return;
	}
	R->probe(t.name);
	str e = ref.d.broken.empty() ? t.check(r.out, ref.d) : "";
	if (!e.empty())
		R->violation("untrue", "%s: %s", t.name, e.c_str());
}

static void dump_file(Machine& m) {
	Choices& ch = R->ch;
	static const char* const path = "/proc/cpuinfo";
	str want;
	bool exists = true;
	switch (ch.weighted({6, 2, 1, 1, 1})) {
		case 0:
			want = m.whole_cpuinfo();
			break;
		case 1: { /* around the size of a buffer */
			static const u32 around[] = {4096, 8192, 1024, 2048, 65536};
			u32 n = around[ch.choose(5)] + ch.choose(5) - 2;
			Rng r(ch.choose(1 << 16));
			for (u32 i = 0; i < n; i++)
				want += (char)(r.below(8) ? 32 + r.below(95) : r.below(256));
			E.content[path] = want;
			break;
		}
		case 2:
			E.content[path] = "";
			break;
		case 3:
			want = "a\0b\0\0c\n"s;
			E.content[path] = want;
			break;
		case 4:
			E.absent.insert(path);
			exists = false;
			break;
	}
	read_pattern();
	E.allow_eof_fault = false;
	if (ch.chance(2, 3)) {
		u32 n = 1 + ch.choose(2);
		for (u32 i = 0; i < n; i++) {
			Fault f;
			f.variant = 1 + ch.choose(9);
			f.persistent = ch.chance(1, 4);
			E.fault_at[ch.skewed(20)] = f;
		}
	}
	noise();
	Ran r = run_tool("cpuinfo-dump", tool_cpuinfo_dump);
	if (R->fail.set)
		return;
	if (!r.ended) {
		R->violation("died", "cpuinfo-dump did not end by itself");
		return;
	}
	R->nontrivial = true;
	bool lost = E.stream_errors.count(1), mute = E.stream_errors.count(2);
	bool faulted = lost;
	for (auto& f : R->faults)
		if (f.first.compare(0, 5, "open:") == 0 || f.first.compare(0, 5, "read:") == 0 || f.first.compare(0, 6, "close:") == 0)
			faulted = true;
	if (!exists) {
		if (!mute)
			failed_to("cpuinfo-dump", r, "there is no such file");
	} else if (r.status == 0) {
		if (r.out != want)
			R->violation(lost ? "lost-output" : "untrue", "cpuinfo-dump ended with status 0, but printed %zu bytes of a file of %zu%s", r.out.size(), want.size(),
				r.out.size() == want.size() ? ", and not the same ones" : "");
		else
			R->probe("whole_file");
	} else {
		if (!faulted)
			R->violation("false-failure", "cpuinfo-dump ended with status %d though nothing went wrong", r.status);
		if (!mute)
			failed_to("cpuinfo-dump", r, "the file could not be copied");
		if (!lost && want.compare(0, r.out.size(), r.out) != 0)
			R->violation("untrue", "cpuinfo-dump printed %zu bytes that are not the start of the file", r.out.size());
	}
}

/* Any answers at all, within the form of the enumerating leaves. */
struct AnyCpuid : Machine {
	u64 seed = 0;
	u32 max_base = 0, max_ext = 0, subs[64], list4 = 0, list_b = 0, list12 = 0;
	bool sgx = false, named = true;
	u32 last(u32 leaf) const { return leaf == 7 || leaf == 0x14 || leaf == 0x17 || leaf == 0x24 ? subs[leaf & 63] : 0; }
	void cpuid(u32, u32 leaf, u32 sub, u32 o[4]) override {
		Rng r(seed ^ (u64)leaf << 20 ^ sub);
		for (int i = 0; i < 4; i++)
			o[i] = (u32)r.next();
		if (leaf == 0) {
			o[0] = max_base;
			for (int i = 1; i < 4; i++)
				o[i] = named ? 0x41414141u + (o[i] & 0x07070707u) : 0;
		} else if (leaf == 0x80000000u) {
			o[0] = max_ext;
			for (int i = 1; i < 4; i++)
				o[i] = named ? 0x41414141u + (o[i] & 0x07070707u) : 0;
		} else if (leaf >= 0x80000002u && leaf <= 0x80000004u) {
			for (int i = 0; i < 4; i++)
				o[i] = 0x41414141u + (o[i] & 0x07070707u);
			if (leaf == 0x80000004u)
				o[3] &= 0x00ffffffu;
		} else if (last(leaf) || leaf == 7 || leaf == 0x14 || leaf == 0x17 || leaf == 0x24) {
			if (sub == 0)
				o[0] = last(leaf);
			if (leaf == 7 && sub == 0)
				o[1] = (o[1] & ~4u) | (sgx ? 4u : 0);
		} else if (leaf == 4)
			o[0] = (o[0] & ~31u) | (sub < list4 ? 1 + o[0] % 3 : 0);
		else if (leaf == 0xB)
			o[2] = (o[2] & ~0xff00u) | (sub < list_b ? (1 + o[2] % 5) << 8 : 0);
		else if (leaf == 0x12 && sub >= 2)
			o[0] = (o[0] & ~15u) | (sub < 2 + list12 ? 1 : 0);
	}
};

static void dump_cpuid() {
	Choices& ch = R->ch;
	AnyCpuid m;
	E.world = &m;
	m.arch = ARCH_X86;
	m.cpus.resize(1);
	m.seed = ch.choose(1 << 30);
	m.max_base = ch.chance(1, 2) ? 0x24 : ch.choose(0x29);
	m.max_ext = ch.chance(1, 6) ? 0 : 0x80000000u + (ch.chance(1, 2) ? 8 : ch.choose(0x24));
	for (auto& s : m.subs)
		s = ch.skewed(5);
	m.list4 = ch.choose(6);
	m.list_b = ch.choose(4);
	m.list12 = ch.choose(3);
	m.sgx = ch.chance(1, 2);
	m.named = !ch.chance(1, 6);
	finish(m);
	noise();
	E.quiet_streams = true;
	Ran r = run_tool("cpuid-dump", tool_cpuid_dump);
	if (R->fail.set)
		return;
	if (!r.ended || r.status != 0) {
		R->violation("died", "cpuid-dump ended with status %d", r.status);
		return;
	}
	R->nontrivial = true;
	/* what has to be there */
	std::vector<str> want;
	auto add = [&](u32 leaf, u32 sub, int form) {
		u32 o[4];
		m.cpuid(0, leaf, sub, o);
		str l = sfmt("CPUID %08X: %08X-%08X-%08X-%08X", leaf, o[0], o[1], o[2], o[3]);
		char text[17] = {0};
		if (form == 1)
			l += sfmt(" [SL %02X]", sub);
		else if (form == 2 && m.named) {
			memcpy(text, &o[1], 4);
			memcpy(text + 4, &o[3], 4);
			memcpy(text + 8, &o[2], 4);
			l += sfmt(" [%.12s]", text);
		} else if (form == 3) {
			memcpy(text, o, 16);
			l += sfmt(" [%.16s]", text);
		}
		want.push_back(l);
	};
	for (u32 leaf = 0; leaf <= m.max_base; leaf++) {
		u32 n = 0;
		switch (leaf) {
			case 0: add(0, 0, 2); continue;
			case 4: n = m.list4; break;
			case 0xB: n = m.list_b; break;
			case 0x12: n = m.max_base >= 7 && m.sgx ? 2 + m.list12 : 0; break;
			case 7: case 0x14: case 0x17: case 0x24: n = m.last(leaf) + 1; break;
			default: add(leaf, 0, 0); continue;
		}
		for (u32 s = 0; s < n; s++)
			add(leaf, s, 1);
	}
	for (u32 leaf = 0x80000000u; leaf <= m.max_ext; leaf++)
		add(leaf, 0, leaf == 0x80000000u ? 2 : leaf >= 0x80000002u && leaf <= 0x80000004u ? 3 : 0);
	Reader rd(r.out);
	for (auto& l : want)
		rd.line(l);
	rd.end();
	if (!rd.error.empty()) {
		size_t i = rd.error.find("the library says");
		if (i != str::npos)
			rd.error.replace(i, 16, "the processor says");
		R->violation("untrue", "cpuid-dump: %s", rd.error.c_str());
	}
}

static void dump_auxv(Machine& m) {
	Choices& ch = R->ch;
	E.quiet_streams = true;
	if (ch.chance(1, 4))
		E.dead_calls.insert("dlopen:libc.so");
	if (ch.chance(1, 4))
		E.dead_calls.insert("dlsym:getauxval");
	if (ch.chance(1, 4))
		E.fault_at[ch.choose(2)].variant = 1;
	noise();
	Ran r = run_tool("auxv-dump", tool_auxv_dump);
	if (R->fail.set)
		return;
	if (!r.ended) {
		R->violation("died", "auxv-dump did not end by itself");
		return;
	}
	R->nontrivial = true;
	bool can = obs_os == OS_ANDROID && E.dead_calls.empty() && E.faulted_calls.empty();
	if (!can) {
		if (r.status == 0 && obs_os != OS_ANDROID && !r.out.empty())
			can = true; /* found another way to ask */
		else {
			failed_to("auxv-dump", r, "getauxval cannot be found");
			return;
		}
	}
	std::vector<str> want = {sfmt("AT_HWCAP = 0x%08lX", (unsigned long)m.hwcap)};
	if (obs_arch == ARCH_ARM32)
		want.push_back(sfmt("AT_HWCAP2 = 0x%08lX", (unsigned long)m.hwcap2));
	if (r.status != 0 || lines_of(r.out) != want)
		R->violation("untrue", "auxv-dump ended with status %d and printed '%.120s', the system says '%s'", r.status, r.out.c_str(), want[0].c_str());
	else
		R->probe("auxv");
}

void c26() {
	Choices& ch = R->ch;
	if (!tool_cpu_info)
		return;
	u32 kind = ch.weighted({6, 3, tool_cpuid_dump ? 3u : 0, tool_auxv_dump ? 1u : 0});
	sched_configure(false);
	if (kind == 2) {
		dump_cpuid();
		return;
	}
	Featured m;
	E.world = &m;
	GenOpts go;
	go.max_cpus = 16;
	generate(m, (Arch)obs_arch, go);
	if (ch.chance(2, 3))
		m.vary();
	place_threads(m);
	finish(m);
	if (kind == 0)
		report_tool(m);
	else if (kind == 1)
		dump_file(m);
	else
		dump_auxv(m);
}
