#include "observe.h"

#include <algorithm>
#include <initializer_list>
#include "prelude.h"

#include <cpuinfo.h>

const int obs_arch = SIM_PERSONALITY;
const int obs_os = SIM_OS;
const bool obs_phone = SIM_IPHONE;

extern "C" bool lib_initialize() { return cpuinfo_initialize(); }
extern "C" void lib_deinitialize() { cpuinfo_deinitialize(); }

#define C(n) {#n, Q_COUNT, [](u32) -> u64 { return cpuinfo_get_##n(); }}
#define TB(n) {#n, Q_TABLE, [](u32) -> u64 { return (u64)(uintptr_t)cpuinfo_get_##n(); }}
#define EL(n) {#n, Q_ELEM, [](u32 i) -> u64 { return (u64)(uintptr_t)cpuinfo_get_##n(i); }}
const std::vector<Query> queries = {
	C(processors_count), C(cores_count), C(clusters_count), C(packages_count), C(uarchs_count),
	C(l1i_caches_count), C(l1d_caches_count), C(l2_caches_count), C(l3_caches_count), C(l4_caches_count),
	C(max_cache_size),
	TB(processors), TB(cores), TB(clusters), TB(packages), TB(uarchs),
	TB(l1i_caches), TB(l1d_caches), TB(l2_caches), TB(l3_caches), TB(l4_caches),
	EL(processor), EL(core), EL(cluster), EL(package), EL(uarch),
	EL(l1i_cache), EL(l1d_cache), EL(l2_cache), EL(l3_cache), EL(l4_cache),
	{"current_processor", Q_CURRENT, [](u32) -> u64 { return (u64)(uintptr_t)cpuinfo_get_current_processor(); }},
	{"current_core", Q_CURRENT, [](u32) -> u64 { return (u64)(uintptr_t)cpuinfo_get_current_core(); }},
	{"current_uarch_index", Q_CURRENT, [](u32) -> u64 { return cpuinfo_get_current_uarch_index(); }},
	{"current_uarch_index_with_default", Q_CURRENT, [](u32 d) -> u64 { return cpuinfo_get_current_uarch_index_with_default(d); }},
};

static const struct { const char* name; u32 (*call)(); } isa[] = {
#define ISA(n) {#n, []() -> u32 { return (u32)n(); }},
#include "isa_queries.inc"
#undef ISA
};

#define VENDOR(n) {#n, (u32)cpuinfo_vendor_##n},
#define UARCH(n) {#n, (u32)cpuinfo_uarch_##n},
const std::vector<NamedValue> vendor_names = {
#include "vendors.inc"
};
const std::vector<NamedValue> uarch_names = {
#include "uarchs.inc"
};

std::vector<u32> observe_isa() {
	std::vector<u32> v;
	for (auto& q : isa)
		v.push_back(q.call());
	return v;
}

const char* isa_name(u32 i) { return isa[i].name; }

template <class S>
static int index_of(const S* p, const S* base, u32 n) {
	if (!p)
		return -1;
	uintptr_t a = (uintptr_t)p, b = (uintptr_t)base;
	if (!base || a < b || (a - b) % sizeof(S) || (a - b) / sizeof(S) >= n)
		return -2;
	return (int)((a - b) / sizeof(S));
}

int processor_index(u64 p, const Desc& d) {
	return index_of((const cpuinfo_processor*)p, (const cpuinfo_processor*)(d.raw.empty() ? 0 : d.raw[0]), (u32)d.procs.size());
}
int core_index(u64 p, const Desc& d) {
	return index_of((const cpuinfo_core*)p, (const cpuinfo_core*)(d.raw.size() < 2 ? 0 : d.raw[1]), (u32)d.cores.size());
}

template <class S>
static void check_elements(Desc& d, const char* what, const S* table, u32 n, const S* (*get)(u32)) {
	if (n && !table) {
		d.broken = sfmt("%s: %u elements but no table", what, n);
		return;
	}
	for (u32 i = 0; i < n; i++)
		if (get(i) != table + i) {
			d.broken = sfmt("%s: element query %u does not return the table's element", what, i);
			return;
		}
	for (u32 i : {n, n + 1, 0x7fffffffu, 0xffffffffu})
		if (i >= n && get(i)) {
			d.broken = sfmt("%s: element query returned something for index %u beyond count %u", what, i, n);
			return;
		}
}

#if SIM_PERSONALITY == 1
#define HWID(x) ((x).cpuid)
#elif SIM_PERSONALITY == 2 || SIM_PERSONALITY == 3
#define HWID(x) ((x).midr)
#else
#define HWID(x) 0
#endif

Desc observe() {
	Desc d;
	u32 np = cpuinfo_get_processors_count(), nc = cpuinfo_get_cores_count(), ncl = cpuinfo_get_clusters_count(),
	    npk = cpuinfo_get_packages_count(), nu = cpuinfo_get_uarchs_count();
	auto P = cpuinfo_get_processors();
	auto CO = cpuinfo_get_cores();
	auto CL = cpuinfo_get_clusters();
	auto PK = cpuinfo_get_packages();
	auto U = cpuinfo_get_uarchs();
	u32 nk[5] = {cpuinfo_get_l1i_caches_count(), cpuinfo_get_l1d_caches_count(), cpuinfo_get_l2_caches_count(), cpuinfo_get_l3_caches_count(), cpuinfo_get_l4_caches_count()};
	const cpuinfo_cache* K[5] = {cpuinfo_get_l1i_caches(), cpuinfo_get_l1d_caches(), cpuinfo_get_l2_caches(), cpuinfo_get_l3_caches(), cpuinfo_get_l4_caches()};
	check_elements(d, "processors", P, np, cpuinfo_get_processor);
	check_elements(d, "cores", CO, nc, cpuinfo_get_core);
	check_elements(d, "clusters", CL, ncl, cpuinfo_get_cluster);
	check_elements(d, "packages", PK, npk, cpuinfo_get_package);
	check_elements(d, "uarchs", U, nu, cpuinfo_get_uarch);
	static const cpuinfo_cache* (*const kg[5])(u32) = {cpuinfo_get_l1i_cache, cpuinfo_get_l1d_cache, cpuinfo_get_l2_cache, cpuinfo_get_l3_cache, cpuinfo_get_l4_cache};
	static const char* const kn[5] = {"l1i_caches", "l1d_caches", "l2_caches", "l3_caches", "l4_caches"};
	for (int k = 0; k < 5; k++)
		check_elements(d, kn[k], K[k], nk[k], kg[k]);
	d.raw = {(u64)(uintptr_t)P, (u64)(uintptr_t)CO, (u64)(uintptr_t)CL, (u64)(uintptr_t)PK, (u64)(uintptr_t)U};
	for (int k = 0; k < 5; k++)
		d.raw.push_back((u64)(uintptr_t)K[k]);
	d.max_cache = cpuinfo_get_max_cache_size();
	d.isa = observe_isa();
	d.valid = true;
	if (!d.broken.empty() && (!P || !CO || !CL || !PK || !U))
		return d;
	for (u32 i = 0; P && i < np; i++) {
		const cpuinfo_processor& p = P[i];
		DProc x;
		x.smt = p.smt_id;
		x.core = index_of(p.core, CO, nc);
		x.cluster = index_of(p.cluster, CL, ncl);
		x.package = index_of(p.package, PK, npk);
#if SIM_OS == 0 || SIM_OS == 5
		x.linux_id = p.linux_id;
#elif SIM_OS == 3
		x.linux_id = p.windows_group_id << 8 | p.windows_processor_id;
#else
		x.linux_id = (int)i;
#endif
#if SIM_PERSONALITY == 1
		x.apic = p.apic_id;
#else
		x.apic = 0;
#endif
		const cpuinfo_cache* c[5] = {p.cache.l1i, p.cache.l1d, p.cache.l2, p.cache.l3, p.cache.l4};
		for (int k = 0; k < 5; k++)
			x.cache[k] = index_of(c[k], K[k], nk[k]);
		d.procs.push_back(x);
	}
	for (u32 i = 0; CO && i < nc; i++) {
		const cpuinfo_core& c = CO[i];
		d.cores.push_back({c.processor_start, c.processor_count, c.core_id, index_of(c.cluster, CL, ncl), index_of(c.package, PK, npk),
			(u32)c.vendor, (u32)c.uarch, HWID(c), c.frequency});
	}
	for (u32 i = 0; CL && i < ncl; i++) {
		const cpuinfo_cluster& c = CL[i];
		d.clusters.push_back({c.processor_start, c.processor_count, c.core_start, c.core_count, c.cluster_id, index_of(c.package, PK, npk),
			(u32)c.vendor, (u32)c.uarch, HWID(c), c.frequency});
	}
	for (u32 i = 0; PK && i < npk; i++) {
		const cpuinfo_package& p = PK[i];
		size_t n = strnlen(p.name, sizeof p.name);
		d.packages.push_back({str(p.name, n), n < sizeof p.name, p.processor_start, p.processor_count, p.core_start, p.core_count, p.cluster_start, p.cluster_count});
	}
	for (u32 i = 0; U && i < nu; i++)
		d.uarchs.push_back({(u32)U[i].uarch, HWID(U[i]), U[i].processor_count, U[i].core_count});
	for (int k = 0; k < 5; k++)
		for (u32 i = 0; K[k] && i < nk[k]; i++) {
			const cpuinfo_cache& c = K[k][i];
			d.cache[k].push_back({c.size, c.associativity, c.sets, c.partitions, c.line_size, c.flags, c.processor_start, c.processor_count});
		}
	return d;
}

str Desc::text() const {
	str s;
	for (auto& p : procs)
		s += sfmt("processor linux=%d smt=%u core=%d cluster=%d package=%d apic=%u caches=%d/%d/%d/%d/%d\n", p.linux_id, p.smt, p.core, p.cluster, p.package, p.apic,
			p.cache[0], p.cache[1], p.cache[2], p.cache[3], p.cache[4]);
	for (auto& c : cores)
		s += sfmt("core p=%u+%u id=%u cluster=%d package=%d vendor=%u uarch=%x hw=%x freq=%llu\n", c.pstart, c.pcount, c.core_id, c.cluster, c.package, c.vendor, c.uarch, c.id, (unsigned long long)c.freq);
	for (auto& c : clusters)
		s += sfmt("cluster p=%u+%u c=%u+%u id=%u package=%d vendor=%u uarch=%x hw=%x freq=%llu\n", c.pstart, c.pcount, c.cstart, c.ccount, c.cluster_id, c.package, c.vendor, c.uarch, c.id, (unsigned long long)c.freq);
	for (auto& p : packages)
		s += sfmt("package \"%s\" p=%u+%u c=%u+%u cl=%u+%u\n", p.name.c_str(), p.pstart, p.pcount, p.cstart, p.ccount, p.clstart, p.clcount);
	for (auto& u : uarchs)
		s += sfmt("uarch %x hw=%x p=%u c=%u\n", u.uarch, u.id, u.pcount, u.ccount);
	for (int k = 0; k < 5; k++)
		for (auto& c : cache[k])
			s += sfmt("cache%d size=%u assoc=%u sets=%u part=%u line=%u flags=%x p=%u+%u\n", k, c.size, c.assoc, c.sets, c.partitions, c.line, c.flags, c.pstart, c.pcount);
	s += sfmt("max_cache %u\n", max_cache);
	s += "isa ";
	for (u32 v : ::std::vector<u32>(isa))
		s += v > 1 ? sfmt("(%u)", v) : v ? "1" : "0";
	s += "\n";
	if (!broken.empty())
		s += "broken: " + broken + "\n";
	return s;
}

u64 Desc::hash() const {
	str t = text();
	return fnv(t.data(), t.size());
}

str diff(const Desc& a, const Desc& b, bool raw) {
	str x = a.text(), y = b.text();
	if (x != y) {
		size_t i = 0, j = 0;
		while (i < x.size() || j < y.size()) {
			size_t e = x.find('\n', i), f = y.find('\n', j);
			str l = e == str::npos ? "(end)" : x.substr(i, e - i), m = f == str::npos ? "(end)" : y.substr(j, f - j);
			if (l != m)
				return sfmt("'%.300s' became '%.300s'", l.c_str(), m.c_str());
			i = e + 1;
			j = f + 1;
		}
	}
	if (raw && a.raw != b.raw)
		return "address of a table changed";
	return "";
}
