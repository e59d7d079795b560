#include "oracle.h"
#include <algorithm>

bool same_partition(const std::vector<u64>& a, const std::vector<u64>& b) {
	std::map<u64, u64> f, g;
	for (size_t i = 0; i < a.size(); i++) {
		auto x = f.emplace(a[i], b[i]);
		if (x.first->second != b[i])
			return false;
		auto y = g.emplace(b[i], a[i]);
		if (y.first->second != a[i])
			return false;
	}
	return true;
}

/* range [start, start+count) must be exactly the elements i with owner[i] == self */
static str range_is(const char* what, size_t self, u64 start, u64 count, const std::vector<int>& owner) {
	if (count == 0)
		return sfmt("%s %zu covers nothing", what, self);
	if (start + count > owner.size())
		return sfmt("%s %zu: range %llu+%llu exceeds the %zu elements of the table", what, self, (unsigned long long)start, (unsigned long long)count, owner.size());
	for (size_t i = 0; i < owner.size(); i++) {
		bool in = i >= start && i < start + count;
		bool back = owner[i] == (int)self;
		if (in != back)
			return sfmt("%s %zu: range %llu+%llu, but element %zu %s it", what, self, (unsigned long long)start, (unsigned long long)count, i,
				back ? "outside the range points to" : "inside the range does not point to");
	}
	return "";
}

str check_consistent(const Desc& d) {
	if (!d.broken.empty())
		return d.broken;
	if (d.procs.empty())
		return "no processors reported after successful initialization";
	if (d.cores.empty() || d.clusters.empty() || d.packages.empty() || d.uarchs.empty())
		return "empty table of cores, clusters, packages or microarchitectures";
	std::set<int> ids;
	std::vector<int> pc, pcl, pp, cc, cp, clp;
	for (size_t i = 0; i < d.procs.size(); i++) {
		auto& p = d.procs[i];
		if (p.core < 0 || p.cluster < 0 || p.package < 0)
			return sfmt("processor %zu: core/cluster/package pointer is not an element (%d/%d/%d)", i, p.core, p.cluster, p.package);
		for (int k = 0; k < 5; k++)
			if (p.cache[k] == -2)
				return sfmt("processor %zu: cache pointer %d is not an element", i, k);
		if (p.linux_id < 0 || !ids.insert(p.linux_id).second)
			return sfmt("processor %zu: Linux number %d is negative or repeated", i, p.linux_id);
		pc.push_back(p.core);
		pcl.push_back(p.cluster);
		pp.push_back(p.package);
	}
	for (size_t i = 0; i < d.cores.size(); i++) {
		auto& c = d.cores[i];
		if (c.cluster < 0 || c.package < 0)
			return sfmt("core %zu: cluster/package pointer is not an element (%d/%d)", i, c.cluster, c.package);
		cc.push_back(c.cluster);
		cp.push_back(c.package);
	}
	for (size_t i = 0; i < d.clusters.size(); i++) {
		if (d.clusters[i].package < 0)
			return sfmt("cluster %zu: package pointer is not an element", i);
		clp.push_back(d.clusters[i].package);
	}
	for (size_t i = 0; i < d.procs.size(); i++) {
		auto& p = d.procs[i];
		if (d.cores[(size_t)p.core].cluster != p.cluster || d.cores[(size_t)p.core].package != p.package)
			return sfmt("processor %zu and its core disagree about cluster or package", i);
		if (d.clusters[(size_t)p.cluster].package != p.package)
			return sfmt("processor %zu and its cluster disagree about the package", i);
	}
	for (size_t i = 0; i < d.cores.size(); i++)
		if (d.clusters[(size_t)d.cores[i].cluster].package != d.cores[i].package)
			return sfmt("core %zu and its cluster disagree about the package", i);
	str e;
	for (size_t i = 0; i < d.cores.size(); i++)
		if (!(e = range_is("processors of core", i, d.cores[i].pstart, d.cores[i].pcount, pc)).empty())
			return e;
	for (size_t i = 0; i < d.clusters.size(); i++) {
		auto& c = d.clusters[i];
		if (!(e = range_is("processors of cluster", i, c.pstart, c.pcount, pcl)).empty())
			return e;
		if (!(e = range_is("cores of cluster", i, c.cstart, c.ccount, cc)).empty())
			return e;
	}
	for (size_t i = 0; i < d.clusters.size(); i++) {
		auto& c = d.clusters[i];
		bool same = false;
		for (u32 j = c.cstart; j < c.cstart + c.ccount; j++)
			same |= d.cores[j].vendor == c.vendor && d.cores[j].uarch == c.uarch && d.cores[j].id == c.id;
		if (!same)
			return sfmt("cluster %zu: vendor, microarchitecture and identification (%u, 0x%x, 0x%x) are not those of any of its cores", i, c.vendor, c.uarch, c.id);
	}
	for (size_t i = 0; i < d.packages.size(); i++) {
		auto& p = d.packages[i];
		if (!p.terminated)
			return sfmt("package %zu: name is not terminated", i);
		if (!(e = range_is("processors of package", i, p.pstart, p.pcount, pp)).empty())
			return e;
		if (!(e = range_is("cores of package", i, p.cstart, p.ccount, cp)).empty())
			return e;
		if (!(e = range_is("clusters of package", i, p.clstart, p.clcount, clp)).empty())
			return e;
	}
	static const char* const kn[] = {"l1i cache", "l1d cache", "l2 cache", "l3 cache", "l4 cache"};
	for (int k = 0; k < 5; k++) {
		std::vector<int> own;
		for (auto& p : d.procs)
			own.push_back(p.cache[k]);
		for (size_t j = 0; j < d.cache[k].size(); j++)
			if (!(e = range_is(kn[k], j, d.cache[k][j].pstart, d.cache[k][j].pcount, own)).empty())
				return e;
	}
	/* microarchitecture totals */
	std::map<u32, u64> up, uc, lp, lc;
	for (auto& p : d.procs)
		up[d.cores[(size_t)p.core].uarch]++;
	for (auto& c : d.cores)
		uc[c.uarch]++;
	for (auto& u : d.uarchs) {
		lp[u.uarch] += u.pcount;
		lc[u.uarch] += u.ccount;
	}
	for (auto& u : d.uarchs)
		if (std::none_of(d.cores.begin(), d.cores.end(), [&](const DCore& c) { return c.uarch == u.uarch && c.id == u.id; }))
			return sfmt("microarchitecture 0x%x with identification 0x%x is listed, and no core is of that kind", u.uarch, u.id);
	if (up != lp)
		return "processor totals of the microarchitecture list disagree with the processors";
	if (uc != lc)
		return "core totals of the microarchitecture list disagree with the cores";
	u32 biggest = 0;
	const DProc& p0 = d.procs[0];
	for (int k = 1; k < 5; k++)
		if (p0.cache[k] >= 0)
			biggest = std::max(biggest, d.cache[k][(size_t)p0.cache[k]].size);
	if (d.max_cache < biggest)
		return sfmt("largest-cache value %u is below the size %u of a cache of the first processor", d.max_cache, biggest);
	return "";
}

/* truth labels of the reported processors */
struct Rows {
	std::vector<const Cpu*> cpu;
	std::vector<const DProc*> proc;
};

static str match(const Desc& d, const Machine& m, Rows& r, bool offline_reported = false) {
	std::map<u32, const DProc*> by;
	for (auto& p : d.procs) {
		if (!by.emplace((u32)p.linux_id, &p).second)
			return sfmt("processor with Linux number %d reported twice", p.linux_id);
		const Cpu* c = m.by_id((u32)p.linux_id);
		if (!c || !c->present)
			return sfmt("processor %d is reported but not present", p.linux_id);
		if (!c->online && !offline_reported)
			return sfmt("processor %d is reported but offline", p.linux_id);
	}
	for (auto& c : m.cpus) {
		if (!c.online && !(offline_reported && c.present))
			continue;
		auto it = by.find(c.id);
		if (it == by.end())
			return sfmt("processor %u is %s but not reported", c.id, c.online ? "online" : "present");
		if (!c.online)
			continue;
		r.cpu.push_back(&c);
		r.proc.push_back(it->second);
	}
	return "";
}

template <class F, class G>
static str partition(const char* what, const Rows& r, F truth, G table) {
	std::vector<u64> a, b;
	for (size_t i = 0; i < r.cpu.size(); i++) {
		a.push_back((u64)truth(*r.cpu[i]));
		b.push_back((u64)table(*r.proc[i]));
	}
	if (same_partition(a, b))
		return "";
	for (size_t i = 0; i < a.size(); i++)
		for (size_t j = i + 1; j < a.size(); j++)
			if ((a[i] == a[j]) != (b[i] == b[j]))
				return sfmt("processors %u and %u %s a %s in the hardware but %s in the tables", r.cpu[i]->id, r.cpu[j]->id,
					a[i] == a[j] ? "share" : "do not share", what, b[i] == b[j] ? "do" : "do not");
	return sfmt("%s grouping differs", what);
}

str check_truth_x86(const Desc& d, const Machine& m) {
	Rows r;
	str e = match(d, m, r);
	if (!e.empty())
		return e;
	for (size_t i = 0; i < r.cpu.size(); i++)
		if (r.proc[i]->apic != r.cpu[i]->apic)
			return sfmt("processor %u has APIC ID %u, reported as %u", r.cpu[i]->id, r.cpu[i]->apic, r.proc[i]->apic);
	if (!(e = partition("package", r, [](const Cpu& c) { return c.pkg; }, [](const DProc& p) { return p.package; })).empty())
		return e;
	if (!(e = partition("core", r, [](const Cpu& c) { return c.core; }, [](const DProc& p) { return p.core; })).empty())
		return e;
	if (!(e = partition("cluster", r, [](const Cpu& c) { return c.cluster; }, [](const DProc& p) { return p.cluster; })).empty())
		return e;
	/* hardware threads of one core are told apart */
	std::set<std::pair<int, u32>> smt;
	for (auto& p : d.procs)
		if (!smt.insert({p.core, p.smt}).second)
			return sfmt("two processors of core %d have SMT number %u", p.core, p.smt);
	static const char* const kn[] = {"L1 instruction cache", "L1 data cache", "L2 cache", "L3 cache", "L4 cache"};
	for (int k = 0; k < 5; k++) {
		const CacheSpec& s = m.cache[k];
		if (!s.exists) {
			if (!d.cache[k].empty())
				return sfmt("%s reported but the hardware has none", kn[k]);
			continue;
		}
		for (auto p : r.proc)
			if (p->cache[k] < 0)
				return sfmt("processor %d has no %s", p->linux_id, kn[k]);
		if (!(e = partition(kn[k], r, [&](const Cpu& c) { return (u64)c.apic >> s.share_bits; }, [&](const DProc& p) { return p.cache[k]; })).empty())
			return e;
		for (auto& c : d.cache[k]) {
			u32 want = (s.type == 3 ? 1u : 0) | (s.inclusive ? 2u : 0) | (s.complex_indexing ? 4u : 0);
			if (c.size != s.size() || c.assoc != s.ways || c.sets != s.sets || c.partitions != s.partitions || c.line != s.line)
				return sfmt("%s geometry %u bytes %u ways %u sets %u partitions %u line, hardware has %u/%u/%u/%u/%u", kn[k], c.size, c.assoc, c.sets, c.partitions, c.line,
					s.size(), s.ways, s.sets, s.partitions, s.line);
			if (c.flags != want)
				return sfmt("%s flags 0x%x, hardware has 0x%x", kn[k], c.flags, want);
		}
	}
	for (auto& c : d.cores)
		if (c.vendor != (m.amd ? 2u : 1u) || c.id != m.signature)
			return sfmt("core vendor %u signature 0x%x, hardware has %u 0x%x", c.vendor, c.id, m.amd ? 2u : 1u, m.signature);
	return check_names_x86(d, m);
}

str check_names_x86(const Desc& d, const Machine& m) {
	static const struct { u32 signature, uarch; } t[] = {
		{0x000506E3, 0x0010020A}, {0x000306C3, 0x00100208}, {0x000606A6, 0x0010020C}, {0x000206A7, 0x00100206},
		{0x00830F10, 0x0020010A}, {0x00800F11, 0x00200109}, {0x00A20F10, 0x0020010B}, {0x00600F20, 0x00200106}};
	for (auto& x : t)
		if (x.signature == m.signature)
			for (auto& c : d.cores)
				if (c.uarch != x.uarch)
					return sfmt("core with signature 0x%x is of kind 0x%x, expected 0x%x", m.signature, c.uarch, x.uarch);
	for (auto& p : d.packages)
		if (p.name != m.package_name)
			return sfmt("package is called '%s', '%s' should be '%s'", p.name.c_str(), m.brand.c_str(), m.package_name.c_str());
	return "";
}

u32 arm_uarch(u32 midr) {
	static const struct { u32 part, uarch; } t[] = {
		{0xC07, 0x00300207}, {0xC09, 0x00300209}, {0xC0E, 0x00300217}, {0xC0F, 0x00300215}, {0xD03, 0x00300353}, {0xD04, 0x00300335},
		{0xD07, 0x00300357}, {0xD08, 0x00300372}, {0xD09, 0x00300373}, {0xD0A, 0x00300375}, {0xD0B, 0x00300376}, {0xD0C, 0x00300400},
		{0xD0D, 0x00300377}, {0xD40, 0x00300402}, {0xD41, 0x00300378}, {0xD44, 0x00300501}, {0xD46, 0x00300551}, {0xD47, 0x00300571}, {0xD48, 0x00300502}};
	u32 part = midr >> 4 & 0xfff;
	if (part == 0xD05)
		return midr >> 20 & 15 ? 0x00300355 : 0x00300354;
	for (auto& x : t)
		if (x.part == part)
			return x.uarch;
	return 0;
}

str check_truth_arm(const Desc& d, const Machine& m) {
	Rows r;
	str e = match(d, m, r, true);
	if (!e.empty())
		return e;
	if (d.cores.size() != d.procs.size())
		return sfmt("%zu cores for %zu processors", d.cores.size(), d.procs.size());
	if (!(e = partition("core", r, [](const Cpu& c) { return c.id; }, [](const DProc& p) { return p.core; })).empty())
		return e;
	/* Types and clusters of offline processors can only be guessed: they take part in the totals, by the type the tables
	 * give them, but not in the comparison with the hardware. */
	std::map<u32, u32> count;
	for (auto& c : d.cores)
		count[c.uarch]++;
	for (size_t i = 0; i < r.cpu.size(); i++) {
		const CoreType& t = m.types[m.old_style ? 0 : r.cpu[i]->type];
		const DCore& c = d.cores[(size_t)r.proc[i]->core];
		if (c.id != t.midr)
			return sfmt("processor %u: MIDR 0x%08x reported, hardware has 0x%08x", r.cpu[i]->id, c.id, t.midr);
		if (c.vendor != 3)
			return sfmt("processor %u: vendor %u reported for an ARM core", r.cpu[i]->id, c.vendor);
		if (c.uarch != arm_uarch(t.midr))
			return sfmt("processor %u: microarchitecture 0x%x reported, hardware has 0x%x", r.cpu[i]->id, c.uarch, arm_uarch(t.midr));
	}
	if (!(e = partition("cluster", r, [](const Cpu& c) { return c.cluster; }, [](const DProc& p) { return p.cluster; })).empty())
		return e;
	for (size_t i = 0; i < r.cpu.size(); i++)
		for (int k = 0; k < 2; k++) {
			int j = r.proc[i]->cache[k];
			if (j < 0)
				return sfmt("processor %u has no level 1 cache", r.cpu[i]->id);
			if (d.cache[k][(size_t)j].pcount != 1 || (size_t)d.cache[k][(size_t)j].pstart != (size_t)(r.proc[i] - d.procs.data()))
				return sfmt("level 1 cache of processor %u covers %u+%u", r.cpu[i]->id, d.cache[k][(size_t)j].pstart, d.cache[k][(size_t)j].pcount);
		}
	if (d.uarchs.size() != count.size())
		return sfmt("%zu microarchitectures listed, the cores have %zu", d.uarchs.size(), count.size());
	for (auto& u : d.uarchs)
		if (!count.count(u.uarch) || u.pcount != count[u.uarch] || u.ccount != count[u.uarch])
			return sfmt("microarchitecture 0x%x listed with %u processors %u cores, the core table has %u", u.uarch, u.pcount, u.ccount, count.count(u.uarch) ? count[u.uarch] : 0);
	return "";
}

str check_truth_riscv(const Desc& d, const Machine& m) {
	Rows r;
	str e = match(d, m, r);
	if (!e.empty())
		return e;
	if (!(e = partition("package", r, [](const Cpu& c) { return c.pkg; }, [](const DProc& p) { return p.package; })).empty())
		return e;
	if (!(e = partition("cluster", r, [](const Cpu& c) { return c.cluster; }, [](const DProc& p) { return p.cluster; })).empty())
		return e;
	if (!(e = partition("core", r, [](const Cpu& c) { return c.core; }, [](const DProc& p) { return p.core; })).empty())
		return e;
	return check_consistent(d);
}

str check_arm_caches(const Desc& d, const Machine& m, const L1Told& told) {
	size_t n = d.procs.size();
	bool all_l3 = true;
	std::set<int> guessed; /* clusters with processors of which /proc/cpuinfo says nothing */
	for (auto& c : m.cpus)
		for (auto& p : d.procs)
			if ((u32)p.linux_id == c.id && !c.online)
				guessed.insert(p.cluster);
	std::set<u32> l3_sizes;
	for (size_t i = 0; i < n; i++) {
		const DProc& p = d.procs[i];
		const DCluster& cl = d.clusters[(size_t)p.cluster];
		const DCache* c[5];
		for (int k = 0; k < 5; k++)
			c[k] = p.cache[k] < 0 ? nullptr : &d.cache[k][(size_t)p.cache[k]];
		for (int k = 0; k < 2; k++) {
			if (!c[k])
				return sfmt("processor %d has no level 1 cache", p.linux_id);
			if (c[k]->pstart != i || c[k]->pcount != 1)
				return sfmt("level 1 cache of processor %d covers %u+%u", p.linux_id, c[k]->pstart, c[k]->pcount);
			auto t = told.find({(u32)p.linux_id, k});
			if (t == told.end())
				continue;
			auto& w = t->second;
			if (c[k]->size != w[0] || c[k]->assoc != w[1] || c[k]->line != w[2] || c[k]->sets != w[3])
				return sfmt("processor %d: level 1 %s cache of %u bytes, %u ways, lines of %u, %u sets reported, /proc/cpuinfo says %u, %u, %u, %u", p.linux_id,
					k ? "data" : "instruction", c[k]->size, c[k]->assoc, c[k]->line, c[k]->sets, w[0], w[1], w[2], w[3]);
		}
		if (c[4])
			return sfmt("processor %d has a level 4 cache", p.linux_id);
		if (c[3]) {
			l3_sizes.insert(c[3]->size);
			if (!c[2])
				return sfmt("processor %d has a level 3 cache and no level 2 cache", p.linux_id);
			if (c[2]->pstart != i || c[2]->pcount != 1)
				return sfmt("processor %d has a level 3 cache, but its level 2 cache covers %u+%u", p.linux_id, c[2]->pstart, c[2]->pcount);
			bool cluster = c[3]->pstart == cl.pstart && c[3]->pcount == cl.pcount, all = c[3]->pstart == 0 && c[3]->pcount == n;
			if (!cluster && !all)
				return sfmt("level 3 cache of processor %d covers %u+%u, neither its cluster nor all", p.linux_id, c[3]->pstart, c[3]->pcount);
		} else {
			all_l3 = false;
			if (c[2] && (c[2]->pstart != cl.pstart || c[2]->pcount != cl.pcount))
				return sfmt("level 2 cache of processor %d covers %u+%u, its cluster is %u+%u", p.linux_id, c[2]->pstart, c[2]->pcount, cl.pstart, cl.pcount);
		}
		for (int k = 0; k < 4; k++) {
			if (!c[k])
				continue;
			if (told.count({(u32)p.linux_id, k}))
				continue;
			if (!c[k]->size || c[k]->size != c[k]->assoc * c[k]->sets * c[k]->partitions * c[k]->line)
				return sfmt("level %d cache of processor %d: %u bytes are not %u ways of %u sets of %u partitions of lines of %u", k ? k : 1, p.linux_id, c[k]->size, c[k]->assoc,
					c[k]->sets, c[k]->partitions, c[k]->line);
			/* others of the same kind are alike */
			for (size_t j = 0; j < i; j++) {
				const DProc& q = d.procs[j];
				if (q.cache[k] < 0 || told.count({(u32)q.linux_id, k}) || d.cores[(size_t)q.core].id != d.cores[(size_t)p.core].id)
					continue;
				if (q.cluster != p.cluster && (!m.hardware.empty() || m.old_style || guessed.count(p.cluster) || guessed.count(q.cluster) || d.clusters[(size_t)q.cluster].pcount != cl.pcount))
					continue;
				const DCache& o = d.cache[k][(size_t)q.cache[k]];
				if (o.size != c[k]->size || o.assoc != c[k]->assoc || o.line != c[k]->line || o.sets != c[k]->sets || o.flags != c[k]->flags)
					return sfmt("level %d caches of processors %d and %d differ, though their cores do not", k ? k : 1, q.linux_id, p.linux_id);
			}
		}
	}
	if (d.cache[3].size() > 1 && all_l3 && l3_sizes.size() == 1)
		return sfmt("%zu level 3 caches of one size, expected one for all", d.cache[3].size());
	if (d.cache[3].size() == 1 && d.clusters.size() > 1 && d.cache[3][0].pcount == n && (!all_l3 || l3_sizes.size() != 1))
		return "one level 3 cache for all, though not all processors have one";
	return check_consistent(d);
}

/* The rules are those of the comments in arm/linux/clusters.c and arm/linux/midr.c. */

struct Known {
	u32 id = 0;
	bool listed = false, midr_known = false, max_known = false, min_known = false;
	u32 midr = 0, max = 0, min = 0;
	u32 leader = 0;
};

/* what is known of a group of processors that should be alike */
struct Alike {
	bool midr = false, max = false, min = false;
	Known k;
	bool add(const Known& p) {
		if ((midr && p.midr_known && k.midr != p.midr) || (max && p.max_known && k.max != p.max) || (min && p.min_known && k.min != p.min))
			return false;
		if (p.midr_known)
			midr = true, k.midr = p.midr;
		if (p.max_known)
			max = true, k.max = p.max;
		if (p.min_known)
			min = true, k.min = p.min;
		return true;
	}
};

static u32 little_for(u32 midr) {
	static const u32 t[][2] = {{0x410FD0A0, 0x410FD050}, {0x410FD090, 0x410FD030}, {0x410FD080, 0x410FD030}, {0x410FD070, 0x410FD030}, {0x530F0010, 0x410FD030},
		{0x410FC0E0, 0x410FC070}, {0x410FC0F0, 0x410FC070}, {0x510F8000, 0x51AF8014}, {0x510F2050, 0x510F2110}, {0x4E0F0030, 0x410FD070}};
	for (auto& x : t)
		if (x[0] == (midr & 0xff0ffff0))
			return x[1];
	return midr;
}

static std::vector<u32> list_of(const str& text) {
	std::vector<u32> v;
	for (const char* p = text.c_str(); *p >= '0' && *p <= '9';) {
		char* e;
		u32 a = (u32)strtoul(p, &e, 10), b = a;
		if (*e == '-')
			b = (u32)strtoul(e + 1, &e, 10);
		for (u32 i = a; i <= b; i++)
			v.push_back(i);
		p = *e == ',' ? e + 1 : e;
	}
	return v;
}

ArmGuess arm_guess(Machine& m, const std::set<str>& unreadable, bool five) {
	ArmGuess g;
	auto get = [&](u32 cpu, const char* leaf, str* text) {
		str path = sfmt("/sys/devices/system/cpu/cpu%u/%s", cpu, leaf);
		return !unreadable.count(path) && m.file(path, text);
	};
	std::map<u32, Known> all;
	u32 last_online = 0, with_midr = 0, last_with_midr = 0;
	str text;
	for (auto& c : m.cpus) {
		if (!c.present || !c.possible)
			continue;
		Known k;
		k.id = k.leader = c.id;
		if (get(c.id, "cpufreq/cpuinfo_max_freq", &text))
			k.max = (u32)atoi(text.c_str()), k.max_known = k.max != 0;
		if (get(c.id, "cpufreq/cpuinfo_min_freq", &text))
			k.min = (u32)atoi(text.c_str()), k.min_known = k.min != 0;
		if (c.online) {
			last_online = c.id;
			if (!m.old_style)
				k.midr = m.types[c.type].midr, k.midr_known = true;
		}
		all[c.id] = k;
	}
	if (m.old_style)
		all[last_online].midr = m.types[0].midr, all[last_online].midr_known = true;
	for (auto& k : all)
		if (k.second.midr_known)
			with_midr++, last_with_midr = k.first;
	/* groups from the lists: those of clusters, or where the first processor with lists has none of these, those of packages */
	const char* leaf = nullptr;
	for (auto& k : all) {
		if (!get(k.first, "topology/physical_package_id", &text))
			continue;
		if (!leaf) {
			if (get(k.first, "topology/cluster_cpus_list", &text))
				leaf = "topology/cluster_cpus_list";
			else if (get(k.first, "topology/core_siblings_list", &text))
				leaf = "topology/core_siblings_list";
			else
				continue;
		} else if (!get(k.first, leaf, &text))
			continue;
		auto v = list_of(text);
		for (u32 s : v)
			all[s].listed = true, all[s].leader = v[0];
	}
	u32 listed = 0;
	for (auto& k : all)
		listed += k.second.listed;
	g.listed = listed == all.size();
	if (!g.listed) {
		static const std::map<u32, std::vector<u32>> usual = {{10, {4, 4, 2}}, {8, {4, 4}}, {6, {4, 2}}, {5, {4, 1}}};
		auto u = usual.find((u32)all.size());
		bool fits = u != usual.end() && (all.size() != 5 || five);
		std::map<u32, u32> want;
		if (fits) {
			auto it = all.begin();
			for (u32 n : u->second) {
				const Known& first = it->second;
				Alike a;
				for (u32 i = 0; i < n; i++, ++it) {
					const Known& p = it->second;
					want[p.id] = first.id;
					if (p.listed != first.listed || (p.listed && p.leader != first.id) || (!p.listed && !a.add(p)))
						fits = false;
				}
			}
		}
		g.how = fits ? "usual" : "scan";
		if (fits) {
			for (auto& w : want)
				all[w.first].leader = w.second;
		} else {
			Alike a;
			const Known* first = nullptr;
			for (auto& k : all) {
				if (k.second.listed)
					continue;
				if (!first || !a.add(k.second)) {
					first = &k.second;
					a = Alike();
					a.add(k.second);
				}
				k.second.leader = first->id;
			}
		}
	}
	/* types of the cores */
	std::map<u32, std::vector<Known*>> cl;
	for (auto& k : all)
		cl[k.second.leader].push_back(&k.second);
	std::map<u32, u32> type;
	std::map<u32, u32> freq;
	for (auto& c : cl)
		for (auto k : c.second) {
			if (k->midr_known && !type.count(c.first))
				type[c.first] = k->midr;
			if (k->max_known && !freq.count(c.first))
				freq[c.first] = k->max;
		}
	bool unclear = with_midr == 1 && last_with_midr == last_online && cl.size() > 1;
	if (with_midr && type.size() < cl.size()) {
		u32 source = all[last_with_midr].leader, known = type[source];
		bool done = false;
		if (m.soc && m.soc->cores.size() == cl.size()) {
			/* a chipset whose cores are known, if what is reported agrees */
			done = true;
			size_t n = 0;
			for (auto& c : cl) {
				if (m.soc->cores[n] != c.second.size() || (!unclear && type.count(c.first) && type[c.first] != m.soc->midr[n]))
					done = false;
				n++;
			}
			n = 0;
			if (done)
				for (auto& c : cl)
					type[c.first] = m.soc->midr[n++];
			if (done)
				g.types = "chipset";
		}
		if (!done && cl.size() == 2 && type.size() == 1) {
			u32 first = cl.begin()->first, second = cl.rbegin()->first, little = first;
			if (freq.count(first) && freq.count(second) && freq[first] > freq[second])
				little = second;
			u32 other = source == first ? second : first;
			if (unclear || source != little || little_for(known) == known) {
				type[other] = other == little ? little_for(known) : known;
				done = true;
				g.types = "pair";
			}
		}
		if (!done) {
			g.types = "scan";
			u32 t = known;
			for (auto& c : cl) {
				if (type.count(c.first))
					t = type[c.first];
				else
					type[c.first] = t;
			}
		}
	}
	for (auto& k : all) {
		g.leader[k.first] = k.second.leader;
		g.midr[k.first] = type.count(k.second.leader) ? type[k.second.leader] : 0;
	}
	return g;
}

str check_guess(const Desc& d, const Machine& m, const ArmGuess& g) {
	Rows r;
	str e = match(d, m, r, true);
	if (!e.empty())
		return e;
	std::vector<u64> a, b;
	for (auto& p : d.procs) {
		u32 id = (u32)p.linux_id;
		a.push_back(g.leader.at(id));
		b.push_back((u64)p.cluster);
	}
	auto show = [&](const std::vector<u64>& v) {
		std::map<u64, std::set<int>> c;
		for (size_t i = 0; i < v.size(); i++)
			c[v[i]].insert(d.procs[i].linux_id);
		std::set<str> all;
		for (auto& k : c) {
			str s;
			for (int i : k.second)
				s += sfmt("%s%d", s.empty() ? "" : ",", i);
			all.insert("{" + s + "}");
		}
		str s;
		for (auto& x : all)
			s += (s.empty() ? "" : " ") + x;
		return s;
	};
	if (!same_partition(a, b))
		return sfmt("clusters %s reported, the files amount to %s (%s)", show(b).c_str(), show(a).c_str(), g.how);
	std::map<u32, std::pair<u32, u32>> decoded;
	for (auto& p : d.procs) {
		u32 id = (u32)p.linux_id, want = g.midr.at(id);
		const DCore& c = d.cores[(size_t)p.core];
		if (c.id != want)
			return sfmt("processor %u: MIDR 0x%08x reported, the files amount to 0x%08x (%s, clusters %s)", id, c.id, want, g.types, show(a).c_str());
		if (want >> 24 == 0x41 && (c.vendor != 3 || c.uarch != arm_uarch(want)))
			return sfmt("processor %u: vendor %u microarchitecture 0x%x reported for MIDR 0x%08x", id, c.vendor, c.uarch, want);
		auto x = decoded.emplace(want, std::make_pair(c.vendor, c.uarch));
		if (x.first->second != std::make_pair(c.vendor, c.uarch))
			return sfmt("processor %u: MIDR 0x%08x decoded differently from another processor's", id, want);
	}
	return check_consistent(d);
}
