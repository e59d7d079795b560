/*
 * What a client of the library can see.
 */
#pragma once
#include "core.h"

struct DProc {
	u32 smt;
	int core, cluster, package; /* table index; -1 null, -2 not an element */
	int linux_id;
	u32 apic;
	int cache[5];
};
struct DCore {
	u32 pstart, pcount, core_id;
	int cluster, package;
	u32 vendor, uarch, id;
	u64 freq;
};
struct DCluster {
	u32 pstart, pcount, cstart, ccount, cluster_id;
	int package;
	u32 vendor, uarch, id;
	u64 freq;
};
struct DPackage {
	str name;
	bool terminated;
	u32 pstart, pcount, cstart, ccount, clstart, clcount;
};
struct DUarch {
	u32 uarch, id, pcount, ccount;
};
struct DCache {
	u32 size, assoc, sets, partitions, line, flags, pstart, pcount;
};
struct Desc {
	bool valid = false;
	std::vector<DProc> procs;
	std::vector<DCore> cores;
	std::vector<DCluster> clusters;
	std::vector<DPackage> packages;
	std::vector<DUarch> uarchs;
	std::vector<DCache> cache[5];
	u32 max_cache = 0;
	std::vector<u32> isa;
	std::vector<u64> raw; /* addresses handed out */
	str broken;           /* disagreement between count, table and element queries */
	u64 hash() const;
	/* text of the whole description, without addresses */
	str text() const;
};

enum QKind { Q_COUNT, Q_TABLE, Q_ELEM, Q_CURRENT };
struct Query {
	const char* name; /* as in cpuinfo_get_<name> */
	QKind kind;
	u64 (*call)(u32 arg);
};
extern const std::vector<Query> queries;
extern const int obs_arch;
enum { OS_LINUX, OS_FREEBSD, OS_DARWIN, OS_WINDOWS, OS_WASM, OS_ANDROID }; /* SIM_OS of prelude.h */
extern const int obs_os;
extern const bool obs_phone;

extern "C" {
bool lib_initialize();
void lib_deinitialize();
}
struct NamedValue {
	const char* name;
	u32 value;
};
/* constants of the public header: names without their common start */
extern const std::vector<NamedValue> vendor_names, uarch_names;
Desc observe();
/* ISA answers alone: usable before initialisation */
std::vector<u32> observe_isa();
const char* isa_name(u32 i);
/* table index of an address returned by a current_* query */
int processor_index(u64 ptr, const Desc& d);
int core_index(u64 ptr, const Desc& d);
str diff(const Desc& a, const Desc& b, bool raw = false);
