/*
 * Simulated machines: hardware truth plus the kernel's view of it.
 */
#pragma once
#include "env.h"

enum Arch { ARCH_X86 = 1, ARCH_ARM64 = 2, ARCH_ARM32 = 3, ARCH_RISCV = 4 };

struct Cpu {
	u32 id = 0; /* Linux number */
	bool possible = true, present = true, online = true;
	u32 pkg = 0, cluster = 0, core = 0, smt = 0; /* cluster and core are machine-wide numbers */
	u32 apic = 0;
	u32 type = 0;
	/* history of the current run */
	bool was_present = true, was_online = true; /* at some moment */
	bool stayed_online = true;
	bool stayed_put = true; /* neither presence nor online state changed */
};

struct CacheSpec {
	bool exists = false;
	u32 level = 1, type = 1; /* 1 data, 2 instruction, 3 unified */
	u32 ways = 8, sets = 64, line = 64, partitions = 1;
	bool inclusive = false, complex_indexing = false;
	u32 share_bits = 0;  /* x86: sharers have equal APIC id above these bits */
	u32 share_field = 0; /* x86: value of the sharing field */
	u32 size() const { return ways * sets * line * partitions; }
};

struct CoreType {
	u32 midr = 0;
	u32 score = 0;
	u32 freq_khz = 0, min_khz = 0;
	u64 mvendorid = 0, marchid = 0, mimpid = 0;
};

/* Chipsets whose core types are known */
struct KnownSoc {
	const char* hardware; /* as in /proc/cpuinfo */
	std::vector<u32> cores, midr; /* of the clusters */
};
extern const std::vector<KnownSoc> known_socs;

struct Machine : World {
	Arch arch = ARCH_X86;
	std::vector<Cpu> cpus; /* ordered by id */
	u32 kernel_max = 0;
	bool has_possible = true;
	bool hotplug_happened = false;
	u32 last_event_op = 0;

	/* x86 */
	bool amd = false;
	bool leaf_b = true, cmp_legacy = false, no_apicid = false, htt = true, topoext = true;
	u32 smt_bits = 0, core_bits = 0;
	u32 leaf1_logical = 1, nc_field = 0, leaf4_cores_field = 0;
	u32 signature = 0;
	str brand, package_name; /* as CPUID has it, and as it is reported */
	CacheSpec cache[5]; /* l1i l1d l2 l3 l4 */
	u32 flags_len = 600;
	u32 extra_levels = 0;

	/* arm, riscv */
	std::vector<CoreType> types; /* indexed by Cpu::type */
	bool old_style = false;      /* MIDR fields once, after all processors */
	bool cluster_files = true;   /* cluster_cpus_list (new kernels) */
	bool have_freq = true;
	bool offline_topology = false;
	bool offline_freq = false; /* frequencies of offline processors stay readable */
	str hardware, revision, serial;
	bool has_footer = false;
	u64 hwcap = 0, hwcap2 = 0;
	int sve = -1; /* what the kernel says of the vector length: bytes and flags, -1 if it does not know */
	bool hwprobe_ok = true;
	const KnownSoc* soc = nullptr;
	bool arm32_cache_lines = false;
	std::map<u32, str> cache_lines; /* what the records of processors say of level 1 caches instead */
	std::map<u32, str> feature_lines; /* what the records of processors say of instruction sets instead */
	u32 features_len = 0;
	const char* arm_architecture = "7"; /* 32-bit */
	std::map<str, str> props; /* Android */

	const Cpu* by_id(u32 id) const;
	Cpu* by_id(u32 id) { return const_cast<Cpu*>(((const Machine*)this)->by_id(id)); }

	bool file(const str& path, str* content) override;
	u32 cpuinfo_records() override { return (u32)cpus.size() + 1; }
	str cpuinfo_record(u32 i) override;
	void cpuid(u32 cpu, u32 leaf, u32 sub, u32 out[4]) override;
	u64 auxv(u64 t) override;
	long prctl(int option) override { return option == 51 ? sve : -1; }
	bool hwprobe(u32 cpu, long long key, u64* value) override;
	bool property(const str& name, str* value) override;
	void event(u32 n) override;

	str list(bool (*pred)(const Cpu&)) const;
	str whole_cpuinfo();
	void begin_history();
	std::vector<u32> online_ids() const;
	str describe() const;
	u64 shape() const;
	/* all files the library could want, for mutation */
	std::vector<str> paths() const;
	int cpu_of_path(const str& path) const; /* -1: machine-wide */
};

struct GenOpts {
	u32 max_cpus = 24;
	bool large = false;      /* occasionally build machines with hundreds of CPUs */
	bool offline = true;
	bool sparse = true;
	bool long_lists = false; /* CPU lists of hundreds of characters */
	bool hetero = true;
	bool phone = false;      /* ARM: clusters as phones have them, mostly numbered in order */
	bool truth = true;       /* every file complete and consistent */
};

void generate(Machine& m, Arch a, const GenOpts& o);
enum HotplugAction { HP_OFFLINE = 0, HP_ONLINE = 1, HP_REMOVE = 2, HP_ADD = 3 };
inline u32 hotplug_event(u32 action, u32 cpu_index) { return action << 16 | cpu_index; }
str cpulist_text(const std::vector<u32>& ids);
