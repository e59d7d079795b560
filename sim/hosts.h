/*
 * Simulated machines under systems other than Linux.
 */
#pragma once
#include "machine.h"
#include "observe.h"

struct Host : Machine {
	/* as the system counts them, machine-wide */
	u32 packages = 1, cores = 1, threads = 1;
	std::map<str, str> values; /* sysctl name -> raw value */
	/* caches: threads sharing one, 0 where there is none; and their geometry */
	u32 shared[5] = {0, 0, 0, 0, 0};
	CacheSpec geometry[5];
	bool has_geometry[5] = {false, false, false, false, false};
	std::map<u32, u32> uarch_cores; /* microarchitecture -> number of cores, empty: all alike, not compared */
	std::vector<u32> core_uarchs; /* the same core by core, empty: not compared */
	std::vector<u32> cluster_cores;
	str name; /* expected package name, empty: not compared */
	std::map<str, bool> isa; /* query -> answer */
	u32 vendor = 0;
	/* caches described one by one (Windows on ARM) */
	struct One { int k; u32 first, count; CacheSpec spec; u32 bytes; };
	std::vector<One> each;
	u64 hertz = 0; /* 0: not compared */
	/* Emscripten */
	int logical = 1;
	bool x86_host = false;

	bool sysctl(const str& n, str* raw) override;
	int num_logical_cores() override { return logical; }
	bool nan_negative() override { return x86_host; }
	str outline() const;
};

void generate_host(Host& h);
/* comparison of the tables with what the system reported */
str check_truth_host(const Desc& d, const Host& h);
