#pragma once
#include "machine.h"
#include "observe.h"
#include <sys/types.h>

struct Scenario {
	const char* id;
	void (*fn)();
};
extern const std::vector<Scenario> scenarios;

/* log functions under test, filled in by logdrv.c when it is linked in */
extern "C" {
struct LogFn {
	const char* name;
	int fd;      /* 1 or 2 */
	int fatal;   /* must terminate */
	int enabled; /* configured level lets it through */
	void (*call)(const char* text, int kind, int num);
};
/* one table per configured level: all, errors only, nothing */
extern const struct LogFn log_fns_debug[] __attribute__((weak));
extern const struct LogFn log_fns_error[] __attribute__((weak));
extern const struct LogFn log_fns_none[] __attribute__((weak));
}
/* entry points of the library built with stand-ins for the system (mockdrv.c) */
extern "C" {
struct MockFns {
	size_t file_size, cpuid_size, property_size; /* of table entries */
	void (*put_file)(void* table, u32 i, const char* path, const char* content, size_t size);
	void (*put_cpuid)(void* table, u32 i, const u32* v);
	void (*put_property)(void* table, u32 i, const char* key, const char* value);
	void (*filesystem)(void* table);
	int (*open)(const char* path, int flags);
	ssize_t (*read)(int fd, void* p, size_t n);
	int (*close)(int fd);
	void (*set_cpuid)(void* table, size_t n);
	void (*cpuid)(u32 leaf, u32* regs);
	void (*cpuidex)(u32 leaf, u32 sub, u32* regs);
	void (*set_hwcap)(u32 cap, u64 cap2);
	void (*properties)(void* table);
};
extern const struct MockFns mock_fns __attribute__((weak));
}
/* around the initialization of every process */
extern std::function<void()> before_initialize, after_initialize;
/* parts of scenarios used by others */
void healthy_machine();
void chipset_sources();
void check_capabilities(const Desc& d, const Machine& m, u64 cap, u64 cap2);

/* One simulated process: start, initialize, look. */
struct Outcome {
	bool ret = false, done = false;
	Desc d;
	u64 ops = 0;
	std::vector<const char*> kinds;
	std::vector<u64> sites;
	std::map<str, u32> opened;
	str misuse;
};
Outcome detect(bool look = true);
bool ended(const Outcome& o, const char* what);
void read_pattern(bool force = false);
u32 fault_plan(const Outcome& ref, std::initializer_list<const char*> only = {}, u32 max_faults = 5, bool late_reads = false);
void refuse(const char* when);

/* whether path damage etc. apply; shared with logging.cpp */
void damage_files(Machine& m);
void show_files();
void arm_limits();
void place_threads(const Machine& m);
void noise();
void finish(const Machine& m);
