/*
 * The simulated operating system a library run lives in.
 */
#pragma once
#include "core.h"

/* The machine and kernel behind the seams. */
struct World {
	virtual ~World() {}
	/* content of a file as of now; false: no such file */
	virtual bool file(const str& path, str* content) = 0;
	/* /proc/cpuinfo is produced record by record while it is read */
	virtual u32 cpuinfo_records() { return 0; }
	virtual str cpuinfo_record(u32) { return ""; }
	virtual void cpuid(u32 cpu, u32 leaf, u32 sub, u32 out[4]) { out[0] = out[1] = out[2] = out[3] = 0; (void)cpu; (void)leaf; (void)sub; }
	virtual u64 xgetbv(u32) { return 7; }
	virtual u64 auxv(u64) { return 0; }
	virtual long prctl(int) { return -1; }
	/* key/value for one CPU; false: unsupported system call */
	virtual bool hwprobe(u32 cpu, long long key, u64* value) { (void)cpu; (void)key; (void)value; return false; }
	virtual void event(u32) {}
	/* other systems; false: the system does not know the name */
	virtual bool sysctl(const str& name, str* raw) { (void)name; (void)raw; return false; }
	virtual bool property(const str& name, str* value) { (void)name; (void)value; return false; }
	virtual int num_logical_cores() { return 1; }
	virtual bool nan_negative() { return false; }
};

enum ReadMode { READ_FULL, READ_ONE, READ_FIXED, READ_RANDOM, READ_CHOSEN };

struct Fault {
	u32 variant = 1;
	bool persistent = false;
};

struct OpenFile {
	str path;
	str data;
	size_t pos = 0;
	bool progressive = false;
	bool loaded = false;
	u32 next_record = 0;
	bool failed = false; /* persistent read failure */
	u32 gen = 0;
	u64 site = 0; /* name without its numbers, and whether it was opened before */
	bool read_before = false;
};

struct Block {
	size_t size;
	u32 id;
};

/* Android's log has a stream for each priority */
const int ANDROID_STREAM = 1 << 20;

struct WriteRec {
	int fd;
	str data;    /* what went out */
	int thread;
	str attempt; /* what was to go out */
	bool faulted;
};

struct Env {
	World* world = nullptr;
	/* files overridden by a scenario */
	std::map<str, str> content;
	std::set<str> absent;
	/* content seen by the second and later opens of a file */
	std::map<str, str> content_later;
	/* system queries that never work: "getauxval:16", "hwprobe:3:0", "prctl:51" */
	std::set<str> dead_calls;
	/* answers of named system queries overridden by a scenario, "sysctl:hw.packages"; the later ones from the second call on */
	std::map<str, str> answer, answer_later;
	std::map<str, u32> later_from; /* or from this call on */
	/* fault plan: operation number -> fault */
	std::map<u64, Fault> fault_at;
	/* sources forced to fail for the whole run: open fails */
	std::set<str> open_fails;
	/* files that never work: 0 opening fails, 1 reading fails, 2 and more reading fails after one byte and more; the errno follows */
	std::map<str, std::pair<u32, u32>> unreadable;
	/* after firing, keep failing everything of that kind */
	std::map<str, u32> persistent;
	/* environment events: operation number -> event number */
	std::multimap<u64, u32> event_at;
	ReadMode read_mode = READ_FULL;
	u32 read_size = 1;
	Rng read_rng;
	u32 chosen_reads = 0;
	u32 fd_base = 3;
	u32 junk = 0;           /* seed for garbage in fresh memory, 0: zeros */
	u32 sort_seed = 0;      /* tie-breaking of equal elements, 0: stable */
	int getcpu_errno = 0;   /* getcpu fails */
	int getcpu_override = -1;
	bool faults_on = true;
	bool quiet_streams = false; /* output through streams always works and is not an operation */
	bool allow_eof_fault = true; /* premature end of file among the read faults */
	size_t alloc_limit = (size_t)1 << 28;
	u64 op_limit = 20000000; /* operations before the run counts as endless */
	std::function<void()> watch; /* looks at the counts as they grow */

	/* state */
	std::map<int, OpenFile> fds;
	std::unordered_map<void*, Block> heap;
	u32 next_block = 0;
	u64 ops = 0;            /* faultable operations so far */
	std::vector<const char*> kinds; /* of the operations so far */
	std::vector<u64> sites;         /* what they were about: file and stage of its use */
	u64 bytes_read = 0, opens = 0, reads = 0;
	u64 file_ops = 0, alloc_ops = 0, cpuid_ops = 0, getcpu_ops = 0, lock_ops = 0, other_ops = 0;
	u64 write_ops = 0;
	u64 clock_ops = 0;
	std::map<str, u32> opened; /* path -> number of opens */
	std::set<str> faulted_paths; /* files whose open or read failed, or for which memory ran out */
	std::map<str, u32> read_faults; /* path -> bytes delivered before failure */
	u32 alloc_faults = 0;
	std::set<str> faulted_calls, asked_calls;
	std::map<str, u32> answered; /* named system query -> number of calls */
	u32 libraries = 0;           /* open handles of shared libraries */
	std::vector<WriteRec> writes;
	std::set<int> stream_errors; /* streams that lost output */
	int exit_status = -1;
	str misuse;             /* first misuse of a seam: double close, bad free, ... */
	u64 last_op_time = 0;
	bool inconsistent_read = false;

	void reset_state();
	void bad(const char* f, ...) __attribute__((format(printf, 2, 3)));
	u64 seam_ops() const { return file_ops + alloc_ops + cpuid_ops + getcpu_ops + other_ops + write_ops; }
};

extern Env E;

/* restart the simulated process: library globals back to their load-time
 * values, heap and descriptors gone */
void process_restart();
/* virtual address range of the library's writable data */
bool in_library_data(const void* p);
void lib_data_snapshot_init();
size_t live_bytes();
/* blocks not reachable from the library's data; first one's size and number */
struct Leak { u32 count = 0; size_t bytes = 0; u32 first_id = 0; };
Leak unreachable_blocks();
/* back to a fault-free configuration; the world stays */
void env_defaults();
