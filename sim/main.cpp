/*
 * sim run      --prop P --seed S --start I --count N [--secs T] --out FILE --mirror FILE
 * sim replay   --prop P --choices FILE [--trace FILE]
 * sim minimise --prop P --choices FILE --out FILE [--secs T]
 */
#include "props.h"

#include <algorithm>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" void __asan_on_error() {
	if (mirror && __asan_get_report_description) {
		snprintf(mirror->cls, sizeof mirror->cls, "memory:%s", __asan_get_report_description());
		mirror->failed = 1;
	}
}
extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:detect_stack_use_after_return=0:exitcode=99:abort_on_error=0:handle_sigill=1:handle_sigfpe=1:handle_abort=1:allocator_may_return_null=1:malloc_context_size=4:quarantine_size_mb=16:print_legend=0:use_sigaltstack=0";
}

static u64 mixseed(u64 seed, const char* prop, u64 index) {
	u64 h = fnv(prop, strlen(prop));
	h = fnv(&obs_arch, sizeof obs_arch, h);
	if (obs_os)
		h = fnv(&obs_os, sizeof obs_os, h);
	h = fnv(&sim_race_variant, 1, h);
	Rng r(seed * 0x9E3779B97F4A7C15ull + h);
	r.next();
	r.s ^= index * 0xD1B54A32D192ED03ull;
	return r.next();
}

static const Scenario* find(const char* id) {
	for (auto& s : scenarios)
		if (!strcmp(s.id, id))
			return &s;
	fprintf(stderr, "no scenario %s\n", id);
	exit(2);
}

static void execute(Run& run, const Scenario* s) {
	R = &run;
	T = nullptr;
	sim_clock_ns = 0;
	sched_cfg = SchedCfg();
	sched_cpus.clear();
	step_limit = block_limit = 0;
	stack_junk_seed = 0;
	env_defaults();
	if (mirror) {
		mirror->count = 0;
		mirror->failed = 0;
		mirror->hash = 0;
		mirror->cls[0] = mirror->msg[0] = 0;
	}
	s->fn();
	env_defaults();
	E.world = nullptr;
	R = nullptr;
	T = nullptr;
	if (mirror) {
		mirror->hash = run.hash;
		mirror->failed = run.fail.set;
		snprintf(mirror->cls, sizeof mirror->cls, "%s", run.fail.cls.c_str());
		snprintf(mirror->msg, sizeof mirror->msg, "%s", run.fail.msg.c_str());
	}
}

static str quote(const str& s) {
	str o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\')
			o += sfmt("\\%c", c);
		else if (c < 32 || c >= 127)
			o += sfmt("\\u%04x", c);
		else
			o += (char)c;
	}
	return o + "\"";
}

static double now() {
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

static std::vector<u32> load(const char* file) {
	std::vector<u32> v;
	FILE* f = fopen(file, "r");
	if (!f) {
		perror(file);
		exit(2);
	}
	unsigned x;
	while (fscanf(f, "%u", &x) == 1)
		v.push_back(x);
	fclose(f);
	return v;
}

static str json_map(const std::map<str, u64>& m) {
	str s = "{";
	for (auto& k : m)
		s += (s.size() > 1 ? "," : "") + quote(k.first) + ":" + sfmt("%llu", (unsigned long long)k.second);
	return s + "}";
}

static str json_choices(const std::vector<u32>& v) {
	str s = "[";
	for (size_t i = 0; i < v.size(); i++)
		s += sfmt(i ? ",%u" : "%u", v[i]);
	return s + "]";
}

static Mirror* map_mirror(const char* file) {
	int fd = file ? open(file, O_RDWR | O_CREAT | O_TRUNC, 0644) : -1;
	if (file && (fd < 0 || ftruncate(fd, sizeof(Mirror)))) {
		perror(file);
		exit(2);
	}
	void* p = mmap(nullptr, sizeof(Mirror), PROT_READ | PROT_WRITE, file ? MAP_SHARED : MAP_SHARED | MAP_ANONYMOUS, fd, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		exit(2);
	}
	return (Mirror*)p;
}

/* runs the choice list in a child; true: fails, with the class in the mirror */
static bool fails(const Scenario* s, const std::vector<u32>& c, str* cls, std::vector<u32>* used) {
	mirror->failed = 0;
	mirror->cls[0] = 0;
	mirror->count = 0;
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		int n = open("/dev/null", O_WRONLY);
		dup2(n, 2);
		alarm(20);
		Run run;
		run.ch.replay = true;
		run.ch.in = c;
		execute(run, s);
		_exit(0);
	}
	int st;
	waitpid(pid, &st, 0);
	bool bad = mirror->failed;
	if (WIFSIGNALED(st)) {
		bad = true;
		if (!mirror->cls[0])
			snprintf(mirror->cls, sizeof mirror->cls, "signal:%d", WTERMSIG(st));
	} else if (WEXITSTATUS(st)) {
		bad = true;
		if (!mirror->cls[0])
			snprintf(mirror->cls, sizeof mirror->cls, "exit:%d", WEXITSTATUS(st));
	}
	*cls = mirror->cls;
	if (used)
		used->assign(mirror->choices, mirror->choices + mirror->count);
	return bad;
}

static int minimise(const Scenario* s, std::vector<u32> c, const char* out, double secs) {
	str cls0, cls;
	std::vector<u32> used;
	if (!fails(s, c, &cls0, &used)) {
		printf("{\"failed\":false}\n");
		return 0;
	}
	c = used;
	double end = now() + secs;
	u64 tries = 1;
	size_t len0 = c.size();
	auto attempt = [&](const std::vector<u32>& cand) {
		if (now() > end)
			return false;
		tries++;
		std::vector<u32> u;
		if (!fails(s, cand, &cls, &u) || cls != cls0)
			return false;
		/* the list actually consumed, without trailing zeros */
		while (!u.empty() && u.back() == 0)
			u.pop_back();
		u64 a = 0, b = 0;
		for (u32 x : u)
			a += x;
		for (u32 x : c)
			b += x;
		if (u.size() > c.size() || (u.size() == c.size() && a >= b))
			return false;
		c = u;
		return true;
	};
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		/* cut the tail */
		for (size_t cut = c.size() / 2; cut > 0; cut /= 2)
			while (c.size() > cut) {
				std::vector<u32> d(c.begin(), c.end() - (long)cut);
				if (!attempt(d))
					break;
				progress = true;
			}
		/* delete chunks */
		for (size_t n = c.size() / 2; n > 0 && now() < end; n /= 2)
			for (size_t i = 0; i + n <= c.size() && now() < end;) {
				std::vector<u32> d = c;
				d.erase(d.begin() + (long)i, d.begin() + (long)(i + n));
				if (attempt(d))
					progress = true;
				else
					i += n;
			}
		/* zero chunks */
		for (size_t n = c.size() / 2; n > 0 && now() < end; n /= 2)
			for (size_t i = 0; i + n <= c.size() && now() < end; i += n) {
				bool nz = false;
				for (size_t k = i; k < i + n; k++)
					nz |= c[k] != 0;
				if (!nz)
					continue;
				std::vector<u32> d = c;
				std::fill(d.begin() + (long)i, d.begin() + (long)(i + n), 0);
				if (attempt(d))
					progress = true;
			}
		/* smaller values */
		for (size_t i = 0; i < c.size() && now() < end; i++) {
			for (u32 v : {c[i] / 2, c[i] > 0 ? c[i] - 1 : 0}) {
				if (i >= c.size() || v >= c[i])
					continue;
				std::vector<u32> d = c;
				d[i] = v;
				if (attempt(d))
					progress = true;
			}
		}
	}
	FILE* f = fopen(out, "w");
	for (u32 x : c)
		fprintf(f, "%u\n", x);
	fclose(f);
	printf("{\"failed\":true,\"cls\":%s,\"from\":%zu,\"to\":%zu,\"tries\":%llu}\n", quote(cls0).c_str(), len0, c.size(), (unsigned long long)tries);
	return 0;
}

int main(int argc, char** argv) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	std::map<str, str> a;
	for (int i = 2; i + 1 < argc; i += 2)
		a[argv[i]] = argv[i + 1];
	if (argc < 2)
		return 2;
	str mode = argv[1];
	rlimit nocore = {0, 0};
	setrlimit(RLIMIT_CORE, &nocore);
	lib_data_snapshot_init();
	if (!a.count("--prop"))
		return 2;
	const Scenario* s = find(a["--prop"].c_str());
	if (mode == "minimise") {
		mirror = map_mirror(nullptr);
		return minimise(s, load(a["--choices"].c_str()), a["--out"].c_str(), a.count("--secs") ? atof(a["--secs"].c_str()) : 20);
	}
	if (mode == "replay") {
		if (a.count("--mirror"))
			mirror = map_mirror(a["--mirror"].c_str());
		else
			mirror = map_mirror(nullptr);
		Run run;
		run.ch.replay = true;
		run.ch.in = load(a["--choices"].c_str());
		run.trace = a.count("--trace");
		if (a.count("--seed")) {
			run.ch.replay = false;
			run.ch.rng = Rng(mixseed(strtoull(a["--seed"].c_str(), nullptr, 10), s->id, strtoull(a["--start"].c_str(), nullptr, 10)));
		}
		execute(run, s);
		if (run.trace) {
			FILE* f = fopen(a["--trace"].c_str(), "w");
			for (auto& l : run.log)
				fprintf(f, "%s\n", l.c_str());
			fclose(f);
		}
		printf("{\"failed\":%s,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"events\":%llu,\"choices\":%zu}\n", run.fail.set ? "true" : "false", quote(run.fail.cls).c_str(),
			quote(run.fail.msg).c_str(), (unsigned long long)run.hash, (unsigned long long)run.events, run.ch.out.size());
		return 0;
	}
	if (mode != "run")
		return 2;
	mirror = map_mirror(a["--mirror"].c_str());
	u64 seed = strtoull(a["--seed"].c_str(), nullptr, 10), start = strtoull(a["--start"].c_str(), nullptr, 10), count = strtoull(a["--count"].c_str(), nullptr, 10);
	u64 stride = a.count("--stride") ? strtoull(a["--stride"].c_str(), nullptr, 10) : 1;
	u64 recheck = a.count("--recheck") ? strtoull(a["--recheck"].c_str(), nullptr, 10) : 64;
	double end = now() + (a.count("--secs") ? atof(a["--secs"].c_str()) : 1e9);
	u64 runs = 0, nontrivial = 0, steps = 0, blocks = 0, switches = 0, inits = 0, events = 0, simns = 0, rechecked = 0, choices = 0, fails = 0;
	/* known findings: recorded, but they do not end the search */
	std::set<str> ignored;
	for (str l = a["--ignore"]; !l.empty();) {
		size_t at = l.find(',');
		ignored.insert(l.substr(0, at));
		l = at == str::npos ? "" : l.substr(at + 1);
	}
	std::map<str, u64> faults, probes;
	std::unordered_set<u64> hashes, scheds, shapes;
	std::vector<str> samples;
	FILE* out = fopen(a["--out"].c_str(), "a");
	if (!out) {
		perror("out");
		return 2;
	}
	u64 next = start;
	for (u64 k = 0; k < count && now() < end; k++) {
		u64 index = start + k * stride;
		mirror->index = index;
		Run run;
		run.ch.rng = Rng(mixseed(seed, s->id, index));
		execute(run, s);
		next = index + stride;
		runs++;
		steps += run.steps;
		blocks += run.blocks;
		switches += run.switches;
		inits += run.inits;
		events += run.events;
		choices += run.ch.out.size();
		simns += sim_clock_ns;
		for (auto& f : run.faults)
			faults[f.first] += f.second;
		for (auto& f : run.probes)
			probes[f.first] += f.second;
		if (run.nontrivial) {
			nontrivial++;
			hashes.insert(run.hash);
			if (run.switches)
				scheds.insert(run.sched_hash);
			shapes.insert(run.shape);
		}
		if (samples.size() < 3 && run.nontrivial && !run.sample.empty() && k % 7 == 0)
			samples.push_back(sfmt("seed %llu run %llu: %s; %llu events, %llu switches", (unsigned long long)seed, (unsigned long long)index, run.sample.c_str(), (unsigned long long)run.events,
				(unsigned long long)run.switches));
		if (run.fail.set) {
			fprintf(out, "{\"type\":\"fail\",\"index\":%llu,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"choices\":%s}\n", (unsigned long long)index, quote(run.fail.cls).c_str(),
				quote(run.fail.msg).c_str(), (unsigned long long)run.hash, json_choices(run.ch.out).c_str());
			fflush(out);
			if (!ignored.count(run.fail.cls) && ++fails >= 25)
				break;
		}
		if (recheck && k % recheck == recheck / 2) {
			/* the same choices must give the same run */
			Run again;
			again.ch.replay = true;
			again.ch.in = run.ch.out;
			execute(again, s);
			rechecked++;
			if (again.hash != run.hash || again.fail.set != run.fail.set) {
				fprintf(out, "{\"type\":\"nondeterminism\",\"index\":%llu,\"choices\":%s}\n", (unsigned long long)index, json_choices(run.ch.out).c_str());
				fflush(out);
			}
		}
	}
	str hf = a["--out"] + ".hashes";
	FILE* h = fopen(hf.c_str(), "ab");
	for (int t = 0; t < 3; t++)
		for (u64 v : t == 0 ? hashes : t == 1 ? scheds : shapes) {
			u64 rec[2] = {(u64)t, v};
			fwrite(rec, sizeof rec, 1, h);
		}
	fclose(h);
	str sj = "[";
	for (size_t i = 0; i < samples.size(); i++)
		sj += (i ? "," : "") + quote(samples[i]);
	sj += "]";
	fprintf(out,
		"{\"type\":\"stats\",\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"blocks\":%llu,\"switches\":%llu,\"inits\":%llu,\"events\":%llu,\"choices\":%llu,\"sim_ns\":%llu,\"rechecked\":%llu,\"next\":%llu,\"faults\":%s,\"probes\":%s,\"samples\":%s}\n",
		(unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)steps, (unsigned long long)blocks, (unsigned long long)switches, (unsigned long long)inits,
		(unsigned long long)events, (unsigned long long)choices, (unsigned long long)simns, (unsigned long long)rechecked, (unsigned long long)next, json_map(faults).c_str(),
		json_map(probes).c_str(), sj.c_str());
	fclose(out);
	return 0;
}
