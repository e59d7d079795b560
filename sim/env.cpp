#include "seam.h"

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

Env E;

extern "C" {
extern u8 __start_libdata[] __attribute__((weak));
extern u8 __stop_libdata[] __attribute__((weak));
extern u8 __start_libbss[] __attribute__((weak));
extern u8 __stop_libbss[] __attribute__((weak));
}

static std::vector<u8> data_image, bss_image;
static std::map<const void*, int> mutex_owner;

/* Plain copy: the sections contain sanitizer red zones. */
__attribute__((noinline, optimize("no-tree-loop-distribute-patterns"))) static void raw_copy(volatile u8* d, const volatile u8* s, size_t n) {
	for (size_t i = 0; i < n; i++)
		d[i] = s[i];
}

void lib_data_snapshot_init() {
	data_image.resize((size_t)(__stop_libdata - __start_libdata));
	raw_copy(data_image.data(), __start_libdata, data_image.size());
	bss_image.resize((size_t)(__stop_libbss - __start_libbss));
	raw_copy(bss_image.data(), __start_libbss, bss_image.size());
}

bool in_library_data(const void* p) {
	const u8* q = (const u8*)p;
	return (q >= __start_libdata && q < __stop_libdata) || (q >= __start_libbss && q < __stop_libbss);
}

void process_restart() {
	raw_copy(__start_libdata, data_image.data(), data_image.size());
	raw_copy(__start_libbss, bss_image.data(), bss_image.size());
	mutex_owner.clear();
	for (auto& b : E.heap)
		free(b.first);
	E.reset_state();
}

void Env::reset_state() {
	fds.clear();
	heap.clear();
	next_block = 0;
	ops = file_ops = alloc_ops = cpuid_ops = getcpu_ops = lock_ops = other_ops = write_ops = clock_ops = 0;
	opened.clear();
	faulted_paths.clear();
	read_faults.clear();
	alloc_faults = 0;
	faulted_calls.clear();
	asked_calls.clear();
	answered.clear();
	libraries = 0;
	writes.clear();
	stream_errors.clear();
	exit_status = -1;
	misuse.clear();
	persistent.clear();
	kinds.clear();
	sites.clear();
	bytes_read = opens = reads = 0;
	inconsistent_read = false;
}

void env_defaults() {
	World* w = E.world;
	process_restart();
	E = Env();
	E.world = w;
	stack_junk_seed = 0;
}

/* Conservative reachability from the library's writable data. */
__attribute__((noinline)) Leak unreachable_blocks() {
	std::vector<std::pair<uintptr_t, void*>> blocks;
	for (auto& b : E.heap)
		blocks.push_back({(uintptr_t)b.first, b.first});
	std::sort(blocks.begin(), blocks.end());
	std::vector<u8> seen(blocks.size());
	std::vector<size_t> work;
	auto scan = [&](const u8* p, size_t n) {
		p = (const u8*)(((uintptr_t)p + 7) & ~(uintptr_t)7);
		for (size_t i = 0; i + 8 <= n; i += 8) {
			uintptr_t v = *(const volatile uintptr_t*)(p + i);
			auto it = std::upper_bound(blocks.begin(), blocks.end(), std::make_pair(v, (void*)~(uintptr_t)0));
			if (it == blocks.begin())
				continue;
			--it;
			size_t k = (size_t)(it - blocks.begin());
			size_t size = E.heap[it->second].size;
			if (v - it->first < std::max<size_t>(size, 1) && !seen[k]) {
				seen[k] = 1;
				work.push_back(k);
			}
		}
	};
	scan(__start_libdata, (size_t)(__stop_libdata - __start_libdata));
	scan(__start_libbss, (size_t)(__stop_libbss - __start_libbss));
	while (!work.empty()) {
		size_t k = work.back();
		work.pop_back();
		scan((const u8*)blocks[k].second, E.heap[blocks[k].second].size);
	}
	Leak l;
	u32 first = ~0u;
	for (size_t k = 0; k < blocks.size(); k++)
		if (!seen[k]) {
			Block b = E.heap[blocks[k].second];
			l.count++;
			l.bytes += b.size;
			first = std::min(first, b.id);
		}
	l.first_id = first;
	return l;
}

void Env::bad(const char* f, ...) {
	char b[512];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	if (R)
		R->ev("MISUSE %s", b);
	if (misuse.empty())
		misuse = b;
}

size_t live_bytes() {
	size_t n = 0;
	for (auto& b : E.heap)
		n += b.second.size;
	return n;
}

/* One faultable operation.  Returns 0 or the variant of the fault to inject. */
u32 op(const char* kind) {
	if (!R)
		return 0;
	yield_point(UNIT_SEAM);
	u64 n = E.ops++;
	E.kinds.push_back(kind);
	E.sites.push_back(0);
	if (T && n % 1024 == 1023 && !R->fail.set) {
		if (E.watch)
			E.watch();
		if (n > E.op_limit)
			R->violation("unbounded", "operation budget of %llu exceeded", (unsigned long long)E.op_limit);
		if (R->fail.set)
			thread_abort();
	}
	for (auto it = E.event_at.lower_bound(n); it != E.event_at.end() && it->first == n; ++it)
		E.world->event(it->second);
	if (!E.faults_on)
		return 0;
	auto p = E.persistent.find(kind);
	if (p != E.persistent.end())
		return p->second;
	auto f = E.fault_at.find(n);
	if (f == E.fault_at.end())
		return 0;
	if (f->second.persistent)
		E.persistent[kind] = f->second.variant;
	return f->second.variant;
}

int fail(int e) {
	errno = e;
	return -1;
}

str errname(int e) {
	switch (e) {
#define X(n) case n: return #n;
		X(ENOENT) X(EACCES) X(EMFILE) X(ENFILE) X(EINTR) X(EIO) X(ENOMEM) X(ENODEV) X(EAGAIN) X(ENOSYS)
		X(EPERM) X(EFAULT) X(EINVAL) X(EPIPE) X(ENOSPC) X(EBADF) X(ENOTDIR) X(ELOOP)
#undef X
	}
	return sfmt("errno%d", e);
}

/* ---- files ---- */
static const int open_errs[] = {ENOENT, EACCES, EMFILE, EINTR, EIO, ENFILE, ENOMEM, EPERM, ENODEV};
static const int read_errs[] = {EIO, EINTR, ENODEV, ENOMEM, EAGAIN, EINVAL};

/* The same for all files of a kind, so that each kind can get its share of the faults */
static u64 file_site(const char* path, u32 nth) {
	str s;
	for (const char* p = path; *p; p++)
		if (*p < '0' || *p > '9')
			s += *p;
	s += nth ? "#" : "";
	return fnv(s.data(), s.size()) & ~(u64)3;
}

static int do_open(const char* path, int flags) {
	u32 v = op("open");
	if (!R)
		return fail(ENOENT);
	E.file_ops++;
	u32 nth = E.opened[path]++;
	E.opens++;
	u64 site = file_site(path, nth);
	E.sites.back() = site;
	if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC | O_APPEND)))
		E.bad("open of %s with write flags 0x%x", path, flags);
	if (strncmp(path, "/proc/", 6) != 0 && strncmp(path, "/sys/", 5) != 0)
		E.bad("open of %s outside /proc and /sys", path);
	if (v) {
		int e = open_errs[(v - 1) % (sizeof open_errs / sizeof *open_errs)];
		E.faulted_paths.insert(path);
		R->fault("open:" + errname(e));
		R->ev("open %s -> FAULT %s", path, errname(e).c_str());
		return fail(e);
	}
	auto u = E.unreadable.find(path);
	if (u != E.unreadable.end() && u->second.first == 0) {
		int e = open_errs[u->second.second % (sizeof open_errs / sizeof *open_errs)];
		R->fault("open:" + errname(e));
		R->ev("open %s -> %s", path, errname(e).c_str());
		return fail(e);
	}
	if (E.open_fails.count(path)) {
		R->ev("open %s -> EACCES", path);
		return fail(EACCES);
	}
	OpenFile f;
	f.path = path;
	f.site = site;
	str c;
	auto o = E.content.find(path);
	if (nth && E.content_later.count(path))
		o = E.content_later.find(path);
	if (E.absent.count(path)) {
		R->ev("open %s -> ENOENT", path);
		return fail(ENOENT);
	} else if (o != E.content.end()) {
		f.data = o->second;
		f.loaded = true;
	} else if (f.path == "/proc/cpuinfo" && E.world->cpuinfo_records()) {
		f.progressive = true;
		f.loaded = true;
	} else if (!E.world->file(path, &c)) {
		R->ev("open %s -> ENOENT", path);
		return fail(ENOENT);
	}
	int fd = (int)E.fd_base;
	while (E.fds.count(fd) || ((fd == 1 || fd == 2)))
		fd++;
	E.fds[fd] = f;
	R->ev("open %s -> %d", path, fd);
	return fd;
}

static ssize_t do_read(int fd, void* buf, size_t count, bool at, off_t off) {
	u32 v = op("read");
	if (!R)
		return fail(EBADF);
	E.file_ops++;
	E.reads++;
	auto it = E.fds.find(fd);
	if (it == E.fds.end()) {
		E.bad("read from descriptor %d which is not open", fd);
		return fail(EBADF);
	}
	OpenFile& f = it->second;
	E.sites.back() = f.site | (f.read_before ? 2 : 1);
	f.read_before = true;
	if (f.failed) {
		R->ev("read %d -> EIO (again)", fd);
		return fail(EIO);
	}
	auto u = E.unreadable.find(f.path);
	if (u != E.unreadable.end() && f.pos + 1 >= u->second.first) {
		int e = read_errs[u->second.second % (sizeof read_errs / sizeof *read_errs)];
		R->fault("read:" + errname(e));
		R->ev("read %d (%s at %zu) -> %s", fd, f.path.c_str(), f.pos, errname(e).c_str());
		return fail(e);
	}
	if (v) {
		const size_t ne = sizeof read_errs / sizeof *read_errs;
		u32 k = (v - 1) % (ne + (E.allow_eof_fault ? 1 : 0));
		E.faulted_paths.insert(f.path);
		E.read_faults[f.path] = (u32)f.pos;
		if (k == ne) {
			/* device vanished: premature end of file */
			R->fault("read:EOF");
			R->ev("read %d (%s at %zu) -> FAULT premature end of file", fd, f.path.c_str(), f.pos);
			f.data.resize(std::min(f.data.size(), f.pos));
			f.progressive = false;
			f.loaded = true;
			return 0;
		}
		int e = read_errs[k];
		R->fault("read:" + errname(e));
		R->ev("read %d (%s at %zu) -> FAULT %s", fd, f.path.c_str(), f.pos, errname(e).c_str());
		if (e != EINTR && e != EAGAIN)
			f.failed = true;
		return fail(e);
	}
	if (!f.loaded) {
		/* sysfs: text is produced when first read */
		f.loaded = true;
		if (!E.world->file(f.path, &f.data)) {
			R->ev("read %d (%s) -> ENODEV (vanished)", fd, f.path.c_str());
			E.faulted_paths.insert(f.path);
			f.failed = true;
			return fail(ENODEV);
		}
	}
	size_t n = count;
	if (n > 0x7ffff000)
		n = 0x7ffff000;
	/* the kernel hands out the auxiliary vector whole */
	switch (f.path == "/proc/self/auxv" ? READ_FULL : E.read_mode) {
		case READ_FULL: break;
		case READ_ONE: n = std::min<size_t>(n, 1); break;
		case READ_FIXED: n = std::min<size_t>(n, E.read_size); break;
		case READ_RANDOM: {
			u32 lim = E.read_rng.below(4) ? 1 + E.read_rng.below(E.read_size) : 1 + E.read_rng.below(8);
			n = std::min<size_t>(n, lim);
			break;
		}
		case READ_CHOSEN:
			if (E.chosen_reads) {
				E.chosen_reads--;
				u32 lim = R->ch.choose(E.read_size + 1); /* 0: everything */
				if (lim)
					n = std::min<size_t>(n, lim);
			}
			break;
	}
	if (u != E.unreadable.end())
		n = std::min<size_t>(n, std::max<size_t>(1, u->second.first - 1 - f.pos));
	size_t pos = at ? (size_t)off : f.pos;
	if (f.progressive) {
		u32 total = E.world->cpuinfo_records();
		while (f.data.size() < pos + std::min<size_t>(n, 4096) && f.next_record < total)
			f.data += E.world->cpuinfo_record(f.next_record++);
		if (f.next_record < total || f.data.size() > pos + 4096)
			n = std::min<size_t>(n, 4096);
	}
	size_t left = pos < f.data.size() ? f.data.size() - pos : 0;
	if (n < left && n < count)
		R->faults["read:short"]++;
	n = std::min(n, left);
	memcpy(buf, f.data.data() + pos, n);
	if (!at)
		f.pos = pos + n;
	E.bytes_read += n;
	R->ev("read %d (%s at %zu, %zu) -> %zu", fd, f.path.c_str(), pos, count, n);
	return (ssize_t)n;
}

static int do_close(int fd) {
	u32 v = op("close");
	if (!R)
		return fail(EBADF);
	E.file_ops++;
	if (!E.fds.erase(fd)) {
		E.bad("close of descriptor %d which is not open", fd);
		return fail(EBADF);
	}
	if (v) {
		/* the descriptor is gone all the same */
		int e = v & 1 ? EIO : EINTR;
		R->fault("close:" + errname(e));
		R->ev("close %d -> FAULT %s", fd, errname(e).c_str());
		return fail(e);
	}
	R->ev("close %d", fd);
	return 0;
}

ssize_t do_write(int fd, const void* p, size_t n) {
	u32 v = op("write");
	if (!R)
		return (ssize_t)n;
	E.write_ops++;
	if (fd != 1 && fd != 2 && fd < ANDROID_STREAM)
		E.bad("write to descriptor %d", fd);
	if (v) {
		static const int errs[] = {EPIPE, EIO, EAGAIN, EINTR, ENOSPC, EBADF};
		u32 k = (v - 1) % 7;
		if (k == 6 && n > 1) {
			size_t m = 1 + v % (n - 1);
			E.writes.push_back({fd, str((const char*)p, m), T ? T->id : -1, str((const char*)p, n), true});
			R->fault("write:short");
			R->ev("write %d %zu bytes -> FAULT short %zu", fd, n, m);
			return (ssize_t)m;
		}
		int e = errs[k % 6];
		R->fault("write:" + errname(e));
		R->ev("write %d %zu bytes -> FAULT %s", fd, n, errname(e).c_str());
		E.writes.push_back({fd, str(), T ? T->id : -1, str((const char*)p, n), true});
		return fail(e);
	}
	E.writes.push_back({fd, str((const char*)p, n), T ? T->id : -1, str((const char*)p, n), false});
	R->ev("write %d %zu bytes: %.*s", fd, n, (int)std::min<size_t>(n, 60), (const char*)p);
	return (ssize_t)n;
}

/* ---- memory ---- */
static void fill(void* p, size_t n, u32 id) {
	u8* b = (u8*)p;
	if (!E.junk) {
		memset(b, 0, n);
		return;
	}
	u32 x = E.junk * 2654435761u + id * 97u;
	for (size_t i = 0; i < n; i++) {
		x = x * 1664525u + 1013904223u;
		b[i] = (u8)(x >> 24);
	}
}

void* do_alloc(const char* what, size_t align, size_t n, bool zero) {
	if (!R)
		return zero ? calloc(1, n) : malloc(n);
	u32 v = op("alloc");
	E.alloc_ops++;
	if (v) {
		E.alloc_faults++;
		if (T)
			T->alloc_faults++;
		for (auto& f : E.fds)
			E.faulted_paths.insert(f.second.path);
		R->fault("alloc:ENOMEM");
		R->ev("%s %zu -> FAULT ENOMEM", what, n);
		errno = ENOMEM;
		return nullptr;
	}
	if (n > E.alloc_limit) {
		R->fault("alloc:limit");
		R->ev("%s %zu -> ENOMEM (limit)", what, n);
		E.alloc_faults++;
		errno = ENOMEM;
		return nullptr;
	}
	void* p;
	if (align) {
		if (posix_memalign(&p, align, n))
			return nullptr;
	} else {
		p = malloc(n);
	}
	u32 id = E.next_block++;
	if (zero)
		memset(p, 0, n);
	else
		fill(p, n, id);
	E.heap[p] = {n, id};
	R->ev("%s %zu -> block %u", what, n, id);
	return p;
}

void do_free(void* p) {
	if (!p)
		return;
	if (!R) {
		free(p);
		return;
	}
	yield_point(UNIT_SEAM);
	E.alloc_ops++;
	auto it = E.heap.find(p);
	if (it == E.heap.end()) {
		E.bad("free of memory that is not allocated");
		return;
	}
	R->ev("free block %u", it->second.id);
	E.heap.erase(it);
	free(p);
}

extern "C" {

/* open family */
int sim_open(const char* p, int f, ...) { return do_open(p, f); }
int sim_open64(const char* p, int f, ...) { return do_open(p, f); }
int sim___open_2(const char* p, int f) { return do_open(p, f); }
int sim___open64_2(const char* p, int f) { return do_open(p, f); }
int sim_openat(int, const char* p, int f, ...) { return do_open(p, f); }
int sim_openat64(int, const char* p, int f, ...) { return do_open(p, f); }
int sim_creat(const char* p, unsigned) { return do_open(p, O_WRONLY | O_CREAT | O_TRUNC); }
ssize_t sim_read(int fd, void* b, size_t n) { return do_read(fd, b, n, false, 0); }
ssize_t sim___read_chk(int fd, void* b, size_t n, size_t) { return do_read(fd, b, n, false, 0); }
ssize_t sim_pread(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, true, o); }
ssize_t sim_pread64(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, true, o); }
ssize_t sim_readv(int fd, const struct iovec* v, int n) {
	ssize_t total = 0;
	for (int i = 0; i < n; i++) {
		ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, false, 0);
		if (r < 0)
			return total ? total : r;
		total += r;
		if ((size_t)r < v[i].iov_len)
			break;
	}
	return total;
}
int sim_close(int fd) { return do_close(fd); }
ssize_t sim_write(int fd, const void* b, size_t n) { return do_write(fd, b, n); }
ssize_t sim_writev(int fd, const struct iovec* v, int n) {
	str s;
	for (int i = 0; i < n; i++)
		s.append((const char*)v[i].iov_base, v[i].iov_len);
	return do_write(fd, s.data(), s.size());
}
off_t sim_lseek(int fd, off_t o, int w) {
	if (R)
		E.file_ops++;
	auto it = E.fds.find(fd);
	if (it == E.fds.end())
		return fail(EBADF);
	if (w == SEEK_SET)
		it->second.pos = (size_t)o;
	else if (w == SEEK_CUR)
		it->second.pos += (size_t)o;
	else
		return fail(EINVAL);
	return (off_t)it->second.pos;
}
off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
int sim_access(const char* p, int) {
	str c;
	if (!R)
		return fail(ENOENT);
	op("access");
	E.file_ops++;
	if (E.absent.count(p))
		return fail(ENOENT);
	if (E.content.count(p) || (str(p) == "/proc/cpuinfo") || E.world->file(p, &c))
		return 0;
	return fail(ENOENT);
}
int sim_fstat(int fd, struct stat* st) {
	memset(st, 0, sizeof *st);
	if (!E.fds.count(fd))
		return fail(EBADF);
	st->st_mode = S_IFREG | 0444;
	st->st_size = 4096;
	return 0;
}
int sim_stat(const char* p, struct stat* st) {
	memset(st, 0, sizeof *st);
	if (sim_access(p, 0))
		return -1;
	st->st_mode = S_IFREG | 0444;
	st->st_size = 4096;
	return 0;
}
int sim_fcntl(int fd, int, ...) { return E.fds.count(fd) ? 0 : fail(EBADF); }
int sim_fcntl64(int fd, int, ...) { return E.fds.count(fd) ? 0 : fail(EBADF); }
void* sim_mmap(void*, size_t, int, int, int, off_t) { errno = ENODEV; return MAP_FAILED; }
void* sim_mmap64(void*, size_t, int, int, int, off_t) { errno = ENODEV; return MAP_FAILED; }
DIR* sim_opendir(const char*) { errno = EACCES; return nullptr; }
int sim_unlink(const char* p) { E.bad("unlink of %s", p); return fail(EPERM); }
int sim_mkdir(const char* p, unsigned) { E.bad("mkdir of %s", p); return fail(EPERM); }
int sim_rename(const char* p, const char*) { E.bad("rename of %s", p); return fail(EPERM); }

void* sim_malloc(size_t);
void* sim_realloc(void*, size_t);
/* stdio on top of the same files */
static ssize_t cookie_read(void* c, char* b, size_t n) { return do_read((int)(intptr_t)c - 1, b, n, false, 0); }
static int cookie_close(void* c) { return do_close((int)(intptr_t)c - 1); }
FILE* sim_fopen(const char* p, const char* m) {
	int flags = strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+') ? O_WRONLY | O_CREAT : O_RDONLY;
	int fd = do_open(p, flags);
	if (fd < 0)
		return nullptr;
	cookie_io_functions_t io = {cookie_read, nullptr, nullptr, cookie_close};
	return fopencookie((void*)(intptr_t)(fd + 1), "r", io);
}
FILE* sim_fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
FILE* sim_fdopen(int fd, const char*) {
	cookie_io_functions_t io = {cookie_read, nullptr, nullptr, cookie_close};
	return fopencookie((void*)(intptr_t)(fd + 1), "r", io);
}
ssize_t sim_getdelim(char** line, size_t* cap, int delim, FILE* f) {
	char* s = nullptr;
	size_t n = 0;
	ssize_t r = getdelim(&s, &n, delim, f);
	if (r >= 0) {
		if (!*line || *cap < (size_t)r + 1) {
			char* q = (char*)sim_realloc(*line, (size_t)r + 1);
			if (!q) {
				free(s);
				return -1;
			}
			*line = q;
			*cap = (size_t)r + 1;
		}
		memcpy(*line, s, (size_t)r + 1);
	}
	free(s);
	return r;
}
ssize_t sim_getline(char** line, size_t* cap, FILE* f) { return sim_getdelim(line, cap, '\n', f); }
ssize_t sim___getdelim(char** line, size_t* cap, int delim, FILE* f) { return sim_getdelim(line, cap, delim, f); }
static int std_fd(FILE* f) { return f == stdout ? 1 : f == stderr ? 2 : -1; }
/* a stream goes on after a short write and remembers an error */
static void std_write(int fd, const void* p, size_t n) {
	const char* b = (const char*)p;
	if (R && E.quiet_streams) {
		E.write_ops++;
		E.writes.push_back({fd, str(b, n), T ? T->id : -1, str(b, n), false});
		return;
	}
	while (n) {
		ssize_t r = do_write(fd, b, n);
		if (r <= 0) {
			E.stream_errors.insert(fd);
			return;
		}
		b += r;
		n -= (size_t)r;
	}
}
int sim_vfprintf(FILE* f, const char* fmt, va_list ap) {
	char* s = nullptr;
	int n = vasprintf(&s, fmt, ap);
	std_write(std_fd(f), s, (size_t)n);
	free(s);
	return n;
}
int sim_fprintf(FILE* f, const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int n = sim_vfprintf(f, fmt, ap);
	va_end(ap);
	return n;
}
int sim_printf(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int n = sim_vfprintf(stdout, fmt, ap);
	va_end(ap);
	return n;
}
int sim_vprintf(const char* fmt, va_list ap) { return sim_vfprintf(stdout, fmt, ap); }
size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* f) { std_write(std_fd(f), p, a * b); return b; }
int sim_fputs(const char* s, FILE* f) { std_write(std_fd(f), s, strlen(s)); return 1; }
int sim_puts(const char* s) { str t = str(s) + "\n"; std_write(1, t.data(), t.size()); return 1; }
int sim_fputc(int c, FILE* f) { char b = (char)c; std_write(std_fd(f), &b, 1); return c; }
int sim_putchar(int c) { char b = (char)c; std_write(1, &b, 1); return c; }
int sim_putc(int c, FILE* f) { return sim_fputc(c, f); }
int sim__IO_putc(int c, FILE* f) { return sim_fputc(c, f); }
int sim_putc_unlocked(int c, FILE* f) { return sim_fputc(c, f); }
int sim_fputc_unlocked(int c, FILE* f) { return sim_fputc(c, f); }
int sim_putchar_unlocked(int c) { return sim_putchar(c); }
int sim_fputs_unlocked(const char* s, FILE* f) { return sim_fputs(s, f); }
size_t sim_fwrite_unlocked(const void* p, size_t a, size_t b, FILE* f) { return sim_fwrite(p, a, b, f); }
int sim_ferror(FILE* f) { return std_fd(f) >= 0 ? (int)E.stream_errors.count(std_fd(f)) : ferror(f); }
int sim_fflush(FILE* f) {
	bool bad = f ? E.stream_errors.count(std_fd(f)) : !E.stream_errors.empty();
	return bad ? fail(EIO) : 0;
}
int sim_fclose(FILE* f) { return std_fd(f) >= 0 ? sim_fflush(f) : fclose(f); }
int sim_setvbuf(FILE*, char*, int, size_t) { return 0; }
void sim_perror(const char* s) { std_write(2, s, strlen(s)); }
int sim_dprintf(int fd, const char* fmt, ...) {
	char* s = nullptr;
	va_list ap;
	va_start(ap, fmt);
	int n = vasprintf(&s, fmt, ap);
	va_end(ap);
	do_write(fd, s, (size_t)n);
	free(s);
	return n;
}
int sim_vdprintf(int fd, const char* fmt, va_list ap) {
	char* s = nullptr;
	int n = vasprintf(&s, fmt, ap);
	do_write(fd, s, (size_t)n);
	free(s);
	return n;
}

/* allocator */
void* sim_malloc(size_t n) { return do_alloc("malloc", 0, n, false); }
void* sim_calloc(size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) {
		errno = ENOMEM;
		return nullptr;
	}
	return do_alloc("calloc", 0, n, true);
}
void sim_free(void* p) { do_free(p); }
void* sim_realloc(void* p, size_t n) {
	if (!p)
		return sim_malloc(n);
	auto it = E.heap.find(p);
	if (it == E.heap.end()) {
		E.bad("realloc of memory that is not allocated");
		return nullptr;
	}
	size_t old = it->second.size;
	void* q = sim_malloc(n);
	if (q) {
		memcpy(q, p, old < n ? old : n);
		do_free(p);
	}
	return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) {
		errno = ENOMEM;
		return nullptr;
	}
	return sim_realloc(p, n);
}
void* sim_aligned_alloc(size_t a, size_t n) { return do_alloc("aligned_alloc", a < sizeof(void*) ? sizeof(void*) : a, n, false); }
void* sim_memalign(size_t a, size_t n) { return sim_aligned_alloc(a, n); }
int sim_posix_memalign(void** p, size_t a, size_t n) {
	void* q = sim_aligned_alloc(a, n);
	if (!q)
		return ENOMEM;
	*p = q;
	return 0;
}
char* sim_strndup(const char* s, size_t m) {
	size_t n = strnlen(s, m);
	char* p = (char*)sim_malloc(n + 1);
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}
char* sim_strdup(const char* s) { return sim_strndup(s, strlen(s)); }
int sim_vasprintf(char** out, const char* fmt, va_list ap) {
	char* s = nullptr;
	int n = vasprintf(&s, fmt, ap);
	*out = sim_strndup(s, (size_t)n);
	free(s);
	return *out ? n : -1;
}
int sim_asprintf(char** out, const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int n = sim_vasprintf(out, fmt, ap);
	va_end(ap);
	return n;
}
cpu_set_t* sim___sched_cpualloc(size_t n) { return (cpu_set_t*)sim_malloc((n + 63) / 64 * 8); }
void sim___sched_cpufree(cpu_set_t* p) { do_free(p); }

/* synchronisation */
int sim_pthread_once(pthread_once_t* o, void (*f)(void)) {
	if (!R) {
		return 0;
	}
	yield_point(UNIT_SEAM);
	E.lock_ops++;
	if (T)
		T->lock_ops++;
	/* as in the C library, the state is the variable itself: 1 running, 2 done */
	for (;;) {
		int st = *(volatile int*)o;
		if (st == 2) {
			memory_acquire(o);
			return 0;
		}
		if (st != 1) {
			*(volatile int*)o = 1;
			R->ev("once: begin");
			f();
			memory_release(o);
			*(volatile int*)o = 2;
			R->ev("once: end");
			wake_all(o);
			yield_point(UNIT_SEAM);
			return 0;
		}
		R->ev("once: wait");
		R->probe("once_wait");
		block_on(o);
	}
}
void sim_call_once(void* o, void (*f)(void)) { sim_pthread_once((pthread_once_t*)o, f); }
int lock(const void* m, bool wait) {
	if (!R)
		return 0;
	yield_point(UNIT_SEAM);
	E.lock_ops++;
	if (T)
		T->lock_ops++;
	while (mutex_owner.count(m)) {
		if (!wait)
			return EBUSY;
		block_on(m);
	}
	mutex_owner[m] = T ? T->id : -1;
	memory_acquire(m);
	return 0;
}
int unlock(const void* m) {
	if (!R)
		return 0;
	memory_release(m);
	mutex_owner.erase(m);
	wake_all(m);
	yield_point(UNIT_SEAM);
	return 0;
}
int sim_pthread_mutex_init(pthread_mutex_t*, const void*) { return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { return lock(m, true); }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { return lock(m, false); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { return unlock(m); }
int sim_pthread_rwlock_rdlock(void* m) { return lock(m, true); }
int sim_pthread_rwlock_wrlock(void* m) { return lock(m, true); }
int sim_pthread_rwlock_unlock(void* m) { return unlock(m); }
int sim_pthread_cond_init(void*, const void*) { return 0; }
int sim_pthread_cond_destroy(void*) { return 0; }
int sim_pthread_cond_wait(void* c, pthread_mutex_t* m) {
	if (!R)
		return 0;
	memory_release(m);
	mutex_owner.erase(m);
	wake_all(m);
	block_on(c);
	return lock(m, true);
}
int sim_pthread_cond_broadcast(void* c) {
	if (!R)
		return 0;
	wake_all(c);
	yield_point(UNIT_SEAM);
	return 0;
}
int sim_pthread_cond_signal(void* c) { return sim_pthread_cond_broadcast(c); } /* spurious wakeups are allowed */
int sim_mtx_init(void*, int) { return 0; }
int sim_mtx_lock(void* m) { return lock(m, true); }
int sim_mtx_unlock(void* m) { return unlock(m); }
int sim_pthread_spin_init(void*, int) { return 0; }
int sim_pthread_spin_lock(void* m) { return lock(m, true); }
int sim_pthread_spin_unlock(void* m) { return unlock(m); }
unsigned long sim_pthread_self(void) { return T ? 0x1000u + (unsigned)T->id : 0x999; }
int sim_sched_yield(void) {
	if (!R || !T)
		return 0;
	yield_point(UNIT_SEAM);
	E.clock_ops++;
	return 0;
}
static void do_sleep(u64 ns) {
	if (!R)
		return;
	yield_point(UNIT_SEAM);
	E.clock_ops++;
	sim_clock_ns += ns;
	R->ev("sleep");
}
int sim_usleep(unsigned us) { do_sleep((u64)us * 1000); return 0; }
int sim_nanosleep(const struct timespec* t, struct timespec*) { do_sleep((u64)t->tv_sec * 1000000000u + (u64)t->tv_nsec); return 0; }
unsigned sim_sleep(unsigned s) { do_sleep((u64)s * 1000000000u); return 0; }
int sim_clock_gettime(int, struct timespec* t) {
	E.clock_ops++;
	t->tv_sec = (time_t)(sim_clock_ns / 1000000000u);
	t->tv_nsec = (long)(sim_clock_ns % 1000000000u);
	return 0;
}
int sim_gettimeofday(struct timeval* t, void*) {
	E.clock_ops++;
	t->tv_sec = (time_t)(sim_clock_ns / 1000000000u);
	t->tv_usec = (long)(sim_clock_ns % 1000000000u) / 1000;
	return 0;
}
time_t sim_time(time_t* t) {
	E.clock_ops++;
	time_t v = (time_t)(sim_clock_ns / 1000000000u);
	if (t)
		*t = v;
	return v;
}
int sim_rand(void) { return 4; }
char* sim_getenv(const char*) { return nullptr; }
char* sim_secure_getenv(const char*) { return nullptr; }
int sim_getpid(void) { return 4242; }
int sim_gettid(void) { return 4242 + (T ? T->id : 0); }

/* which CPU */
static int do_getcpu(unsigned* cpu, unsigned* node) {
	u32 v = op("getcpu");
	if (!R)
		return fail(ENOSYS);
	E.getcpu_ops++;
	if (T)
		T->getcpu_ops++;
	bool told = T && T->told_cpu >= 0;
	if (!told && (v || E.getcpu_errno)) {
		int e = E.getcpu_errno ? E.getcpu_errno : v & 1 ? ENOSYS : EFAULT;
		E.faulted_calls.insert("getcpu");
		R->fault("getcpu:" + errname(e));
		R->ev("getcpu -> FAULT %s", errname(e).c_str());
		return fail(e);
	}
	unsigned c = T ? T->cpu : 0;
	if (E.getcpu_override >= 0)
		c = (unsigned)E.getcpu_override;
	if (told)
		c = (unsigned)T->told_cpu;
	if (cpu)
		*cpu = c;
	if (node)
		*node = 0;
	R->ev("getcpu -> %u", c);
	return 0;
}
int sim_sched_getcpu(void) {
	unsigned c;
	return do_getcpu(&c, nullptr) ? -1 : (int)c;
}
int sim_getcpu(unsigned* c, unsigned* n) { return do_getcpu(c, n); }

struct hwprobe_pair { long long key; u64 value; };
static long do_hwprobe(hwprobe_pair* pairs, size_t n, size_t cpu_count, const unsigned long* cpus, unsigned) {
	u32 v = op("hwprobe");
	if (!R)
		return fail(ENOSYS);
	E.other_ops++;
	int first = -1;
	for (size_t i = 0; i < cpu_count * 8; i++)
		if (cpus[i / 64] >> (i % 64) & 1) {
			first = (int)i;
			break;
		}
	str key0 = sfmt("hwprobe:%d:%lld", first, n ? pairs[0].key : -1);
	E.asked_calls.insert(key0);
	if (!v && E.dead_calls.count(key0))
		return fail(ENOSYS);
	if (v) {
		E.faulted_calls.insert(key0);
		int e = v & 1 ? ENOSYS : EFAULT;
		R->fault("hwprobe:" + errname(e));
		R->ev("hwprobe -> FAULT %s", errname(e).c_str());
		return fail(e);
	}
	for (size_t i = 0; i < n; i++) {
		u64 val = 0;
		long long key = pairs[i].key;
		if (!E.world->hwprobe((u32)(first < 0 ? 0 : first), key, &val)) {
			if (key == 0) {
				R->ev("hwprobe -> ENOSYS");
				return fail(ENOSYS);
			}
			pairs[i].key = -1;
			pairs[i].value = 0;
			continue;
		}
		pairs[i].value = val;
	}
	R->ev("hwprobe cpu %d", first);
	return 0;
}

long sim_syscall(long nr, long a, long b, long c, long d, long e, long f) {
	(void)f;
	if (nr == SYS_getcpu)
		return do_getcpu((unsigned*)a, (unsigned*)b);
	if (nr == 258)
		return do_hwprobe((hwprobe_pair*)a, (size_t)b, (size_t)c, (const unsigned long*)d, (unsigned)e);
	if (nr == SYS_gettid)
		return sim_gettid();
	if (nr == SYS_openat)
		return do_open((const char*)b, (int)c);
	if (nr == SYS_open)
		return do_open((const char*)a, (int)b);
	if (nr == SYS_read)
		return do_read((int)a, (void*)b, (size_t)c, false, 0);
	if (nr == SYS_write)
		return do_write((int)a, (const void*)b, (size_t)c);
	if (nr == SYS_close)
		return do_close((int)a);
	if (R) {
		E.other_ops++;
		R->ev("syscall %ld -> ENOSYS", nr);
	}
	return fail(ENOSYS);
}
unsigned long sim_getauxval(unsigned long t) {
	u32 v = op("getauxval");
	if (!R)
		return 0;
	E.other_ops++;
	str key = sfmt("getauxval:%lu", t);
	if (!v && E.dead_calls.count(key)) {
		errno = ENOENT;
		return 0;
	}
	if (v) {
		E.faulted_calls.insert(key);
		R->fault("getauxval:absent");
		R->ev("getauxval %lu -> FAULT 0", t);
		errno = ENOENT;
		return 0;
	}
	unsigned long r = E.world->auxv(t);
	R->ev("getauxval %lu -> 0x%lx", t, r);
	return r;
}
int sim_prctl(int o, ...) {
	u32 v = op("prctl");
	if (!R)
		return fail(EINVAL);
	E.other_ops++;
	str key = sfmt("prctl:%d", o);
	if (!v && E.dead_calls.count(key))
		return fail(EINVAL);
	if (v) {
		E.faulted_calls.insert(key);
		R->fault("prctl:EINVAL");
		R->ev("prctl %d -> FAULT", o);
		return fail(EINVAL);
	}
	long r = E.world->prctl(o);
	R->ev("prctl %d -> %ld", o, r);
	return r < 0 ? fail(EINVAL) : (int)r;
}
long sim_sysconf(int n) {
	if (R)
		E.other_ops++;
	if (n == _SC_PAGESIZE)
		return 4096;
	return fail(EINVAL);
}
int sim_getpagesize(void) { return 4096; }
int sim_get_nprocs(void) { return 1; }
int sim_get_nprocs_conf(void) { return 1; }
int sim_sched_getaffinity(int, size_t, void*) { if (R) E.other_ops++; return fail(EPERM); }
int sim_sched_setaffinity(int, size_t, const void*) {
	if (R) {
		E.other_ops++;
		E.bad("sched_setaffinity");
	}
	return fail(EPERM);
}
int sim_uname(struct utsname* u) { memset(u, 0, sizeof *u); return 0; }
void sim_cpuid(unsigned leaf, unsigned sub, unsigned out[4]) {
	out[0] = out[1] = out[2] = out[3] = 0;
	if (!R)
		return;
	yield_point(UNIT_SEAM);
	E.cpuid_ops++;
	E.world->cpuid(T ? T->cpu : 0, leaf, sub, out);
	R->ev("cpuid %x.%u -> %08x %08x %08x %08x", leaf, sub, out[0], out[1], out[2], out[3]);
}
uint64_t cpuinfo_sim_xgetbv(uint32_t r) {
	if (!R)
		return 0;
	E.cpuid_ops++;
	return E.world->xgetbv(r);
}

/* termination */
[[noreturn]] void sim_abort(void) {
	if (!R || !T)
		abort();
	R->ev("abort");
	thread_abort();
}
[[noreturn]] void sim_exit(int c) {
	if (!R || !T)
		abort();
	R->ev("exit %d", c);
	E.exit_status = c;
	thread_abort();
}
[[noreturn]] void sim__exit(int c) { sim_exit(c); }
[[noreturn]] void sim___assert_fail(const char* a, const char* file, unsigned line, const char*) {
	if (R)
		R->violation("assert", "assertion %s failed at %s:%u", a, file, line);
	sim_abort();
}
[[noreturn]] void sim_raise_abort(int) { sim_abort(); }

/* sorting: any order of equal elements is a legal result */
void sim_qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
	if (!R) {
		qsort(base, n, w, cmp);
		return;
	}
	yield_point(UNIT_SEAM);
	if (n < 2)
		return;
	char* b = (char*)base;
	std::vector<char> copy(b, b + n * w);
	std::vector<u32> idx(n);
	for (size_t i = 0; i < n; i++)
		idx[i] = (u32)i;
	if (E.sort_seed) {
		Rng r(E.sort_seed);
		for (size_t i = n - 1; i > 0; i--)
			std::swap(idx[i], idx[r.below((u32)i + 1)]);
	}
	/* merge sort: tolerates inconsistent comparators */
	std::vector<u32> tmp(n);
	for (size_t width = 1; width < n; width *= 2) {
		for (size_t lo = 0; lo < n; lo += 2 * width) {
			size_t mid = std::min(lo + width, n), hi = std::min(lo + 2 * width, n);
			size_t i = lo, j = mid, k = lo;
			while (i < mid && j < hi)
				tmp[k++] = cmp(&copy[idx[j] * w], &copy[idx[i] * w]) < 0 ? idx[j++] : idx[i++];
			while (i < mid)
				tmp[k++] = idx[i++];
			while (j < hi)
				tmp[k++] = idx[j++];
		}
		idx.swap(tmp);
	}
	for (size_t i = 0; i < n; i++)
		memcpy(b + i * w, &copy[idx[i] * w], w);
	R->ev("qsort %zu elements", n);
}
}
