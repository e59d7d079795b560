/*
 * Calls of Windows.
 */
#include "observe.h"
#include "seam.h"
#include "shadow/windows.h"

#include <algorithm>
#include <cerrno>

static u32 last_errors[16]; /* of each thread */
static u32& last_error() { return last_errors[T ? 1 + (u32)T->id % 15 : 0]; }
static BOOL failed(u32 e) {
	last_error() = e;
	return FALSE;
}

/* number the system answers; one that has no answer gets dflt */
static u32 number(const char* kind, const str& key, u32 dflt) {
	op(kind);
	if (!R)
		return dflt;
	E.other_ops++;
	str raw;
	u32 n = dflt;
	if (ask(key, &raw, [&](str* r) { return E.world->sysctl(key, r); }))
		memcpy(&n, raw.data(), std::min<size_t>(4, raw.size()));
	R->ev("%s -> %u", key.c_str(), n);
	return n;
}
static u32 sum(const char* kind, const str& of) {
	u32 groups = number("groups", "win:" + of + "groups", 1), n = 0;
	for (u32 i = 0; i < groups; i++)
		n += number(kind, "win:" + of + sfmt(":%u", i), 0);
	return n;
}
static bool wine() {
	str raw;
	return R && E.world->sysctl("win:wine", &raw);
}

static str narrow(const wchar_t* s) {
	str t;
	for (; s && *s; s++)
		t += (char)*s;
	return t;
}

static char ntdll, other_module, process_heap;
static int wine_version() { return 0; }

extern "C" {
int lock(const void*, bool);
int unlock(const void*);
int sim_gettid(void);
int sim_usleep(unsigned);
int sim_sched_yield(void);

DWORD sim_GetLastError(void) { return last_error(); }
void sim_SetLastError(DWORD e) { last_error() = e; }

/* libraries */
HMODULE sim_GetModuleHandleW(LPCWSTR name) {
	u32 v = op("GetModuleHandle");
	if (!R)
		return nullptr;
	E.other_ops++;
	str n = narrow(name);
	bool nt = n == "ntdll.dll" || n == "ntdll"; /* every process has it */
	if (v && !nt) {
		E.faulted_calls.insert("win:module");
		R->fault("GetModuleHandle:NULL");
		R->ev("GetModuleHandle %s -> FAULT NULL", n.c_str());
		failed(126);
		return nullptr;
	}
	R->ev("GetModuleHandle %s", n.c_str());
	return nt ? (HMODULE)&ntdll : (HMODULE)&other_module;
}
HMODULE sim_LoadLibraryW(LPCWSTR name) { return sim_GetModuleHandleW(name); }
FARPROC sim_GetProcAddress(HMODULE m, LPCSTR name) {
	op("GetProcAddress");
	if (!R)
		return nullptr;
	E.other_ops++;
	if (m != &ntdll && m != &other_module)
		E.bad("GetProcAddress in a module that is not loaded");
	bool have = m == &ntdll && !strcmp(name, "wine_get_version") && wine();
	R->ev("GetProcAddress %s -> %s", name, have ? "found" : "NULL");
	return have ? (FARPROC)wine_version : nullptr;
}

/* processors */
WORD sim_GetMaximumProcessorGroupCount(void) {
	if (wine())
		E.bad("GetMaximumProcessorGroupCount does not exist on Wine");
	return (WORD)number("groups", "win:maxgroups", 1);
}
WORD sim_GetActiveProcessorGroupCount(void) {
	if (wine())
		E.bad("GetActiveProcessorGroupCount does not exist on Wine");
	return (WORD)number("groups", "win:activegroups", 1);
}
DWORD sim_GetMaximumProcessorCount(WORD g) { return g == ALL_PROCESSOR_GROUPS ? sum("count", "max") : number("count", sfmt("win:max:%u", g), 0); }
DWORD sim_GetActiveProcessorCount(WORD g) { return g == ALL_PROCESSOR_GROUPS ? sum("count", "active") : number("count", sfmt("win:active:%u", g), 0); }
BOOL sim_GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP rel, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX out, PDWORD len) {
	u32 v = op("GetLogicalProcessorInformationEx");
	if (!R)
		return failed(ERROR_NOT_SUPPORTED);
	E.other_ops++;
	str key = sfmt("win:info:%u", (u32)rel), raw;
	if (v) {
		static const u32 errs[] = {ERROR_NOT_ENOUGH_MEMORY, ERROR_ACCESS_DENIED, ERROR_INVALID_PARAMETER, ERROR_NOT_SUPPORTED, ERROR_INSUFFICIENT_BUFFER};
		u32 e = errs[(v - 1) % 5];
		E.faulted_calls.insert(key);
		R->fault(sfmt("GetLogicalProcessorInformationEx:%u", e));
		R->ev("%s -> FAULT %u", key.c_str(), e);
		return failed(e);
	}
	bool have;
	if (rel == RelationAll) {
		have = false;
		for (u32 r = 0; r < 8; r++) {
			str part, k = sfmt("win:info:%u", r);
			if (ask(k, &part, [&](str* x) { return E.world->sysctl(k, x); })) {
				raw += part;
				have = true;
			}
		}
	} else
		have = ask(key, &raw, [&](str* x) { return E.world->sysctl(key, x); });
	if (!have) {
		R->ev("%s -> not supported", key.c_str());
		return failed(ERROR_NOT_SUPPORTED);
	}
	if (!len)
		return failed(ERROR_INVALID_PARAMETER);
	u32 room = out ? *len : 0;
	R->ev("%s: %zu bytes into %u", key.c_str(), raw.size(), room);
	*len = (DWORD)raw.size();
	if (room < raw.size()) {
		if (out)
			R->probe("info_grew");
		return failed(ERROR_INSUFFICIENT_BUFFER);
	}
	if (out)
		memcpy((void*)out, raw.data(), raw.size());
	return TRUE;
}
BOOL sim_IsProcessorFeaturePresent(DWORD f) { return (BOOL)number("feature", sfmt("win:feature:%u", f), 0); }
void sim_GetSystemInfo(LPSYSTEM_INFO i) {
	memset(i, 0, sizeof *i);
	i->wProcessorArchitecture = obs_arch == 1 ? PROCESSOR_ARCHITECTURE_AMD64 : PROCESSOR_ARCHITECTURE_ARM64;
	i->dwPageSize = 4096;
	i->dwAllocationGranularity = 65536;
	i->dwNumberOfProcessors = number("count", "win:active:0", 1);
	i->dwActiveProcessorMask = i->dwNumberOfProcessors >= 64 ? ~(DWORD_PTR)0 : ((DWORD_PTR)1 << i->dwNumberOfProcessors) - 1;
	i->wProcessorLevel = (WORD)number("level", "win:level", 6);
}
void sim_GetNativeSystemInfo(LPSYSTEM_INFO i) { sim_GetSystemInfo(i); }
DWORD sim_GetCurrentProcessorNumber(void) { return T ? T->cpu & 0xff : 0; }
void sim_GetCurrentProcessorNumberEx(PPROCESSOR_NUMBER n) {
	memset(n, 0, sizeof *n);
	n->Group = (WORD)(T ? T->cpu >> 8 : 0);
	n->Number = (BYTE)(T ? T->cpu & 0xff : 0);
}

/* memory */
HANDLE sim_GetProcessHeap(void) { return &process_heap; }
LPVOID sim_HeapAlloc(HANDLE h, DWORD flags, SIZE_T n) {
	if (R && h != &process_heap)
		E.bad("HeapAlloc from a heap that does not exist");
	return do_alloc("HeapAlloc", 0, n, flags & HEAP_ZERO_MEMORY);
}
BOOL sim_HeapFree(HANDLE h, DWORD, LPVOID p) {
	if (R && h != &process_heap)
		E.bad("HeapFree to a heap that does not exist");
	do_free(p);
	return TRUE;
}
LPVOID sim_HeapReAlloc(HANDLE h, DWORD flags, LPVOID p, SIZE_T n) {
	auto it = E.heap.find(p);
	if (it == E.heap.end()) {
		E.bad("HeapReAlloc of memory that is not allocated");
		return nullptr;
	}
	size_t old = it->second.size;
	void* q = sim_HeapAlloc(h, flags, n);
	if (q) {
		memcpy(q, p, std::min<size_t>(old, n));
		do_free(p);
	}
	return q;
}
PVOID sim_LocalAlloc(UINT flags, SIZE_T n) { return do_alloc("LocalAlloc", 0, n, flags & 0x40); }
PVOID sim_LocalFree(PVOID p) {
	do_free(p);
	return nullptr;
}

/* registry: type and data */
LSTATUS sim_RegGetValueW(HKEY, LPCWSTR, LPCWSTR value, DWORD flags, LPDWORD type, PVOID data, LPDWORD len) {
	u32 v = op("RegGetValue");
	if (!R)
		return ERROR_FILE_NOT_FOUND;
	E.other_ops++;
	str key = "win:reg:" + narrow(value), raw;
	if (v) {
		static const u32 errs[] = {ERROR_FILE_NOT_FOUND, ERROR_ACCESS_DENIED, ERROR_MORE_DATA, ERROR_NOT_ENOUGH_MEMORY};
		u32 e = errs[(v - 1) % 4];
		E.faulted_calls.insert(key);
		R->fault(sfmt("RegGetValue:%u", e));
		R->ev("%s -> FAULT %u", key.c_str(), e);
		return (LSTATUS)e;
	}
	if (!ask(key, &raw, [&](str* x) { return E.world->sysctl(key, x); }) || raw.size() < 4) {
		R->ev("%s -> not found", key.c_str());
		return ERROR_FILE_NOT_FOUND;
	}
	u32 ty;
	memcpy(&ty, raw.data(), 4);
	raw.erase(0, 4);
	u32 allow = ty == REG_SZ ? RRF_RT_REG_SZ : ty == REG_DWORD ? RRF_RT_REG_DWORD : ty == REG_QWORD ? RRF_RT_REG_QWORD : ty == REG_BINARY ? RRF_RT_REG_BINARY : RRF_RT_REG_NONE;
	if (!(flags & allow)) {
		R->ev("%s -> other type %u", key.c_str(), ty);
		return ERROR_UNSUPPORTED_TYPE;
	}
	if (type)
		*type = ty;
	u32 room = len && data ? *len : 0;
	R->ev("%s: %zu bytes into %u", key.c_str(), raw.size(), room);
	if (len)
		*len = (DWORD)raw.size();
	if (!data)
		return ERROR_SUCCESS;
	if (!len || room < raw.size())
		return ERROR_MORE_DATA;
	memcpy(data, raw.data(), raw.size());
	return ERROR_SUCCESS;
}

/* text: wchar_t is a code unit of UTF-16 that happens to have four bytes */
int sim_WideCharToMultiByte(UINT, DWORD flags, LPCWCH s, int n, LPSTR out, int room, LPCCH, LPBOOL) {
	u32 v = op("WideCharToMultiByte");
	if (R)
		E.other_ops++;
	if (v) {
		R->fault("WideCharToMultiByte:0");
		R->ev("WideCharToMultiByte -> FAULT");
		failed(ERROR_NOT_ENOUGH_MEMORY);
		return 0;
	}
	if (!s || !n) {
		failed(ERROR_INVALID_PARAMETER);
		return 0;
	}
	size_t len = n < 0 ? wcslen(s) + 1 : (size_t)n;
	str t;
	for (size_t i = 0; i < len; i++) {
		u32 c = (u32)s[i] & 0xffff;
		if (c >= 0xd800 && c < 0xdc00 && i + 1 < len && ((u32)s[i + 1] & 0xfc00) == 0xdc00)
			c = 0x10000 + ((c & 0x3ff) << 10) + ((u32)s[++i] & 0x3ff);
		else if (c >= 0xd800 && c < 0xe000) {
			if (flags & WC_ERR_INVALID_CHARS) {
				failed(ERROR_NO_UNICODE_TRANSLATION);
				return 0;
			}
			c = 0xfffd;
		}
		if (c < 0x80)
			t += (char)c;
		else if (c < 0x800) {
			t += (char)(0xc0 | c >> 6);
			t += (char)(0x80 | (c & 63));
		} else if (c < 0x10000) {
			t += (char)(0xe0 | c >> 12);
			t += (char)(0x80 | (c >> 6 & 63));
			t += (char)(0x80 | (c & 63));
		} else {
			t += (char)(0xf0 | c >> 18);
			t += (char)(0x80 | (c >> 12 & 63));
			t += (char)(0x80 | (c >> 6 & 63));
			t += (char)(0x80 | (c & 63));
		}
	}
	if (!room)
		return (int)t.size();
	/* what fits is written all the same */
	memcpy(out, t.data(), std::min<size_t>((size_t)room, t.size()));
	if ((size_t)room < t.size()) {
		failed(ERROR_INSUFFICIENT_BUFFER);
		return 0;
	}
	return (int)t.size();
}
int sim_wcsncpy_s(wchar_t* d, size_t room, const wchar_t* s, size_t n) {
	if (!d || !room)
		return EINVAL;
	size_t l = 0;
	while (l < n && s[l])
		l++;
	if (l >= room) {
		if (n != _TRUNCATE) {
			d[0] = 0;
			E.bad("wcsncpy_s with a destination that is too small ends the process");
			return ERANGE;
		}
		l = room - 1;
	}
	for (size_t i = 0; i < l; i++)
		d[i] = s[i];
	d[l] = 0;
	return 0;
}
int sim_wcscpy_s(wchar_t* d, size_t room, const wchar_t* s) { return sim_wcsncpy_s(d, room, s, wcslen(s)); }
int sim_strncpy_s(char* d, size_t room, const char* s, size_t n) {
	if (!d || !room)
		return EINVAL;
	size_t l = strnlen(s, n);
	if (l >= room) {
		if (n != _TRUNCATE) {
			d[0] = 0;
			E.bad("strncpy_s with a destination that is too small ends the process");
			return ERANGE;
		}
		l = room - 1;
	}
	memcpy(d, s, l);
	d[l] = 0;
	return 0;
}
int sim_memcpy_s(void* d, size_t room, const void* s, size_t n) {
	if (n > room) {
		E.bad("memcpy_s with a destination that is too small ends the process");
		return ERANGE;
	}
	memcpy(d, s, n);
	return 0;
}

/* synchronisation: 0 not begun, 1 running, 2 done */
BOOL sim_InitOnceExecuteOnce(PINIT_ONCE o, PINIT_ONCE_FN f, PVOID parameter, LPVOID* context) {
	if (!R)
		return TRUE;
	yield_point(UNIT_SEAM);
	E.lock_ops++;
	if (T)
		T->lock_ops++;
	for (;;) {
		uintptr_t st = *(volatile uintptr_t*)o;
		if (st == 2) {
			memory_acquire(o);
			return TRUE;
		}
		if (st != 1) {
			memory_acquire(o);
			*(volatile uintptr_t*)o = 1;
			R->ev("once: begin");
			BOOL ok = f(o, parameter, context);
			memory_release(o);
			*(volatile uintptr_t*)o = ok ? 2 : 0;
			R->ev("once: end %d", ok);
			wake_all(o);
			yield_point(UNIT_SEAM);
			return ok;
		}
		R->ev("once: wait");
		R->probe("once_wait");
		block_on(o);
	}
}
void sim_AcquireSRWLockExclusive(PSRWLOCK l) { lock(l, true); }
void sim_ReleaseSRWLockExclusive(PSRWLOCK l) { unlock(l); }
void sim_AcquireSRWLockShared(PSRWLOCK l) { lock(l, true); }
void sim_ReleaseSRWLockShared(PSRWLOCK l) { unlock(l); }
void sim_InitializeSRWLock(PSRWLOCK) {}
void sim_InitializeCriticalSection(LPCRITICAL_SECTION) {}
void sim_DeleteCriticalSection(LPCRITICAL_SECTION) {}
void sim_EnterCriticalSection(LPCRITICAL_SECTION l) { lock(l, true); }
void sim_LeaveCriticalSection(LPCRITICAL_SECTION l) { unlock(l); }
void sim_Sleep(DWORD ms) { sim_usleep(ms * 1000); }
BOOL sim_SwitchToThread(void) { return sim_sched_yield() == 0; }
DWORD sim_GetCurrentThreadId(void) { return (DWORD)sim_gettid(); }

/* output */
HANDLE sim_GetStdHandle(DWORD n) { return n == STD_OUTPUT_HANDLE ? (HANDLE)1 : n == STD_ERROR_HANDLE ? (HANDLE)2 : INVALID_HANDLE_VALUE; }
BOOL sim_WriteFile(HANDLE h, LPCVOID p, DWORD n, LPDWORD done, PVOID) {
	ssize_t r = do_write((int)(intptr_t)h, p, n);
	if (done)
		*done = r < 0 ? 0 : (DWORD)r;
	return r < 0 ? failed(ERROR_ACCESS_DENIED) : TRUE;
}
}
