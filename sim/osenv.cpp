/*
 * Calls of systems other than Linux: sysctl, Emscripten, Android.
 */
#include "observe.h"
#include "seam.h"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdlib>

bool ask(const str& key, str* raw, const std::function<bool(str*)>& machine) {
	u32 nth = E.answered[key]++;
	E.asked_calls.insert(key);
	if (E.dead_calls.count(key))
		return false;
	auto a = E.answer.find(key);
	u32 from = E.later_from.count(key) ? E.later_from[key] : 1;
	if (nth >= from && E.answer_later.count(key))
		a = E.answer_later.find(key);
	if (a != E.answer.end()) {
		*raw = a->second;
		return true;
	}
	return machine(raw);
}

/* what the numeric names of <sys/sysctl.h> are called */
static const struct { int top, second; const char* name; } mibs[] = {
	{6, 1, "hw.machine"}, {6, 2, "hw.model"}, {6, 3, "hw.ncpu"}, {6, 16, "hw.cachelinesize"}, {6, 17, "hw.l1icachesize"}, {6, 18, "hw.l1dcachesize"},
	{6, 20, "hw.l2cachesize"}, {6, 22, "hw.l3cachesize"}, {6, 25, "hw.activecpu"},
};

static int do_sysctl(const str& name, void* oldp, size_t* oldlenp, const void* newp) {
	u32 v = op("sysctl");
	if (!R)
		return fail(ENOENT);
	E.other_ops++;
	if (newp)
		E.bad("sysctl %s changes the value", name.c_str());
	str key = "sysctl:" + name, raw;
	if (v) {
		static const int errs[] = {ENOENT, EPERM, ENOMEM, EINVAL, EINTR};
		int e = errs[(v - 1) % 5];
		E.faulted_calls.insert(key);
		R->fault("sysctl:" + errname(e));
		R->ev("sysctl %s -> FAULT %s", name.c_str(), errname(e).c_str());
		return fail(e);
	}
	if (!ask(key, &raw, [&](str* r) { return E.world->sysctl(name, r); })) {
		R->ev("sysctl %s -> ENOENT", name.c_str());
		return fail(ENOENT);
	}
	if (!oldp) {
		if (oldlenp)
			*oldlenp = raw.size();
		R->ev("sysctl %s: %zu bytes", name.c_str(), raw.size());
		return 0;
	}
	if (!oldlenp)
		return fail(EFAULT);
	size_t n = std::min(*oldlenp, raw.size());
	memcpy(oldp, raw.data(), n);
	bool cut = n < raw.size();
	*oldlenp = n;
	u64 num = 0;
	memcpy(&num, raw.data(), std::min<size_t>(8, raw.size()));
	R->ev("sysctl %s -> %zu of %zu bytes, 0x%llx%s", name.c_str(), n, raw.size(), (unsigned long long)num, cut ? ", ENOMEM" : "");
	if (cut) {
		R->probe("sysctl_too_long");
		return fail(ENOMEM);
	}
	return 0;
}

static str mib_name(const int* mib, unsigned n) {
	if (n == 2)
		for (auto& m : mibs)
			if (m.top == mib[0] && m.second == mib[1])
				return m.name;
	str s = "mib";
	for (unsigned i = 0; i < n; i++)
		s += sfmt(".%d", mib[i]);
	return s;
}

extern "C" {

int sim_sysctlbyname(const char* name, void* oldp, size_t* oldlenp, const void* newp, size_t) { return do_sysctl(name, oldp, oldlenp, newp); }
int sim_sysctl(const int* mib, unsigned n, void* oldp, size_t* oldlenp, const void* newp, size_t) { return do_sysctl(mib_name(mib, n), oldp, oldlenp, newp); }
int sim_sysctlnametomib(const char* name, int* mib, size_t* n) {
	if (R)
		E.other_ops++;
	for (auto& m : mibs)
		if (!strcmp(m.name, name) && *n >= 2) {
			mib[0] = m.top;
			mib[1] = m.second;
			*n = 2;
			return 0;
		}
	return fail(ENOENT);
}

size_t sim_strlcpy(char* d, const char* s, size_t n) {
	size_t l = strlen(s);
	if (n) {
		size_t k = std::min(l, n - 1);
		memcpy(d, s, k);
		d[k] = 0;
	}
	return l;
}
size_t sim_strlcat(char* d, const char* s, size_t n) {
	size_t at = strnlen(d, n);
	return at + (at < n ? sim_strlcpy(d + at, s, n - at) : strlen(s));
}

/* Emscripten */
int sim_emscripten_num_logical_cores(void) {
	op("num_logical_cores");
	if (!R)
		return 1;
	E.other_ops++;
	str raw;
	ask("num_logical_cores", &raw, [](str* r) {
		int n = E.world->num_logical_cores();
		r->assign((const char*)&n, sizeof n);
		return true;
	});
	int n = 0;
	memcpy(&n, raw.data(), std::min(sizeof n, raw.size()));
	R->ev("emscripten_num_logical_cores -> %d", n);
	return n;
}
int sim_emscripten_has_threading_support(void) { return 1; }
int sim_nan_sign(double x) { return R && std::isnan(x) ? E.world->nan_negative() : std::signbit(x); }

/* Android */
int sim___system_property_get(const char* name, char* out) {
	u32 v = op("property");
	out[0] = 0;
	if (!R)
		return 0;
	E.other_ops++;
	str key = str("property:") + name, value;
	if (v) {
		E.faulted_calls.insert(key);
		R->fault("property:absent");
		R->ev("property %s -> FAULT absent", name);
		return 0;
	}
	if (!ask(key, &value, [&](str* r) { return E.world->property(name, r); }))
		value.clear();
	value.resize(std::min<size_t>(value.size(), 91));
	memcpy(out, value.c_str(), value.size() + 1);
	R->ev("property %s -> '%s'", name, out);
	return (int)strlen(out);
}
int sim___android_log_vprint(int prio, const char*, const char* fmt, va_list ap) {
	char* s = nullptr;
	int n = vasprintf(&s, fmt, ap);
	do_write(ANDROID_STREAM + prio, s, (size_t)n);
	free(s);
	return n;
}
int sim___android_log_print(int prio, const char* tag, const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int n = sim___android_log_vprint(prio, tag, fmt, ap);
	va_end(ap);
	return n;
}
int sim___android_log_write(int prio, const char*, const char* text) {
	do_write(ANDROID_STREAM + prio, text, strlen(text));
	return 1;
}

/* shared libraries: Android's C library is looked up by name */
unsigned long sim_getauxval(unsigned long);
static char libc_handle;
void* sim_dlopen(const char* name, int) {
	u32 v = op("dlopen");
	if (!R)
		return nullptr;
	E.other_ops++;
	str key = str("dlopen:") + (name ? name : "");
	E.asked_calls.insert(key);
	if (obs_os != 5 || !name || str(name).find("libc.so") == str::npos || E.dead_calls.count(key)) {
		R->ev("dlopen %s -> NULL", name ? name : "(self)");
		return nullptr;
	}
	if (v) {
		E.faulted_calls.insert(key);
		R->fault("dlopen:NULL");
		R->ev("dlopen %s -> FAULT NULL", name);
		return nullptr;
	}
	E.libraries++;
	R->ev("dlopen %s", name);
	return &libc_handle;
}
void* sim_dlsym(void* h, const char* name) {
	u32 v = op("dlsym");
	if (!R)
		return nullptr;
	E.other_ops++;
	if (h != &libc_handle && h != nullptr && h != (void*)-1)
		E.bad("dlsym with a handle that is not open");
	str key = str("dlsym:") + name;
	E.asked_calls.insert(key);
	if (v) {
		E.faulted_calls.insert(key);
		R->fault("dlsym:NULL");
		R->ev("dlsym %s -> FAULT NULL", name);
		return nullptr;
	}
	bool have = obs_os == 5 && !strcmp(name, "getauxval") && !E.dead_calls.count(key);
	R->ev("dlsym %s -> %s", name, have ? "found" : "NULL");
	return have ? (void*)sim_getauxval : nullptr;
}
char* sim_dlerror(void) { return (char*)"not found"; }
int sim_dlclose(void* h) {
	if (!R)
		return 0;
	E.other_ops++;
	if (h != &libc_handle || !E.libraries)
		E.bad("dlclose of a library that is not open");
	else
		E.libraries--;
	R->ev("dlclose");
	return 0;
}
}
