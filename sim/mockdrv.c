/*
 * Entry points of the library's stand-ins for the system, compiled into the
 * library object of the mock variant.
 */
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#include <cpuinfo-mock.h>

struct MockFns {
	size_t file_size, cpuid_size, property_size;
	void (*put_file)(void* table, uint32_t i, const char* path, const char* content, size_t size);
	void (*put_cpuid)(void* table, uint32_t i, const uint32_t* v);
	void (*put_property)(void* table, uint32_t i, const char* key, const char* value);
	void (*filesystem)(void* table);
	int (*open)(const char* path, int flags);
	ssize_t (*read)(int fd, void* p, size_t n);
	int (*close)(int fd);
	void (*set_cpuid)(void* table, size_t n);
	void (*cpuid)(uint32_t leaf, uint32_t* regs);
	void (*cpuidex)(uint32_t leaf, uint32_t sub, uint32_t* regs);
	void (*set_hwcap)(uint32_t cap, uint64_t cap2);
	void (*properties)(void* table);
};

static void put_file(void* table, uint32_t i, const char* path, const char* content, size_t size) {
	struct cpuinfo_mock_file* f = (struct cpuinfo_mock_file*)table + i;
	f->path = path;
	f->content = content;
	f->size = size;
	f->offset = 0;
}

static void put_property(void* table, uint32_t i, const char* key, const char* value) {
	struct cpuinfo_mock_property* p = (struct cpuinfo_mock_property*)table + i;
	p->key = key;
	p->value = value;
}

static void filesystem(void* table) {
	cpuinfo_mock_filesystem((struct cpuinfo_mock_file*)table);
}

#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
static void put_cpuid(void* table, uint32_t i, const uint32_t* v) {
	struct cpuinfo_mock_cpuid* c = (struct cpuinfo_mock_cpuid*)table + i;
	c->input_eax = v[0];
	c->input_ecx = v[1];
	c->eax = v[2];
	c->ebx = v[3];
	c->ecx = v[4];
	c->edx = v[5];
}

static void set_cpuid(void* table, size_t n) {
	cpuinfo_mock_set_cpuid((struct cpuinfo_mock_cpuid*)table, n);
}
#else
static void set_hwcap(uint32_t cap, uint64_t cap2) {
	cpuinfo_set_hwcap(cap);
#if CPUINFO_ARCH_ARM
	cpuinfo_set_hwcap2(cap2);
#endif
}
#endif

#if defined(__ANDROID__) && (CPUINFO_ARCH_ARM || CPUINFO_ARCH_ARM64)
static void properties(void* table) {
	cpuinfo_mock_android_properties((struct cpuinfo_mock_property*)table);
}
#endif

const struct MockFns mock_fns = {
	.file_size = sizeof(struct cpuinfo_mock_file),
	.property_size = sizeof(struct cpuinfo_mock_property),
	.put_file = put_file,
	.put_property = put_property,
	.filesystem = filesystem,
	.open = cpuinfo_mock_open,
	.read = cpuinfo_mock_read,
	.close = cpuinfo_mock_close,
#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
	.cpuid_size = sizeof(struct cpuinfo_mock_cpuid),
	.put_cpuid = put_cpuid,
	.set_cpuid = set_cpuid,
	.cpuid = cpuinfo_mock_get_cpuid,
	.cpuidex = cpuinfo_mock_get_cpuidex,
#else
	.set_hwcap = set_hwcap,
#endif
#if defined(__ANDROID__) && (CPUINFO_ARCH_ARM || CPUINFO_ARCH_ARM64)
	.properties = properties,
#endif
};
