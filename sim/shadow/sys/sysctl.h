/* Stand-in for the BSD and Darwin header. */
#ifndef SIM_SHADOW_SYSCTL_H
#define SIM_SHADOW_SYSCTL_H
#include <stddef.h>
#include <sys/types.h>

#define CTL_KERN 1
#define CTL_HW 6
#define CTL_MACHDEP 7

#define HW_MACHINE 1
#define HW_MODEL 2
#define HW_NCPU 3
#define HW_BYTEORDER 4
#define HW_PHYSMEM 5
#define HW_PAGESIZE 7
#define HW_CPU_FREQ 15
#define HW_CACHELINE 16
#define HW_L1ICACHESIZE 17
#define HW_L1DCACHESIZE 18
#define HW_L2SETTINGS 19
#define HW_L2CACHESIZE 20
#define HW_L3SETTINGS 21
#define HW_L3CACHESIZE 22
#define HW_MEMSIZE 24
#define HW_AVAILCPU 25

#ifdef __cplusplus
extern "C" {
#endif
int sysctl(const int*, unsigned, void*, size_t*, const void*, size_t);
int sysctlbyname(const char*, void*, size_t*, const void*, size_t);
int sysctlnametomib(const char*, int*, size_t*);
#ifdef __cplusplus
}
#endif
#endif
