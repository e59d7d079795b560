#ifndef SIM_PRELUDE_H
#define SIM_PRELUDE_H
#ifndef SIM_OS
#define SIM_OS 0
#endif
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <alloca.h>
#include <assert.h>
#include <ctype.h>
#include <dirent.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <float.h>
#include <inttypes.h>
#include <limits.h>
#include <malloc.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#include <wctype.h>
#if !defined(__STDC_NO_ATOMICS__) 
#include <stdatomic.h>
#endif
#include <threads.h>
/* 0 Linux, 1 FreeBSD, 2 Darwin, 3 Windows, 4 Emscripten, 5 Android */
#if SIM_OS != 0 && SIM_OS != 5
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#endif
#if SIM_OS >= 1 && SIM_OS <= 4
#ifdef __cplusplus
extern "C" {
#endif
size_t strlcpy(char*, const char*, size_t);
size_t strlcat(char*, const char*, size_t);
#ifdef __cplusplus
}
#endif
#endif
#if SIM_OS == 1
#define __FreeBSD__ 14
#elif SIM_OS == 2
#define __APPLE__ 1
#define __MACH__ 1
#elif SIM_OS == 3
#undef __unix__
#undef __unix
#undef unix
#define _WIN32 1
#define _WIN64 1
#if SIM_PERSONALITY == 1
#define _M_X64 100
#define _M_AMD64 100
#else
#define _M_ARM64 1
#endif
#elif SIM_OS == 4
#define __EMSCRIPTEN__ 1
#define __EMSCRIPTEN_PTHREADS__ 1
#define __wasm__ 1
/* the sign of a NaN tells the library which host it runs on */
#ifdef __cplusplus
extern "C"
#endif
int sim_nan_sign(double);
#undef signbit
#define signbit(x) sim_nan_sign(x)
#elif SIM_OS == 5
#define __ANDROID__ 1
#define __ANDROID_API__ 21
#endif
#if SIM_PERSONALITY != 1
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#endif
#if SIM_PERSONALITY == 2
#define __aarch64__ 1
#elif SIM_PERSONALITY == 3
#define __arm__ 1
#define __ARM_ARCH 8
#elif SIM_PERSONALITY == 4
#define __riscv 1
#define __riscv_xlen 64
#endif
#endif
