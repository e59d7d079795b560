/* Stand-in for the Windows SDK header: what a program that looks at processors may use. */
#ifndef SIM_SHADOW_WINDOWS_H
#define SIM_SHADOW_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>

#define WINAPI
#define CALLBACK
#define APIENTRY
#define NTAPI
#define CONST const
#define VOID void
#define __int64 long
#define __forceinline inline
#ifndef FALSE
#define FALSE 0
#define TRUE 1
#endif
#ifndef __cplusplus
#undef min
#undef max
#define min(a, b) (((a) < (b)) ? (a) : (b))
#define max(a, b) (((a) > (b)) ? (a) : (b))
#endif
#define MAXDWORD 0xffffffffu
#define MAX_PATH 260

typedef int BOOL;
typedef uint8_t BYTE, BOOLEAN, UCHAR;
typedef char CHAR;
typedef wchar_t WCHAR;
typedef uint16_t WORD, USHORT;
typedef int16_t SHORT;
typedef uint32_t DWORD, UINT, ULONG;
typedef int32_t LONG, INT, LSTATUS, HRESULT;
typedef uint64_t DWORD64, ULONGLONG, ULONG64, DWORDLONG;
typedef int64_t LONGLONG, LONG64;
typedef uintptr_t ULONG_PTR, DWORD_PTR, UINT_PTR, KAFFINITY;
typedef intptr_t LONG_PTR, INT_PTR;
typedef size_t SIZE_T;
typedef void *PVOID, *LPVOID, *HANDLE, *HMODULE, *HINSTANCE, *HKEY;
typedef const void *LPCVOID, *PCVOID;
typedef BOOL *PBOOL, *LPBOOL;
typedef BYTE *PBYTE, *LPBYTE;
typedef WORD *PWORD, *LPWORD, *PUSHORT;
typedef DWORD *PDWORD, *LPDWORD, *PULONG;
typedef CHAR *LPSTR, *PSTR;
typedef const CHAR *LPCSTR, *PCSTR, *LPCCH;
typedef WCHAR *LPWSTR, *PWSTR;
typedef const WCHAR *LPCWSTR, *PCWSTR, *LPCWCH;
typedef intptr_t (*FARPROC)(void);
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)

#define ERROR_SUCCESS 0
#define NO_ERROR 0
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_ACCESS_DENIED 5
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_NOT_SUPPORTED 50
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_MORE_DATA 234
#define ERROR_NO_UNICODE_TRANSLATION 1113
#define ERROR_UNSUPPORTED_TYPE 1630

#define HEAP_NO_SERIALIZE 1
#define HEAP_GENERATE_EXCEPTIONS 4
#define HEAP_ZERO_MEMORY 8

#define ZeroMemory(p, n) memset((p), 0, (n))
#define RtlZeroMemory(p, n) memset((p), 0, (n))
#define SecureZeroMemory(p, n) memset((p), 0, (n))
#define FillMemory(p, n, v) memset((p), (v), (n))
#define CopyMemory(d, s, n) memcpy((d), (s), (n))
#define MoveMemory(d, s, n) memmove((d), (s), (n))
#define MemoryBarrier() __sync_synchronize()
#define FIELD_OFFSET(t, f) offsetof(t, f)
#define UNREFERENCED_PARAMETER(p) ((void)(p))
#define ARRAYSIZE(a) (sizeof(a) / sizeof *(a))
#define _alloca __builtin_alloca

/* processors */
#define ALL_PROCESSOR_GROUPS 0xffff
#define MAXIMUM_PROC_PER_GROUP 64
typedef enum _LOGICAL_PROCESSOR_RELATIONSHIP {
	RelationProcessorCore = 0,
	RelationNumaNode = 1,
	RelationCache = 2,
	RelationProcessorPackage = 3,
	RelationGroup = 4,
	RelationProcessorDie = 5,
	RelationNumaNodeEx = 6,
	RelationProcessorModule = 7,
	RelationAll = 0xffff
} LOGICAL_PROCESSOR_RELATIONSHIP;
typedef enum _PROCESSOR_CACHE_TYPE { CacheUnified, CacheInstruction, CacheData, CacheTrace, CacheUnknown } PROCESSOR_CACHE_TYPE;
#define CACHE_FULLY_ASSOCIATIVE 0xFF
#define LTP_PC_SMT 1

typedef struct _GROUP_AFFINITY {
	KAFFINITY Mask;
	WORD Group;
	WORD Reserved[3];
} GROUP_AFFINITY, *PGROUP_AFFINITY;
typedef struct _PROCESSOR_NUMBER {
	WORD Group;
	BYTE Number;
	BYTE Reserved;
} PROCESSOR_NUMBER, *PPROCESSOR_NUMBER;
typedef struct _PROCESSOR_RELATIONSHIP {
	BYTE Flags;
	BYTE EfficiencyClass;
	BYTE Reserved[20];
	WORD GroupCount;
	GROUP_AFFINITY GroupMask[1];
} PROCESSOR_RELATIONSHIP, *PPROCESSOR_RELATIONSHIP;
typedef struct _NUMA_NODE_RELATIONSHIP {
	DWORD NodeNumber;
	BYTE Reserved[18];
	WORD GroupCount;
	union {
		GROUP_AFFINITY GroupMask;
		GROUP_AFFINITY GroupMasks[1];
	};
} NUMA_NODE_RELATIONSHIP, *PNUMA_NODE_RELATIONSHIP;
typedef struct _CACHE_RELATIONSHIP {
	BYTE Level;
	BYTE Associativity;
	WORD LineSize;
	DWORD CacheSize;
	PROCESSOR_CACHE_TYPE Type;
	BYTE Reserved[18];
	WORD GroupCount;
	union {
		GROUP_AFFINITY GroupMask;
		GROUP_AFFINITY GroupMasks[1];
	};
} CACHE_RELATIONSHIP, *PCACHE_RELATIONSHIP;
typedef struct _PROCESSOR_GROUP_INFO {
	BYTE MaximumProcessorCount;
	BYTE ActiveProcessorCount;
	BYTE Reserved[38];
	KAFFINITY ActiveProcessorMask;
} PROCESSOR_GROUP_INFO, *PPROCESSOR_GROUP_INFO;
typedef struct _GROUP_RELATIONSHIP {
	WORD MaximumGroupCount;
	WORD ActiveGroupCount;
	BYTE Reserved[20];
	PROCESSOR_GROUP_INFO GroupInfo[1];
} GROUP_RELATIONSHIP, *PGROUP_RELATIONSHIP;
typedef struct _SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX {
	LOGICAL_PROCESSOR_RELATIONSHIP Relationship;
	DWORD Size;
	union {
		PROCESSOR_RELATIONSHIP Processor;
		NUMA_NODE_RELATIONSHIP NumaNode;
		CACHE_RELATIONSHIP Cache;
		GROUP_RELATIONSHIP Group;
	};
} SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, *PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX;
typedef struct _SYSTEM_INFO {
	union {
		DWORD dwOemId;
		struct {
			WORD wProcessorArchitecture;
			WORD wReserved;
		};
	};
	DWORD dwPageSize;
	LPVOID lpMinimumApplicationAddress;
	LPVOID lpMaximumApplicationAddress;
	DWORD_PTR dwActiveProcessorMask;
	DWORD dwNumberOfProcessors;
	DWORD dwProcessorType;
	DWORD dwAllocationGranularity;
	WORD wProcessorLevel;
	WORD wProcessorRevision;
} SYSTEM_INFO, *LPSYSTEM_INFO;
#define PROCESSOR_ARCHITECTURE_AMD64 9
#define PROCESSOR_ARCHITECTURE_ARM64 12
#define PROCESSOR_ARCHITECTURE_INTEL 0

#define PF_FLOATING_POINT_PRECISION_ERRATA 0
#define PF_FLOATING_POINT_EMULATED 1
#define PF_COMPARE_EXCHANGE_DOUBLE 2
#define PF_MMX_INSTRUCTIONS_AVAILABLE 3
#define PF_XMMI_INSTRUCTIONS_AVAILABLE 6
#define PF_RDTSC_INSTRUCTION_AVAILABLE 8
#define PF_XMMI64_INSTRUCTIONS_AVAILABLE 10
#define PF_SSE3_INSTRUCTIONS_AVAILABLE 13
#define PF_XSAVE_ENABLED 17
#define PF_ARM_VFP_32_REGISTERS_AVAILABLE 18
#define PF_ARM_NEON_INSTRUCTIONS_AVAILABLE 19
#define PF_ARM_DIVIDE_INSTRUCTION_AVAILABLE 24
#define PF_ARM_64BIT_LOADSTORE_ATOMIC 25
#define PF_ARM_EXTERNAL_CACHE_AVAILABLE 26
#define PF_ARM_FMAC_INSTRUCTIONS_AVAILABLE 27
#define PF_ARM_V8_INSTRUCTIONS_AVAILABLE 29
#define PF_ARM_V8_CRYPTO_INSTRUCTIONS_AVAILABLE 30
#define PF_ARM_V8_CRC32_INSTRUCTIONS_AVAILABLE 31
#define PF_ARM_V81_ATOMIC_INSTRUCTIONS_AVAILABLE 34
#define PF_ARM_V82_DP_INSTRUCTIONS_AVAILABLE 43
#define PF_ARM_V83_JSCVT_INSTRUCTIONS_AVAILABLE 44
#define PF_ARM_V83_LRCPC_INSTRUCTIONS_AVAILABLE 45
#define PF_ARM_SVE_INSTRUCTIONS_AVAILABLE 46
#define PF_ARM_SVE2_INSTRUCTIONS_AVAILABLE 47

/* registry */
#define HKEY_LOCAL_MACHINE ((HKEY)(uintptr_t)0x80000002u)
#define HKEY_CURRENT_USER ((HKEY)(uintptr_t)0x80000001u)
#define REG_NONE 0
#define REG_SZ 1
#define REG_EXPAND_SZ 2
#define REG_BINARY 3
#define REG_DWORD 4
#define REG_QWORD 11
#define RRF_RT_REG_NONE 0x01
#define RRF_RT_REG_SZ 0x02
#define RRF_RT_REG_EXPAND_SZ 0x04
#define RRF_RT_REG_BINARY 0x08
#define RRF_RT_REG_DWORD 0x10
#define RRF_RT_REG_MULTI_SZ 0x20
#define RRF_RT_REG_QWORD 0x40
#define RRF_RT_DWORD 0x18
#define RRF_RT_QWORD 0x48
#define RRF_RT_ANY 0xffff
#define RRF_ZEROONFAILURE 0x20000000

/* text */
#define CP_ACP 0
#define CP_UTF8 65001
#define WC_ERR_INVALID_CHARS 0x80
#define MB_ERR_INVALID_CHARS 8
#define _TRUNCATE ((size_t)-1)

/* one-time initialization and locks */
typedef union _RTL_RUN_ONCE { PVOID Ptr; } INIT_ONCE, *PINIT_ONCE, *LPINIT_ONCE;
#define INIT_ONCE_STATIC_INIT {0}
#define RTL_RUN_ONCE_INIT {0}
typedef BOOL(CALLBACK* PINIT_ONCE_FN)(PINIT_ONCE, PVOID, PVOID*);
typedef struct { PVOID Ptr; } SRWLOCK, *PSRWLOCK;
#define SRWLOCK_INIT {0}
typedef struct { PVOID Ptr[5]; } CRITICAL_SECTION, *LPCRITICAL_SECTION;

#define STD_INPUT_HANDLE ((DWORD)-10)
#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE ((DWORD)-12)

#ifdef __cplusplus
extern "C" {
#endif
HMODULE GetModuleHandleW(LPCWSTR);
HMODULE GetModuleHandleA(LPCSTR);
HMODULE LoadLibraryW(LPCWSTR);
FARPROC GetProcAddress(HMODULE, LPCSTR);
WORD GetMaximumProcessorGroupCount(void);
WORD GetActiveProcessorGroupCount(void);
DWORD GetMaximumProcessorCount(WORD);
DWORD GetActiveProcessorCount(WORD);
BOOL GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, PDWORD);
BOOL IsProcessorFeaturePresent(DWORD);
void GetSystemInfo(LPSYSTEM_INFO);
void GetNativeSystemInfo(LPSYSTEM_INFO);
DWORD GetCurrentProcessorNumber(void);
void GetCurrentProcessorNumberEx(PPROCESSOR_NUMBER);
HANDLE GetProcessHeap(void);
LPVOID HeapAlloc(HANDLE, DWORD, SIZE_T);
LPVOID HeapReAlloc(HANDLE, DWORD, LPVOID, SIZE_T);
BOOL HeapFree(HANDLE, DWORD, LPVOID);
PVOID LocalAlloc(UINT, SIZE_T);
PVOID LocalFree(PVOID);
DWORD GetLastError(void);
void SetLastError(DWORD);
LSTATUS RegGetValueW(HKEY, LPCWSTR, LPCWSTR, DWORD, LPDWORD, PVOID, LPDWORD);
int WideCharToMultiByte(UINT, DWORD, LPCWCH, int, LPSTR, int, LPCCH, LPBOOL);
int wcsncpy_s(wchar_t*, size_t, const wchar_t*, size_t);
int wcscpy_s(wchar_t*, size_t, const wchar_t*);
int memcpy_s(void*, size_t, const void*, size_t);
int strncpy_s(char*, size_t, const char*, size_t);
BOOL InitOnceExecuteOnce(PINIT_ONCE, PINIT_ONCE_FN, PVOID, LPVOID*);
void AcquireSRWLockExclusive(PSRWLOCK);
void ReleaseSRWLockExclusive(PSRWLOCK);
void AcquireSRWLockShared(PSRWLOCK);
void ReleaseSRWLockShared(PSRWLOCK);
void InitializeSRWLock(PSRWLOCK);
void InitializeCriticalSection(LPCRITICAL_SECTION);
void EnterCriticalSection(LPCRITICAL_SECTION);
void LeaveCriticalSection(LPCRITICAL_SECTION);
void DeleteCriticalSection(LPCRITICAL_SECTION);
void Sleep(DWORD);
BOOL SwitchToThread(void);
DWORD GetCurrentThreadId(void);
HANDLE GetStdHandle(DWORD);
BOOL WriteFile(HANDLE, LPCVOID, DWORD, LPDWORD, PVOID);
#ifdef __cplusplus
}
#endif

static __inline unsigned char _BitScanForward(unsigned long* index, unsigned long mask) {
	if (!(uint32_t)mask)
		return 0;
	*index = (unsigned long)__builtin_ctz((uint32_t)mask);
	return 1;
}
static __inline unsigned char _BitScanForward64(unsigned long* index, uint64_t mask) {
	if (!mask)
		return 0;
	*index = (unsigned long)__builtin_ctzll(mask);
	return 1;
}
static __inline unsigned char _BitScanReverse(unsigned long* index, unsigned long mask) {
	if (!(uint32_t)mask)
		return 0;
	*index = 31ul - (unsigned long)__builtin_clz((uint32_t)mask);
	return 1;
}
static __inline unsigned char _BitScanReverse64(unsigned long* index, uint64_t mask) {
	if (!mask)
		return 0;
	*index = 63ul - (unsigned long)__builtin_clzll(mask);
	return 1;
}
#define InterlockedCompareExchange(p, v, c) __sync_val_compare_and_swap((p), (c), (v))
#define InterlockedCompareExchangePointer(p, v, c) __sync_val_compare_and_swap((p), (c), (v))
#define InterlockedExchange(p, v) __atomic_exchange_n((p), (v), __ATOMIC_SEQ_CST)
#define InterlockedExchangePointer(p, v) __atomic_exchange_n((p), (v), __ATOMIC_SEQ_CST)
#define InterlockedIncrement(p) __sync_add_and_fetch((p), 1)
#define InterlockedDecrement(p) __sync_sub_and_fetch((p), 1)
#define InterlockedOr(p, v) __sync_fetch_and_or((p), (v))
#define YieldProcessor() ((void)0)
#endif
