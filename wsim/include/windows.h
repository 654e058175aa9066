/* The part of the Windows interface the library uses; implemented by the simulated system in wsim/win.cpp. */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int BOOL; typedef unsigned int DWORD; typedef int LONG; typedef long long LONG64; typedef unsigned int UINT; typedef unsigned short WORD;
typedef void VOID; typedef void* PVOID; typedef void* LPVOID; typedef const void* LPCVOID; typedef void* HANDLE; typedef DWORD* PDWORD; typedef DWORD* LPDWORD;
typedef size_t SIZE_T; typedef size_t ULONG_PTR; typedef size_t DWORD_PTR; typedef ptrdiff_t LONG_PTR;
#define WINAPI
#define NTAPI
#define WINBASEAPI
#define _In_
#define _In_opt_
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define INVALID_HANDLE_VALUE ((HANDLE)(LONG_PTR)-1)
#define FLS_OUT_OF_INDEXES ((DWORD)0xFFFFFFFF)
#define ERROR_SUCCESS 0
#define ERROR_ACCESS_DENIED 5
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INVALID_ADDRESS 487
#define ERROR_NO_MORE_ITEMS 259
#define PAGE_NOACCESS 0x01
#define PAGE_READONLY 0x02
#define PAGE_READWRITE 0x04
#define PAGE_WRITECOPY 0x08
#define PAGE_EXECUTE 0x10
#define PAGE_EXECUTE_READ 0x20
#define PAGE_EXECUTE_READWRITE 0x40
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_DECOMMIT 0x4000
#define MEM_RELEASE 0x8000
#define ENABLE_PROCESSED_OUTPUT 0x0001
#define ENABLE_WRAP_AT_EOL_OUTPUT 0x0002
#define ENABLE_VIRTUAL_TERMINAL_PROCESSING 0x0004
typedef VOID(NTAPI* PFLS_CALLBACK_FUNCTION)(PVOID);
typedef struct { void* debug; LONG lock_count; LONG recursion; HANDLE owner; HANDLE semaphore; ULONG_PTR spin; } CRITICAL_SECTION, *LPCRITICAL_SECTION, *PCRITICAL_SECTION;
typedef struct { DWORD dwOemId; DWORD dwPageSize; LPVOID lpMinimumApplicationAddress; LPVOID lpMaximumApplicationAddress; DWORD_PTR dwActiveProcessorMask;
    DWORD dwNumberOfProcessors; DWORD dwProcessorType; DWORD dwAllocationGranularity; WORD wProcessorLevel; WORD wProcessorRevision; } SYSTEM_INFO, *LPSYSTEM_INFO;
DWORD GetLastError(void); void SetLastError(DWORD);
HANDLE GetCurrentProcess(void); HANDLE GetCurrentThread(void); DWORD GetCurrentThreadId(void);
void InitializeCriticalSection(LPCRITICAL_SECTION); BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION, DWORD); BOOL InitializeCriticalSectionEx(LPCRITICAL_SECTION, DWORD, DWORD);
void EnterCriticalSection(LPCRITICAL_SECTION); BOOL TryEnterCriticalSection(LPCRITICAL_SECTION); void LeaveCriticalSection(LPCRITICAL_SECTION); void DeleteCriticalSection(LPCRITICAL_SECTION);
DWORD FlsAlloc(PFLS_CALLBACK_FUNCTION); BOOL FlsFree(DWORD); PVOID FlsGetValue(DWORD); BOOL FlsSetValue(DWORD, PVOID);
BOOL VirtualProtect(LPVOID, SIZE_T, DWORD, PDWORD); BOOL VirtualFree(LPVOID, SIZE_T, DWORD); BOOL FlushInstructionCache(HANDLE, LPCVOID, SIZE_T);
void GetSystemInfo(LPSYSTEM_INFO); void GetNativeSystemInfo(LPSYSTEM_INFO);
BOOL GetConsoleMode(HANDLE, LPDWORD); BOOL SetConsoleMode(HANDLE, DWORD);
/* compiler intrinsics */
static inline LONG _InterlockedCompareExchange(volatile LONG* p, LONG v, LONG c) { __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
static inline LONG64 _InterlockedCompareExchange64(volatile LONG64* p, LONG64 v, LONG64 c) { __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
static inline LONG _InterlockedIncrement(volatile LONG* p) { return __atomic_add_fetch(p, 1, __ATOMIC_SEQ_CST); }
static inline LONG _InterlockedDecrement(volatile LONG* p) { return __atomic_sub_fetch(p, 1, __ATOMIC_SEQ_CST); }
static inline LONG64 _InterlockedIncrement64(volatile LONG64* p) { return __atomic_add_fetch(p, 1, __ATOMIC_SEQ_CST); }
static inline LONG64 _InterlockedDecrement64(volatile LONG64* p) { return __atomic_sub_fetch(p, 1, __ATOMIC_SEQ_CST); }
static inline LONG _InterlockedExchange(volatile LONG* p, LONG v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
static inline LONG64 _InterlockedExchange64(volatile LONG64* p, LONG64 v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
static inline LONG _InterlockedExchangeAdd(volatile LONG* p, LONG v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
static inline LONG64 _InterlockedExchangeAdd64(volatile LONG64* p, LONG64 v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
#define InterlockedCompareExchange _InterlockedCompareExchange
#define InterlockedCompareExchange64 _InterlockedCompareExchange64
#define InterlockedIncrement _InterlockedIncrement
#define InterlockedDecrement _InterlockedDecrement
#define InterlockedIncrement64 _InterlockedIncrement64
#define InterlockedDecrement64 _InterlockedDecrement64
#ifdef __cplusplus
}
#endif
