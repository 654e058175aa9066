// Build without libc: what the library does not provide in that configuration. The generator does not use it.
#include <cstdlib>
extern "C"
{
extern int zsim_nolibc;
int zsim_nolibc = 1;
#define ABSENT(f) __attribute__((weak)) void f() { abort(); }
ABSENT(ZyanVectorInit) ABSENT(ZyanVectorDuplicate) ABSENT(ZyanListInit) ABSENT(ZyanBitsetInit)
ABSENT(ZyanStringInit) ABSENT(ZyanStringDuplicate) ABSENT(ZyanStringConcat) ABSENT(ZyanStringAppendFormat)
ABSENT(ZyanAllocatorDefault) ABSENT(ZyanArgParse)
ABSENT(ZyanCriticalSectionInitialize) ABSENT(ZyanCriticalSectionEnter) ABSENT(ZyanCriticalSectionTryEnter)
ABSENT(ZyanCriticalSectionLeave) ABSENT(ZyanCriticalSectionDelete)
ABSENT(ZyanThreadGetCurrentThread) ABSENT(ZyanThreadGetCurrentThreadId) ABSENT(ZyanThreadTlsAlloc) ABSENT(ZyanThreadTlsFree)
ABSENT(ZyanThreadTlsGetValue) ABSENT(ZyanThreadTlsSetValue)
ABSENT(ZyanMemoryGetSystemPageSize) ABSENT(ZyanMemoryGetSystemAllocationGranularity) ABSENT(ZyanMemoryVirtualProtect) ABSENT(ZyanMemoryVirtualFree)
ABSENT(ZyanProcessFlushInstructionCache) ABSENT(ZyanTerminalEnableVT100) ABSENT(ZyanTerminalIsTTY)
}
