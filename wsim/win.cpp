// The thin operating system wrappers in their Windows configuration, on a simulated Windows.
#include "core.hpp"
#include <cerrno>
extern "C" {
#include <windows.h>
#include <io.h>
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
}
#include <Zycore/API/Synchronization.h>
#include <Zycore/API/Terminal.h>
#include <Zycore/API/Thread.h>

namespace {

enum Op { THREAD, CS_INIT, CS_ENTER, CS_TRY, CS_LEAVE, CS_DEL, TLS_ALLOC, TLS_FREE, TLS_SET, TLS_GET, TLS_GETBAD, WHOAMI,
    PROTECT, VFREE, FLUSH, PAGESIZE, GRAN, TTY, VT100, OPENFD, NOPS };
const char* const names[NOPS] = { "as_thread", "cs_initialize", "cs_enter", "cs_try_enter", "cs_leave", "cs_delete", "tls_alloc", "tls_free",
    "tls_set", "tls_get", "tls_use_after_free", "current_thread", "virtual_protect", "virtual_free", "flush_icache", "page_size", "allocation_granularity",
    "is_tty", "enable_vt100", "open_stream" };

// ---- the simulated system

// what a standard stream is bound to: nothing (no console, no descriptor), a closed descriptor, a descriptor without handle, a console, another character device, a file, a pipe
enum { NOTHING, CLOSED, NOHANDLE, CONSOLE, CHARDEV, FILE_, PIPE, KINDS };
struct Mutex { int owner; int depth; };
struct Call { const char* name; const void* p; size_t n; u32 x; };
struct Os
{
    std::map<const void*, Mutex> cs;
    std::map<DWORD, PFLS_CALLBACK_FUNCTION> keys;
    std::map<std::pair<int, DWORD>, void*> values;
    std::vector<Call> calls;
    DWORD last = 0, next_key = 3; bool reuse = false;
    size_t max_keys = 4;
    int self = 0;
    DWORD page = 4096, gran = 65536;
    int kind[3] = {CONSOLE, CONSOLE, CONSOLE};
    int fd[3] = {0, 1, 2};
    DWORD mode[3] = {7, 3, 3};
    int err_choice = 0;
    const char* failed = nullptr;
    DWORD error = 0;
} os;

bool inject(const char* name, std::initializer_list<DWORD> l)
{
    ++cx.requests; ++cx.decisions;
    const int i = cx.reqno++;
    if (i >= 8 || !((cx.mask >> i) & 1)) return false;
    os.last = os.error = l.begin()[(size_t)os.err_choice % l.size()];
    os.failed = name;
    ++cx.fired; ++cx.injected; cx.fault(F_SYSCALL_FAIL);
    cx.log("    %s fails: error %u", name, os.error);
    cx.ev(os.error);
    return true;
}
BOOL refuse(const char* name, DWORD e) { os.failed = name; os.last = os.error = e; cx.ev(e + 17); cx.log("    %s refuses: error %u", name, e); return FALSE; }
void os_record(const char* n, const void* p, size_t s, u32 x) { os.calls.push_back(Call{n, p, s, x}); cx.log("    %s(%p, %zu, %x)", n, p, s, x); }
int stream_of_fd(int fd) { for (int s = 0; s < 3; ++s) if (os.kind[s] != NOTHING && os.fd[s] == fd) return s; return -1; }

}   // namespace

extern "C"
{
DWORD GetLastError(void) { return os.last; }
void SetLastError(DWORD e) { os.last = e; }
HANDLE GetCurrentProcess(void) { return (HANDLE)-1; }
HANDLE GetCurrentThread(void) { return (HANDLE)-2; }
DWORD GetCurrentThreadId(void) { return 4000 + 4 * (DWORD)os.self; }
void InitializeCriticalSection(LPCRITICAL_SECTION c)
{
    if (os.cs.count(c)) cx.fail_later(T_SYS, "a critical section is initialised again");
    os.cs[c] = Mutex{-1, 0};
}
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION c, DWORD) { InitializeCriticalSection(c); return TRUE; }
BOOL InitializeCriticalSectionEx(LPCRITICAL_SECTION c, DWORD, DWORD) { InitializeCriticalSection(c); return TRUE; }
static Mutex* known(LPCRITICAL_SECTION c)
{
    auto i = os.cs.find(c);
    if (i == os.cs.end()) { cx.fail_later(T_SYS, "use of a critical section that is not initialised"); return nullptr; }
    return &i->second;
}
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION c)
{
    Mutex* m = known(c); if (!m) return FALSE;
    if (m->depth && m->owner != os.self) return FALSE;
    m->owner = os.self; ++m->depth; return TRUE;
}
void EnterCriticalSection(LPCRITICAL_SECTION c)
{
    Mutex* m = known(c); if (!m) return;
    if (m->depth && m->owner != os.self) { cx.fail_later(T_SYS, "the call blocks on a critical section held by another thread"); return; }
    m->owner = os.self; ++m->depth;
}
void LeaveCriticalSection(LPCRITICAL_SECTION c)
{
    Mutex* m = known(c); if (!m) return;
    if (!m->depth || m->owner != os.self) { cx.fail_later(T_SYS, "leaving a critical section the thread is not in"); return; }
    if (!--m->depth) m->owner = -1;
}
void DeleteCriticalSection(LPCRITICAL_SECTION c)
{
    Mutex* m = known(c); if (!m) return;
    if (m->depth) cx.fail_later(T_SYS, "deleting a critical section that is in use");
    os.cs.erase(c);
}
DWORD FlsAlloc(PFLS_CALLBACK_FUNCTION f)
{
    if (inject("FlsAlloc", {ERROR_NOT_ENOUGH_MEMORY, ERROR_NO_MORE_ITEMS})) return FLS_OUT_OF_INDEXES;
    if (os.keys.size() >= os.max_keys) { refuse("FlsAlloc", ERROR_NO_MORE_ITEMS); return FLS_OUT_OF_INDEXES; }
    DWORD key = os.next_key;
    if (os.reuse) { while (os.keys.count(key)) ++key; } else ++os.next_key;
    os.keys[key] = f; return key;
}
BOOL FlsFree(DWORD k)
{
    if (inject("FlsFree", {ERROR_INVALID_PARAMETER, ERROR_ACCESS_DENIED})) return FALSE;
    if (!os.keys.erase(k)) return refuse("FlsFree", ERROR_INVALID_PARAMETER);
    for (auto i = os.values.begin(); i != os.values.end();) if (i->first.second == k) i = os.values.erase(i); else ++i;
    return TRUE;
}
PVOID FlsGetValue(DWORD k)
{
    if (!os.keys.count(k)) { os.last = ERROR_INVALID_PARAMETER; return nullptr; }
    os.last = ERROR_SUCCESS;
    auto i = os.values.find({os.self, k}); return i == os.values.end() ? nullptr : i->second;
}
BOOL FlsSetValue(DWORD k, PVOID v)
{
    if (inject("FlsSetValue", {ERROR_INVALID_PARAMETER, ERROR_NOT_ENOUGH_MEMORY, ERROR_ACCESS_DENIED})) return FALSE;
    if (!os.keys.count(k)) return refuse("FlsSetValue", ERROR_INVALID_PARAMETER);
    os.values[{os.self, k}] = v; return TRUE;
}
BOOL VirtualProtect(LPVOID p, SIZE_T n, DWORD prot, PDWORD old)
{
    os_record("VirtualProtect", p, n, prot);
    if (!old) { cx.fail_later(T_SYS, "VirtualProtect always fails without a place for the old protection"); return refuse("VirtualProtect", ERROR_INVALID_ADDRESS); }
    if (inject("VirtualProtect", {ERROR_INVALID_ADDRESS, ERROR_INVALID_PARAMETER, ERROR_ACCESS_DENIED})) return FALSE;
    *old = PAGE_READWRITE; return TRUE;
}
BOOL VirtualFree(LPVOID p, SIZE_T n, DWORD type)
{
    os_record("VirtualFree", p, n, type);
    if (type == MEM_RELEASE && n) { cx.fail_later(T_SYS, "VirtualFree always fails when memory is released with a size"); return refuse("VirtualFree", ERROR_INVALID_PARAMETER); }
    return inject("VirtualFree", {ERROR_INVALID_ADDRESS, ERROR_INVALID_PARAMETER}) ? FALSE : TRUE;
}
BOOL FlushInstructionCache(HANDLE h, LPCVOID p, SIZE_T n)
{
    os_record("FlushInstructionCache", p, n, 0);
    if (h != GetCurrentProcess()) cx.fail_later(T_SYS, "the instruction cache of another process is flushed");
    return inject("FlushInstructionCache", {ERROR_ACCESS_DENIED, ERROR_INVALID_HANDLE}) ? FALSE : TRUE;
}
void GetSystemInfo(LPSYSTEM_INFO i) { memset(i, 0xA5, sizeof *i); i->dwPageSize = os.page; i->dwAllocationGranularity = os.gran; }
void GetNativeSystemInfo(LPSYSTEM_INFO i) { GetSystemInfo(i); }
int _fileno(FILE* f)
{
    const int s = f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : -1;
    if (s < 0) { cx.fail_later(T_SYS, "the descriptor of another file is queried"); return -1; }
    return os.kind[s] == NOTHING ? -2 : os.fd[s];
}
intptr_t _get_osfhandle(int fd)
{
    const int s = stream_of_fd(fd);
    if (s < 0 || os.kind[s] == CLOSED) { errno = EBADF; return -1; }
    if (os.kind[s] == NOHANDLE) return -2;
    return 0x100 + 0x10 * s;
}
int _isatty(int fd)
{
    os_record("_isatty", nullptr, 0, (u32)fd);
    const int s = stream_of_fd(fd);
    if (s < 0 || os.kind[s] == CLOSED) { errno = EBADF; return 0; }
    return os.kind[s] == CONSOLE || os.kind[s] == CHARDEV ? 64 : 0;       // errno is only set for a bad descriptor
}
static int console(HANDLE h)
{
    for (int s = 0; s < 3; ++s) if (h == (HANDLE)(intptr_t)(0x100 + 0x10 * s) && os.kind[s] == CONSOLE) return s;
    os.last = ERROR_INVALID_HANDLE; return -1;
}
BOOL GetConsoleMode(HANDLE h, LPDWORD m)
{
    const int s = console(h); if (s < 0) return FALSE;
    *m = os.mode[s]; return TRUE;
}
BOOL SetConsoleMode(HANDLE h, DWORD m)
{
    os_record("SetConsoleMode", h, 0, m);
    if (inject("SetConsoleMode", {ERROR_INVALID_PARAMETER, ERROR_INVALID_HANDLE, ERROR_ACCESS_DENIED})) return FALSE;
    const int s = console(h); if (s < 0) return refuse("SetConsoleMode", ERROR_INVALID_HANDLE);
    os.mode[s] = m; return TRUE;
}
}

namespace {

struct Cs { CRITICAL_SECTION m; bool live; int owner, depth; };
struct Tl { ZyanThreadTlsIndex k; bool live, was; std::map<int, void*> v; };
Cs cs[3]; Tl tl[150]; size_t slots = 6;

void expect(const char* what, ZyanStatus st, ZyanStatus want)
{
    cx.ev(st); cx.log("    %s -> %08x", what, st);
    if (st != want) cx.fail(T_SYS, "%s returned %08x, expected %08x (%s: error %u)", what, st, want, os.failed ? os.failed : "nothing failed", os.error);
}
// the reason was want of memory: the general and the precise status are both true
void expect_mem(const char* what, ZyanStatus st, ZyanStatus want) { expect(what, st, os.error == ERROR_NOT_ENOUGH_MEMORY && st == ZYAN_STATUS_NOT_ENOUGH_MEMORY ? st : want); }
void books()
{
    size_t m = 0, k = 0;
    for (auto& c : cs) m += c.live;
    for (auto& t : tl) k += t.live;
    if (os.cs.size() != m) { cx.fail(T_LEAK, "%zu critical sections exist in the system, %zu were created", os.cs.size(), m); throw Abandon(); }
    if (os.keys.size() != k) { cx.fail(T_LEAK, "%zu slots exist in the system, %zu were allocated", os.keys.size(), k); throw Abandon(); }
    for (auto& c : cs) if (c.live)
    {
        auto i = os.cs.find(&c.m);
        if (i == os.cs.end() || i->second.depth != c.depth || (c.depth && i->second.owner != c.owner)) { cx.fail(T_SYS, "the critical section is not in the state its calls reported"); throw Abandon(); }
    }
}
void one_call(const char* what, const char* name, const void* p, size_t n, u32 x)
{
    if (os.calls.size() != 1) { cx.fail(T_SYS, "%s made %zu system calls", what, os.calls.size()); return; }
    const Call& c = os.calls[0];
    if (strcmp(c.name, name) || c.p != p || c.n != n || c.x != x)
        cx.fail(T_SYS, "%s called %s(%p, %zu, %x), expected %s(%p, %zu, %x)", what, c.name, c.p, c.n, c.x, name, p, n, x);
}
const void* addr_arg(ll a) { switch (a % 5) { case 0: return (void*)0x7000000000ull; case 1: return (void*)0x1234567000ull; case 2: return nullptr; case 3: return (void*)0xffffffff80000000ull; } return (void*)(u64)(a * 4097 + 3); }
size_t len_arg(ll a) { switch (a % 7) { case 0: return 4096; case 1: return 0; case 2: return ~(size_t)0; case 3: return 0x100000000ull; case 4: return 0x123456789abcull; } return (size_t)a; }
void cb1(void*) { } void cb2(void*) { }
const ZyanStandardStream streams[] = { ZYAN_STDSTREAM_IN, ZYAN_STDSTREAM_OUT, ZYAN_STDSTREAM_ERR };

void op(const Step& t)
{
    os.failed = nullptr; os.error = 0; os.calls.clear(); os.err_choice = (int)t.a[5];
    errno = t.a[4] ? (int)t.a[4] : 0; os.last = (DWORD)(t.a[4] % 2 ? ERROR_INVALID_PARAMETER : t.a[4]);
    if (t.a[4]) cx.fault(F_STALE_ERRNO);
    Cs& c = cs[t.a[0] % 3]; Tl& k = tl[(size_t)t.a[0] % slots];
    ZyanStatus st;
    cx.begin(t.f);
    switch (t.op)
    {
    case THREAD: os.self = (int)(t.a[0] % 3); break;
    case CS_INIT:
        if (c.live) break;
        st = ZyanCriticalSectionInitialize(&c.m); cx.end();
        expect(names[t.op], st, ZYAN_STATUS_SUCCESS);
        if (!os.cs.count(&c.m)) { cx.fail(T_SYS, "no critical section was created"); throw Abandon(); }
        c.live = true; c.owner = -1; c.depth = 0; cx.mutation();
        break;
    case CS_ENTER:
        if (!c.live || (c.depth && c.owner != os.self)) break;
        st = ZyanCriticalSectionEnter(&c.m); cx.end();
        expect(names[t.op], st, ZYAN_STATUS_SUCCESS); c.owner = os.self; ++c.depth; cx.mutation();
        break;
    case CS_TRY:
    {
        if (!c.live) break;
        const bool free = !c.depth || c.owner == os.self;
        const ZyanBool b = ZyanCriticalSectionTryEnter(&c.m); cx.end();
        cx.ev(b); cx.log("    try -> %d", b);
        if (b != (free ? ZYAN_TRUE : ZYAN_FALSE)) { cx.fail(T_SYS, "try_enter returned %d, the section is %s", b, free ? "free" : "held by another thread"); throw Abandon(); }
        if (b) { c.owner = os.self; ++c.depth; cx.mutation(); }
        break;
    }
    case CS_LEAVE:
        if (!c.live || !c.depth || c.owner != os.self) break;
        st = ZyanCriticalSectionLeave(&c.m); cx.end();
        expect(names[t.op], st, ZYAN_STATUS_SUCCESS); if (--c.depth == 0) c.owner = -1;
        cx.mutation();
        break;
    case CS_DEL:
        if (!c.live || c.depth) break;
        st = ZyanCriticalSectionDelete(&c.m); cx.end();
        expect(names[t.op], st, ZYAN_STATUS_SUCCESS); c.live = false; cx.mutation();
        break;
    case TLS_ALLOC:
    {
        if (k.live) break;
        ZyanThreadTlsIndex idx = 0x5a5a;
        PFLS_CALLBACK_FUNCTION cb = t.a[1] % 3 == 0 ? nullptr : t.a[1] % 3 == 1 ? cb1 : cb2;
        st = ZyanThreadTlsAlloc(&idx, cb); cx.end();
        if (os.failed)
        {
            expect_mem(names[t.op], st, ZYAN_STATUS_OUT_OF_RESOURCES);
            if (idx != 0x5a5a) cx.fail(T_SYS, "the failed allocation changed the slot index");
            break;
        }
        expect(names[t.op], st, ZYAN_STATUS_SUCCESS);
        if (!os.keys.count(idx)) { cx.fail(T_SYS, "the slot index does not name the allocated slot"); throw Abandon(); }
        if (os.keys[idx] != cb) cx.fail(T_SYS, "another destructor was registered");
        k.k = idx; k.live = k.was = true; k.v.clear(); cx.mutation();
        break;
    }
    case TLS_FREE:
        if (!k.live) break;
        st = ZyanThreadTlsFree(k.k); cx.end();
        if (os.failed) expect(names[t.op], st, ZYAN_STATUS_BAD_SYSTEMCALL);
        else { expect(names[t.op], st, ZYAN_STATUS_SUCCESS); k.live = false; cx.mutation(); }
        break;
    case TLS_SET:
    {
        if (!k.live) break;
        void* v = t.a[1] % 4 == 0 ? nullptr : t.a[1] % 3 == 0 ? (void*)~(u64)t.a[1] : t.a[1] % 3 == 1 ? (void*)((u64)t.a[1] << 48) : (void*)(u64)t.a[1];
        st = ZyanThreadTlsSetValue(k.k, v); cx.end();
        if (os.failed) expect_mem(names[t.op], st, os.error == ERROR_INVALID_PARAMETER ? ZYAN_STATUS_INVALID_ARGUMENT : ZYAN_STATUS_BAD_SYSTEMCALL);
        else { expect(names[t.op], st, ZYAN_STATUS_SUCCESS); k.v[os.self] = v; cx.mutation(); }
        break;
    }
    case TLS_GET:
    {
        if (!k.live) break;
        void* v = (void*)0x77;
        st = ZyanThreadTlsGetValue(k.k, &v); cx.end();
        expect(names[t.op], st, ZYAN_STATUS_SUCCESS);
        if (v != (k.v.count(os.self) ? k.v[os.self] : nullptr)) cx.fail(T_SYS, "the slot holds %p, stored was %p", v, k.v[os.self]);
        break;
    }
    case TLS_GETBAD:
        if (k.live || !k.was || os.keys.count(k.k)) break;
        st = ZyanThreadTlsSetValue(k.k, (void*)1); cx.end();
        if (ZYAN_SUCCESS(st)) cx.fail(T_SYS, "setting a freed slot succeeded");
        expect_mem("tls_set of a freed slot", st, os.error == ERROR_INVALID_PARAMETER ? ZYAN_STATUS_INVALID_ARGUMENT : ZYAN_STATUS_BAD_SYSTEMCALL);
        os.failed = nullptr; cx.begin(0);
        st = ZyanThreadTlsFree(k.k); cx.end();
        expect("tls_free of a freed slot", st, ZYAN_STATUS_BAD_SYSTEMCALL);
        break;
    case WHOAMI:
    {
        ZyanThreadId id = 0; ZyanThread h = nullptr;
        st = ZyanThreadGetCurrentThreadId(&id); expect("current_thread_id", st, ZYAN_STATUS_SUCCESS);
        if (id != GetCurrentThreadId()) cx.fail(T_SYS, "the current thread's id is %u, not %u", id, GetCurrentThreadId());
        st = ZyanThreadGetCurrentThread(&h); expect(names[t.op], st, ZYAN_STATUS_SUCCESS);
        if (h != GetCurrentThread()) cx.fail(T_SYS, "the current thread's handle is %p", h);
        break;
    }
    case PROTECT:
    {
        static const ZyanMemoryPageProtection pr[] = { ZYAN_PAGE_READONLY, ZYAN_PAGE_READWRITE, ZYAN_PAGE_EXECUTE, ZYAN_PAGE_EXECUTE_READ, ZYAN_PAGE_EXECUTE_READWRITE };
        static const DWORD bits[] = { 0x02, 0x04, 0x10, 0x20, 0x40 };
        const void* p = addr_arg(t.a[0]); const size_t n = len_arg(t.a[1]); const int w = (int)(t.a[2] % 5);
        st = ZyanMemoryVirtualProtect((void*)p, n, pr[w]); cx.end();
        one_call("virtual_protect", "VirtualProtect", p, n, bits[w]);
        expect(names[t.op], st, os.failed ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS); cx.mutation();
        break;
    }
    case VFREE:
    {
        const void* p = addr_arg(t.a[0]); const size_t n = len_arg(t.a[1]);
        st = ZyanMemoryVirtualFree((void*)p, n); cx.end();
        one_call("virtual_free", "VirtualFree", p, 0, MEM_RELEASE);
        expect(names[t.op], st, os.failed ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS); cx.mutation();
        break;
    }
    case FLUSH:
    {
        const void* p = addr_arg(t.a[0]); const size_t n = len_arg(t.a[1]);
        st = ZyanProcessFlushInstructionCache((void*)p, n); cx.end();
        one_call("flush", "FlushInstructionCache", p, n, 0);
        expect(names[t.op], st, os.failed ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS); cx.mutation();
        break;
    }
    case PAGESIZE: case GRAN:
    {
        const ZyanU32 n = t.op == PAGESIZE ? ZyanMemoryGetSystemPageSize() : ZyanMemoryGetSystemAllocationGranularity();
        const DWORD want = t.op == PAGESIZE ? os.page : os.gran;
        cx.end(); cx.ev(n);
        if (n != want) cx.fail(T_SYS, "%s is %u, the system says %u", names[t.op], n, want);
        break;
    }
    case OPENFD:
    {
        // only the very first descriptors of a process can be missing; later ones get closed
        const int s = (int)(t.a[0] % 3); os.kind[s] = (int)(t.a[1] % KINDS); os.mode[s] = (DWORD)(t.a[1] / KINDS % 1024);
        if (t.a[2] == 4) { const int o = (int)((t.a[0] + 1) % 3); const int x = os.fd[s]; os.fd[s] = os.fd[o]; os.fd[o] = x; }     // streams reopened: descriptors change places
        cx.mutation(); break;
    }
    case TTY:
    {
        const int s = (int)(t.a[0] % 3);
        st = ZyanTerminalIsTTY(streams[s]); cx.end();
        const int kd = os.kind[s];
        if (kd == NOTHING || kd == CLOSED) cx.fault(F_SYSCALL_FAIL);
        expect(names[t.op], st, kd == NOTHING || kd == CLOSED ? ZYAN_STATUS_INVALID_ARGUMENT : kd == CONSOLE || kd == CHARDEV ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE);
        break;
    }
    case VT100:
    {
        const int s = (int)(t.a[0] % 3);
        const bool odd = t.a[0] >= 27;                                   // not a stream at all
        DWORD before[3]; memcpy(before, os.mode, sizeof before);
        st = ZyanTerminalEnableVT100(odd ? (ZyanStandardStream)(3 + t.a[0] % 3) : streams[s]); cx.end();
        if (odd || s == 0 || os.kind[s] != CONSOLE) expect(names[t.op], st, ZYAN_STATUS_INVALID_ARGUMENT);
        else if (os.failed) expect(names[t.op], st, ZYAN_STATUS_BAD_SYSTEMCALL);
        else { expect(names[t.op], st, ZYAN_STATUS_SUCCESS); before[s] |= 4; cx.mutation(); }
        for (int i = 0; i < 3; ++i) if (os.mode[i] != before[i]) { cx.fail(T_SYS, "the mode of stream %d is %x, expected %x", i, os.mode[i], before[i]); throw Abandon(); }
        break;
    }
    }
    cx.end();
}

void exec(const Plan& p)
{
    os = Os();
    for (auto& c : cs) { memset((void*)&c, 0, sizeof c); memset(&c.m, 0xCC, sizeof c.m); c.live = false; }
    for (auto& t : tl) t = Tl();
    os.page = 1u << p.get("page", 12); os.gran = 1u << p.get("gran", 16); os.max_keys = (size_t)p.get("keys", 4); os.next_key = (DWORD)p.get("key0", 3); os.reuse = p.get("reuse"); slots = (size_t)std::min<ll>(150, std::max<ll>(1, p.get("slots", 6)));
    for (size_t i = 0; i < p.steps.size(); ++i)
    {
        cx.step = (int)i;
        const Step& t = p.steps[i];
        cx.log("#%zu %s %lld %lld %lld f=%x (thread %d)", i, names[t.op], t.a[0], t.a[1], t.a[2], t.f, os.self);
        const ll again = t.op == CS_ENTER || t.op == CS_TRY || t.op == CS_LEAVE ? std::min<ll>(t.a[3], 70000) : 0;
        for (ll n = 0; n <= again && !cx.violated; ++n) op(t);
        books();
        u64 h = (u64)os.self; for (auto& c : cs) h = h * 64 + (u64)(c.live * 32 + (c.owner + 1) * 6 + c.depth);
        for (auto& k : tl) h = h * 5 + k.live * 2 + (k.v.size() > 1);
        for (int f : os.kind) h = h * 8 + (u64)f;
        const bool vm = t.op == PROTECT || t.op == VFREE || t.op == FLUSH || t.op == PAGESIZE || t.op == GRAN;
        cx.state((h * 7919 + (u64)t.op * 31 + (u64)os.error) ^ (vm ? mix64((u64)(t.a[0] % 5 * 64 + t.a[1] % 7 * 8 + t.a[2] % 5)) + (u64)os.page : 0) ^ 0x57696e);
        cx.take_muted();
    }
    cx.step = (int)p.steps.size();
    cx.begin(0);
    for (auto& c : cs) if (c.live)
    {
        while (c.depth) { os.self = c.owner; if (!ZYAN_SUCCESS(ZyanCriticalSectionLeave(&c.m))) { cx.fail(T_SYS, "leaving fails"); throw Abandon(); } --c.depth; }
        if (!ZYAN_SUCCESS(ZyanCriticalSectionDelete(&c.m))) cx.fail(T_SYS, "a free critical section can not be deleted");
        c.live = false;
    }
    for (auto& k : tl) if (k.live) { if (!ZYAN_SUCCESS(ZyanThreadTlsFree(k.k))) cx.fail(T_SYS, "a slot can not be freed"); k.live = false; }
    cx.end();
    books();
}

void gen(Rng& r, Plan& p)
{
    const std::string& id = p.prop;
    p.cfg["page"] = r.pick({12, 12, 13, 14}); p.cfg["gran"] = r.pick({16, 16, 17}); p.cfg["keys"] = r.range(1, 6);
    const ll mara = marathon(r);
    const int n = (int)(mara ? mara : r.range(4, 50));
    std::vector<int> ops;
    if (id == "C18") ops = {THREAD, CS_INIT, CS_INIT, CS_ENTER, CS_ENTER, CS_TRY, CS_LEAVE, CS_LEAVE, CS_DEL, TLS_ALLOC, TLS_ALLOC, TLS_FREE, TLS_SET, TLS_GET, TLS_GETBAD, WHOAMI};
    else if (id == "C24") ops = {PROTECT, PROTECT, PROTECT, VFREE, FLUSH, PAGESIZE, GRAN};
    else ops = {TTY, TTY, TTY, VT100, VT100, OPENFD, OPENFD, OPENFD};
    if (mara && id == "C18" && r.chance(1, 3)) { const bool c = r.chance(1, 2); ops.insert(ops.end(), (size_t)r.range(4, 40), c ? CS_INIT : TLS_ALLOC); ops.insert(ops.end(), ops.size() - 14, c ? CS_DEL : TLS_FREE); }
    else if (mara && r.chance(3, 4)) for (int k = 0; k < 2; ++k) ops.insert(ops.end(), (size_t)r.range(4, 24), ops[r.below(ops.size())]);
    const u64 rate = r.pick({0, 4, 3, 8, 2});
    const bool deep = id == "C18" && r.chance(1, 30), many = id == "C18" && r.chance(1, 12);
    if (id == "C18") { p.cfg["key0"] = r.pick({1, 3, 7, 63, 128, 1023, 0x10000, 0x7ffffff0}); p.cfg["reuse"] = r.chance(1, 2); }
    if (many) { p.cfg["slots"] = r.range(7, 150); p.cfg["keys"] = r.range(7, 150); }
    if (deep) p.cfg["depth"] = r.pick({200, 256, 300, 40000, 65536, 1000000});
    const ll burst = deep ? r.pick({100, 255, 256, 300, 33000, 66000}) : 0;
    for (int i = 0; i < (many && !mara ? 3 * n : n); ++i)
    {
        Step s; s.op = ops[r.below(ops.size())];
        s.a[0] = (ll)r.below(many ? 450 : 30);
        if (burst && r.chance(1, 5)) s.a[3] = (ll)r.below((u64)burst) + 1;
        s.a[1] = (ll)r.below(4000); s.a[2] = (ll)r.below(5);
        s.a[4] = r.chance(1, 2) ? 0 : (ll)r.pick({EBADF, ENOMEM, EAGAIN, EINVAL, ENOTTY});
        s.a[5] = (ll)r.below(60);
        if (rate && r.chance(1, rate)) s.f = r.chance(1, 2) ? 1u : (1u << r.below(4));
        p.steps.push_back(s);
    }
}

}   // namespace
extern const Scenario scen_win;
const Scenario scen_win = {"windows", names, NOPS, gen, exec};
