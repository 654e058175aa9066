// Thin operating system wrappers: critical sections, thread-local slots, virtual memory, cache flush, terminal.
// The library's calls end up in a simulated operating system that keeps the books and fails on demand.
#include <algorithm>
#include "core.hpp"
#include <cerrno>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
}
#include <Zycore/API/Synchronization.h>
#include <Zycore/API/Terminal.h>
#include <Zycore/API/Thread.h>
#include <set>

namespace {

enum Op { THREAD, CS_INIT, CS_ENTER, CS_TRY, CS_LEAVE, CS_DEL, TLS_ALLOC, TLS_FREE, TLS_SET, TLS_GET, TLS_GETBAD,
    PROTECT, VFREE, FLUSH, PAGESIZE, GRAN, TTY, VT100, CLOSEFD, OPENFD, NOPS };
const char* const names[NOPS] = { "as_thread", "cs_initialize", "cs_enter", "cs_try_enter", "cs_leave", "cs_delete", "tls_alloc", "tls_free",
    "tls_set", "tls_get", "tls_use_after_free", "virtual_protect", "virtual_free", "flush_icache", "page_size", "allocation_granularity", "is_tty",
    "enable_vt100", "close_stream", "open_stream" };

// ---- the simulated operating system

struct Mutex { int type; int owner; int depth; };
struct Call { const char* name; const void* p; size_t n; int x; };
struct Os
{
    std::map<const void*, Mutex> mutexes;
    std::map<const void*, int> attrs;
    std::map<unsigned, void (*)(void*)> keys;
    std::map<std::pair<int, unsigned>, void*> values;
    std::vector<Call> calls;
    unsigned next_key = 7; bool reuse = false;       // the next slot number; free numbers are given out again
    size_t max_keys = 4;
    int max_depth = 3;
    int self = 0;
    long page = 4096;
    int fd[3] = {0, 0, 0};     // 0 closed, 1 terminal, 2 file, 3 pipe
    int err_choice = 0;
    const char* failed = nullptr;   // injected failure of the current step
    int failed_errno = 0;
} os;

const int E_INIT[] = {EAGAIN, ENOMEM, EPERM, EBUSY, EINVAL, ENOSYS};
const int E_ATTR[] = {ENOMEM, EINVAL, ENOSYS};
const int E_LOCK[] = {EINVAL, EAGAIN, EDEADLK, EOWNERDEAD};
const int E_TRY[] = {EBUSY, EINVAL, EAGAIN};
const int E_UNLOCK[] = {EINVAL, EPERM, EAGAIN};
const int E_DESTROY[] = {EBUSY, EINVAL, ENOSYS};
const int E_KEY[] = {EAGAIN, ENOMEM, EINVAL};
const int E_KEYDEL[] = {EINVAL, EAGAIN};
const int E_SET[] = {EINVAL, ENOMEM, EAGAIN};
const int E_VM[] = {EINVAL, ENOMEM, EACCES, EBUSY};

int inject(const char* name, const int* list, size_t n)
{
    ++cx.requests; ++cx.decisions;
    const int i = cx.reqno++;
    if (i < 8 && ((cx.mask >> i) & 1))
    {
        const int e = list[(size_t)os.err_choice % n];
        ++cx.fired; ++cx.injected; cx.fault(F_SYSCALL_FAIL);
        os.failed = name; os.failed_errno = e;
        cx.log("    %s -> injected error %d", name, e);
        cx.ev((u64)e);
        return e;
    }
    return 0;
}
#define INJECT(list) inject(__func__ + 5, list, sizeof(list) / sizeof(list[0]))
int natural(const char* name, int e)
{
    if (e) { os.failed = name; os.failed_errno = e; cx.log("    %s -> error %d", name, e); }
    cx.ev((u64)e + 17);
    return e;
}
#define NATURAL(e) natural(__func__ + 5, e)
void os_record(const char* n, const void* p, size_t s, int x) { os.calls.push_back(Call{n, p, s, x}); cx.log("    %s(%p, %zu, %d)", n, p, s, x); }

}   // namespace

extern "C"
{
int zsim_pthread_mutexattr_init(pthread_mutexattr_t* a)
{
    int e = INJECT(E_ATTR); if (e) return e;
    os.attrs[a] = PTHREAD_MUTEX_NORMAL; return 0;
}
int zsim_pthread_mutexattr_settype(pthread_mutexattr_t* a, int t)
{
    if (!os.attrs.count(a)) { cx.fail_later(T_SYS, "pthread_mutexattr_settype of an object that is not initialised"); return EINVAL; }
    os.attrs[a] = t; return 0;
}
int zsim_pthread_mutexattr_destroy(pthread_mutexattr_t* a)
{
    if (!os.attrs.erase(a)) { cx.fail_later(T_SYS, "pthread_mutexattr_destroy of an object that is not initialised"); return EINVAL; }
    return 0;
}
int zsim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    int e = INJECT(E_INIT); if (e) return e;
    if (a && !os.attrs.count(a)) { cx.fail_later(T_SYS, "pthread_mutex_init with attributes that are not initialised"); return EINVAL; }
    if (os.mutexes.count(m)) return NATURAL(EBUSY);
    os.mutexes[m] = Mutex{a ? os.attrs[a] : PTHREAD_MUTEX_NORMAL, -1, 0};
    return NATURAL(0);
}
int zsim_pthread_mutex_destroy(pthread_mutex_t* m)
{
    int e = INJECT(E_DESTROY); if (e) return e;
    auto i = os.mutexes.find(m);
    if (i == os.mutexes.end()) return NATURAL(EINVAL);
    if (i->second.depth) return NATURAL(EBUSY);
    os.mutexes.erase(i);
    return NATURAL(0);
}
static int os_lock(const char* fn, pthread_mutex_t* m, bool tr)
{
    auto i = os.mutexes.find(m);
    if (i == os.mutexes.end()) return natural(fn, EINVAL);
    Mutex& x = i->second;
    if (x.depth && x.owner != os.self)
    {
        if (tr) return natural(fn, EBUSY);
        cx.fail_later(T_SYS, "the call blocks on a critical section held by another thread");
        return natural(fn, EDEADLK);
    }
    if (x.depth)
    {
        if (x.type != PTHREAD_MUTEX_RECURSIVE)
        {
            if (!tr && x.type != PTHREAD_MUTEX_ERRORCHECK) cx.fail_later(T_SYS, "the thread blocks on a critical section it is in");
            return natural(fn, tr ? EBUSY : EDEADLK);
        }
        if (x.depth >= os.max_depth) return natural(fn, EAGAIN);
    }
    x.owner = os.self; ++x.depth;
    return natural(fn, 0);
}
int zsim_pthread_mutex_lock(pthread_mutex_t* m) { int e = INJECT(E_LOCK); return e ? e : os_lock(__func__ + 5, m, false); }
int zsim_pthread_mutex_trylock(pthread_mutex_t* m) { int e = INJECT(E_TRY); return e ? e : os_lock(__func__ + 5, m, true); }
int zsim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { int e = INJECT(E_LOCK); return e ? e : os_lock(__func__ + 5, m, true); }
int zsim_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int e = INJECT(E_UNLOCK); if (e) return e;
    auto i = os.mutexes.find(m);
    if (i == os.mutexes.end()) return NATURAL(EINVAL);
    Mutex& x = i->second;
    if (!x.depth || x.owner != os.self)
    {
        if (x.type == PTHREAD_MUTEX_NORMAL) { cx.fail_later(T_SYS, "unlocking a non-recursive mutex that is not held"); return 0; }
        return NATURAL(EPERM);
    }
    if (--x.depth == 0) x.owner = -1;
    return NATURAL(0);
}
int zsim_pthread_key_create(pthread_key_t* k, void (*d)(void*))
{
    int e = INJECT(E_KEY); if (e) { return e; }
    if (os.keys.size() >= os.max_keys) return NATURAL(EAGAIN);
    unsigned key = os.next_key;
    if (os.reuse) { while (os.keys.count(key)) ++key; } else ++os.next_key;
    os.keys[key] = d; *k = key;
    return NATURAL(0);
}
int zsim_pthread_key_delete(pthread_key_t k)
{
    int e = INJECT(E_KEYDEL); if (e) return e;
    if (!os.keys.erase(k)) return NATURAL(EINVAL);
    for (auto i = os.values.begin(); i != os.values.end();) if (i->first.second == k) i = os.values.erase(i); else ++i;
    return NATURAL(0);
}
int zsim_pthread_setspecific(pthread_key_t k, const void* v)
{
    int e = INJECT(E_SET); if (e) return e;
    if (!os.keys.count(k)) return NATURAL(EINVAL);
    os.values[{os.self, k}] = (void*)v;
    return NATURAL(0);
}
void* zsim_pthread_getspecific(pthread_key_t k)
{
    auto i = os.values.find({os.self, k});
    return i == os.values.end() ? nullptr : i->second;
}
static u64 g_tcb[8];
pthread_t zsim_pthread_self(void) { g_tcb[os.self] = (u64)&g_tcb[os.self]; return (pthread_t)&g_tcb[os.self]; }
int zsim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int zsim_pthread_once(pthread_once_t* o, void (*f)(void)) { if (!*(int*)o) { *(int*)o = 1; f(); } return 0; }
int zsim_sched_yield(void) { return 0; }
int zsim_mprotect(void* p, size_t n, int prot)
{
    os_record("mprotect", p, n, prot); const int e = INJECT(E_VM); if (e) { errno = e; return -1; } return 0;
}
int zsim_munmap(void* p, size_t n)
{
    os_record("munmap", p, n, 0); const int e = INJECT(E_VM); if (e) { errno = e; return -1; } return 0;
}
int zsim_msync(void* p, size_t n, int fl)
{
    os_record("msync", p, n, fl); const int e = INJECT(E_VM); if (e) { errno = e; return -1; } return 0;
}
long zsim_sysconf(int name) { if (name == _SC_PAGESIZE) return os.page; errno = EINVAL; return -1; }
int zsim_getpagesize(void) { return (int)os.page; }
int zsim_isatty(int fd)
{
    os_record("isatty", nullptr, 0, fd);
    const int k = fd >= 0 && fd < 3 ? os.fd[fd] : 0;
    if (k == 1) return 1;
    errno = k == 0 ? EBADF : k == 2 ? ENOTTY : EINVAL;
    return 0;
}
}

namespace {

struct Cs { pthread_mutex_t m; bool live; int owner, depth; };
struct Tl { ZyanThreadTlsIndex k; bool live, was; std::map<int, void*> v; };
Cs cs[3]; Tl tl[150]; size_t slots = 6;

ZyanStatus map_cs_init(int e, const char* call)
{
    if (!strcmp(call, "pthread_mutexattr_init")) return e == ENOMEM ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : ZYAN_STATUS_BAD_SYSTEMCALL;
    switch (e) { case EAGAIN: return ZYAN_STATUS_OUT_OF_RESOURCES; case ENOMEM: return ZYAN_STATUS_NOT_ENOUGH_MEMORY; case EPERM: return ZYAN_STATUS_ACCESS_DENIED;
        case EBUSY: case EINVAL: return ZYAN_STATUS_INVALID_ARGUMENT; }
    return ZYAN_STATUS_BAD_SYSTEMCALL;
}
void expect(const char* what, ZyanStatus st, ZyanStatus want)
{
    cx.ev(st); cx.log("    %s -> %08x", what, st);
    if (st != want) cx.fail(T_SYS, "%s returned %08x, expected %08x (%s: error %d)", what, st, want, os.failed ? os.failed : "nothing failed", os.failed_errno);
}
void books()
{
    if (!os.attrs.empty()) { cx.fail(T_LEAK, "%zu mutex attribute objects are left behind", os.attrs.size()); }
    size_t m = 0, k = 0;
    for (auto& c : cs) m += c.live;
    for (auto& t : tl) k += t.live;
    if (os.mutexes.size() != m) { cx.fail(T_LEAK, "%zu mutexes exist in the system, %zu critical sections were created", os.mutexes.size(), m); throw Abandon(); }
    if (os.keys.size() != k) { cx.fail(T_LEAK, "%zu keys exist in the system, %zu slots were allocated", os.keys.size(), k); throw Abandon(); }
}
void one_call(const char* what, const char* name, const void* p, size_t n, int x, int mask)
{
    if (os.calls.size() != 1) { cx.fail(T_SYS, "%s made %zu system calls", what, os.calls.size()); return; }
    const Call& c = os.calls[0];
    if (strcmp(c.name, name) || c.p != p || c.n != n || (mask && (c.x & mask) != x))
        cx.fail(T_SYS, "%s called %s(%p, %zu, %d), expected %s(%p, %zu, %d)", what, c.name, c.p, c.n, c.x, name, p, n, x);
}
const void* addr_arg(ll a) { switch (a % 5) { case 0: return (void*)0x7000000000ull; case 1: return (void*)0x1234567000ull; case 2: return nullptr; case 3: return (void*)0xffffffff80000000ull; } return (void*)(u64)(a * 4097 + 3); }
size_t len_arg(ll a) { switch (a % 7) { case 0: return 4096; case 1: return 0; case 2: return ~(size_t)0; case 3: return 0x100000000ull; case 4: return 0x123456789abcull; } return (size_t)a; }
void cb1(void*) { } void cb2(void*) { }

void op(const Step& t)
{
    os.failed = nullptr; os.failed_errno = 0; os.calls.clear(); os.err_choice = (int)t.a[5];
    errno = t.a[4] ? (int)t.a[4] : 0;
    if (t.a[4]) cx.fault(F_STALE_ERRNO);
    Cs& c = cs[t.a[0] % 3]; Tl& k = tl[(size_t)t.a[0] % slots];
    ZyanStatus st;
    cx.begin(t.f);
    switch (t.op)
    {
    case THREAD: os.self = (int)(t.a[0] % 3); break;
    case CS_INIT:
        if (c.live) break;
        st = ZyanCriticalSectionInitialize(&c.m); cx.end();
        if (os.failed) { expect(names[t.op], st, map_cs_init(os.failed_errno, os.failed)); break; }
        expect(names[t.op], st, ZYAN_STATUS_SUCCESS);
        if (!os.mutexes.count(&c.m)) { cx.fail(T_SYS, "no mutex was created"); throw Abandon(); }
        if (os.mutexes[&c.m].type != PTHREAD_MUTEX_RECURSIVE) cx.fail(T_SYS, "the critical section can not be entered again by its owner");
        c.live = true; c.owner = -1; c.depth = 0; cx.mutation();
        break;
    case CS_ENTER:
        if (!c.live || (c.depth && c.owner != os.self)) break;      // would block: simulated elsewhere
        st = ZyanCriticalSectionEnter(&c.m); cx.end();
        if (os.failed) { expect(names[t.op], st, os.failed_errno == EINVAL ? ZYAN_STATUS_INVALID_ARGUMENT : os.failed_errno == EAGAIN ? ZYAN_STATUS_INVALID_OPERATION : ZYAN_STATUS_BAD_SYSTEMCALL); }
        else { expect(names[t.op], st, ZYAN_STATUS_SUCCESS); c.owner = os.self; ++c.depth; cx.mutation(); }
        break;
    case CS_TRY:
    {
        if (!c.live) break;
        const ZyanBool b = ZyanCriticalSectionTryEnter(&c.m); cx.end();
        cx.ev(b); cx.log("    try -> %d", b);
        if (b != ZYAN_FALSE && b != ZYAN_TRUE) cx.fail(T_SYS, "try_enter returned %d", b);
        if ((b == ZYAN_TRUE) != !os.failed) { cx.fail(T_SYS, "try_enter returned %d (%s: error %d)", b, os.failed ? os.failed : "nothing failed", os.failed_errno); throw Abandon(); }
        if (b) { c.owner = os.self; ++c.depth; cx.mutation(); }
        break;
    }
    case CS_LEAVE:
        if (!c.live) break;
        st = ZyanCriticalSectionLeave(&c.m); cx.end();
        if (os.failed) expect(names[t.op], st, os.failed_errno == EINVAL ? ZYAN_STATUS_INVALID_ARGUMENT : os.failed_errno == EPERM ? ZYAN_STATUS_INVALID_OPERATION : ZYAN_STATUS_BAD_SYSTEMCALL);
        else
        {
            expect(names[t.op], st, ZYAN_STATUS_SUCCESS);
            if (!c.depth || c.owner != os.self) { cx.fail(T_SYS, "leave succeeded although the thread is not inside"); throw Abandon(); }
            if (--c.depth == 0) c.owner = -1;
            cx.mutation();
        }
        break;
    case CS_DEL:
        if (!c.live) break;
        st = ZyanCriticalSectionDelete(&c.m); cx.end();
        if (os.failed) expect(names[t.op], st, os.failed_errno == EBUSY || os.failed_errno == EINVAL ? ZYAN_STATUS_INVALID_ARGUMENT : ZYAN_STATUS_BAD_SYSTEMCALL);
        else { expect(names[t.op], st, ZYAN_STATUS_SUCCESS); c.live = false; cx.mutation(); }
        break;
    case TLS_ALLOC:
    {
        if (k.live) break;
        ZyanThreadTlsIndex idx = 0x5a5a;
        void (*cb)(void*) = t.a[1] % 3 == 0 ? nullptr : t.a[1] % 3 == 1 ? cb1 : cb2;
        st = ZyanThreadTlsAlloc(&idx, cb); cx.end();
        if (os.failed)
        {
            expect(names[t.op], st, os.failed_errno == EAGAIN ? ZYAN_STATUS_OUT_OF_RESOURCES : os.failed_errno == ENOMEM ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : ZYAN_STATUS_BAD_SYSTEMCALL);
            if (idx != 0x5a5a) cx.fail(T_SYS, "the failed allocation changed the slot index");
            break;
        }
        expect(names[t.op], st, ZYAN_STATUS_SUCCESS);
        if (!os.keys.count(idx)) { cx.fail(T_SYS, "the slot index does not name the allocated slot"); throw Abandon(); }
        if (os.keys[idx] != cb) cx.fail(T_SYS, "another destructor was registered");
        k.k = idx; k.live = k.was = true; k.v.clear(); cx.mutation();
        break;
    }
    case TLS_FREE:
        if (!k.live) break;
        st = ZyanThreadTlsFree(k.k); cx.end();
        if (os.failed) expect(names[t.op], st, ZYAN_STATUS_BAD_SYSTEMCALL);
        else { expect(names[t.op], st, ZYAN_STATUS_SUCCESS); k.live = false; cx.mutation(); }
        break;
    case TLS_SET:
    {
        if (!k.live) break;
        void* v = t.a[1] % 4 == 0 ? nullptr : t.a[1] % 3 == 0 ? (void*)~(u64)t.a[1] : t.a[1] % 3 == 1 ? (void*)((u64)t.a[1] << 48) : (void*)(u64)t.a[1];
        st = ZyanThreadTlsSetValue(k.k, v); cx.end();
        if (os.failed && os.failed_errno == ENOMEM) { cx.ev(st); if (st != ZYAN_STATUS_BAD_SYSTEMCALL && st != ZYAN_STATUS_NOT_ENOUGH_MEMORY) cx.fail(T_SYS, "tls_set returned %08x for want of memory", st); }
        else if (os.failed) expect(names[t.op], st, os.failed_errno == EINVAL ? ZYAN_STATUS_INVALID_ARGUMENT : ZYAN_STATUS_BAD_SYSTEMCALL);
        else { expect(names[t.op], st, ZYAN_STATUS_SUCCESS); k.v[os.self] = v; cx.mutation(); }
        break;
    }
    case TLS_GET:
    {
        if (!k.live) break;
        void* v = (void*)0x77;
        st = ZyanThreadTlsGetValue(k.k, &v); cx.end();
        expect(names[t.op], st, ZYAN_STATUS_SUCCESS);
        if (v != (k.v.count(os.self) ? k.v[os.self] : nullptr)) cx.fail(T_SYS, "the slot holds %p, stored was %p", v, k.v[os.self]);
        break;
    }
    case TLS_GETBAD:
        // setting a slot that was freed, or freeing it again, is refused
        if (k.live || !k.was || os.keys.count(k.k)) break;
        st = ZyanThreadTlsSetValue(k.k, (void*)1); cx.end();
        expect("tls_set of a freed slot", st, os.failed_errno == EINVAL ? ZYAN_STATUS_INVALID_ARGUMENT : st);
        if (ZYAN_SUCCESS(st)) cx.fail(T_SYS, "setting a freed slot succeeded");
        os.failed = nullptr; cx.begin(0);
        st = ZyanThreadTlsFree(k.k); cx.end();
        expect("tls_free of a freed slot", st, ZYAN_STATUS_BAD_SYSTEMCALL);
        break;
    case PROTECT:
    {
        static const ZyanMemoryPageProtection pr[] = { ZYAN_PAGE_READONLY, ZYAN_PAGE_READWRITE, ZYAN_PAGE_EXECUTE, ZYAN_PAGE_EXECUTE_READ, ZYAN_PAGE_EXECUTE_READWRITE };
        static const int bits[] = { PROT_READ, PROT_READ | PROT_WRITE, PROT_EXEC, PROT_EXEC | PROT_READ, PROT_EXEC | PROT_READ | PROT_WRITE };
        const void* p = addr_arg(t.a[0]); const size_t n = len_arg(t.a[1]); const int w = (int)(t.a[2] % 5);
        st = ZyanMemoryVirtualProtect((void*)p, n, pr[w]); cx.end();
        one_call("virtual_protect", "mprotect", p, n, bits[w], ~0);
        expect(names[t.op], st, os.failed ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS); cx.mutation();
        break;
    }
    case VFREE:
    {
        const void* p = addr_arg(t.a[0]); const size_t n = len_arg(t.a[1]);
        st = ZyanMemoryVirtualFree((void*)p, n); cx.end();
        one_call("virtual_free", "munmap", p, n, 0, 0);
        expect(names[t.op], st, os.failed ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS); cx.mutation();
        break;
    }
    case FLUSH:
    {
        const void* p = addr_arg(t.a[0]); const size_t n = len_arg(t.a[1]);
        st = ZyanProcessFlushInstructionCache((void*)p, n); cx.end();
        one_call("flush", "msync", p, n, MS_SYNC | MS_INVALIDATE, MS_SYNC | MS_INVALIDATE | MS_ASYNC);
        expect(names[t.op], st, os.failed ? ZYAN_STATUS_BAD_SYSTEMCALL : ZYAN_STATUS_SUCCESS); cx.mutation();
        break;
    }
    case PAGESIZE: case GRAN:
    {
        const ZyanU32 n = t.op == PAGESIZE ? ZyanMemoryGetSystemPageSize() : ZyanMemoryGetSystemAllocationGranularity();
        cx.end(); cx.ev(n);
        if (n != (ZyanU32)os.page) cx.fail(T_SYS, "%s is %u, the system says %ld", names[t.op], n, os.page);
        break;
    }
    case OPENFD: os.fd[t.a[0] % 3] = 1 + (int)(t.a[1] % 3); cx.mutation(); break;
    case CLOSEFD: os.fd[t.a[0] % 3] = 0; cx.mutation(); break;
    case TTY:
    {
        const int s = (int)(t.a[0] % 3);
        static const ZyanStandardStream str[] = { ZYAN_STDSTREAM_IN, ZYAN_STDSTREAM_OUT, ZYAN_STDSTREAM_ERR };
        st = ZyanTerminalIsTTY(str[s]); cx.end();
        static const ZyanStatus want[] = { ZYAN_STATUS_INVALID_ARGUMENT, ZYAN_STATUS_TRUE, ZYAN_STATUS_FALSE, ZYAN_STATUS_FALSE };
        if (!os.fd[s]) cx.fault(F_SYSCALL_FAIL);
        expect(names[t.op], st, want[os.fd[s]]);
        break;
    }
    case VT100:
    {
        const int s = (int)(t.a[0] % 3);
        static const ZyanStandardStream str[] = { ZYAN_STDSTREAM_IN, ZYAN_STDSTREAM_OUT, ZYAN_STDSTREAM_ERR };
        st = ZyanTerminalEnableVT100(str[s]); cx.end();
        if (s == 0) expect(names[t.op], st, ZYAN_STATUS_INVALID_ARGUMENT);
        else expect(names[t.op], st, ZYAN_STATUS_SUCCESS);
        break;
    }
    }
    cx.end();
}

void exec(const Plan& p)
{
    os = Os();
    for (auto& c : cs) { memset((void*)&c, 0, sizeof c); memset(&c.m, 0xCC, sizeof c.m); c.live = false; }
    for (auto& t : tl) t = Tl();
    os.page = 1l << p.get("page", 12); os.max_keys = (size_t)p.get("keys", 4); os.max_depth = (int)p.get("depth", 3); os.next_key = (unsigned)p.get("key0", 7); os.reuse = p.get("reuse"); slots = (size_t)std::min<ll>(150, std::max<ll>(1, p.get("slots", 6)));
    for (size_t i = 0; i < p.steps.size(); ++i)
    {
        cx.step = (int)i;
        const Step& t = p.steps[i];
        cx.log("#%zu %s %lld %lld %lld f=%x (thread %d)", i, names[t.op], t.a[0], t.a[1], t.a[2], t.f, os.self);
        const ll again = t.op == CS_ENTER || t.op == CS_TRY || t.op == CS_LEAVE ? std::min<ll>(t.a[3], 70000) : 0;
        for (ll n = 0; n <= again && !cx.violated; ++n) op(t);
        books();
        u64 h = (u64)os.self; for (auto& c : cs) h = h * 64 + (u64)(c.live * 32 + (c.owner + 1) * 6 + c.depth);
        for (auto& k : tl) h = h * 5 + k.live * 2 + (k.v.size() > 1);
        for (int f : os.fd) h = h * 4 + (u64)f;
        const bool vm = t.op == PROTECT || t.op == VFREE || t.op == FLUSH || t.op == PAGESIZE || t.op == GRAN;
        cx.state((h * 7919 + (u64)t.op * 31 + (u64)os.failed_errno) ^ (vm ? mix64((u64)(t.a[0] % 5 * 64 + t.a[1] % 7 * 8 + t.a[2] % 5)) + (u64)os.page : 0));
        cx.take_muted();
    }
    // clean up: everything can be deleted
    cx.step = (int)p.steps.size();
    cx.begin(0);
    for (auto& c : cs) if (c.live)
    {
        while (c.depth) { os.self = c.owner; if (!ZYAN_SUCCESS(ZyanCriticalSectionLeave(&c.m))) { cx.fail(T_SYS, "leaving fails"); throw Abandon(); } --c.depth; }
        if (!ZYAN_SUCCESS(ZyanCriticalSectionDelete(&c.m))) cx.fail(T_SYS, "a free critical section can not be deleted");
        c.live = false;
    }
    for (auto& k : tl) if (k.live) { if (!ZYAN_SUCCESS(ZyanThreadTlsFree(k.k))) cx.fail(T_SYS, "a slot can not be freed"); k.live = false; }
    cx.end();
    books();
}

void gen(Rng& r, Plan& p)
{
    const std::string& id = p.prop;
    p.cfg["page"] = r.pick({12, 12, 13, 14, 16}); p.cfg["keys"] = r.range(1, 6); p.cfg["depth"] = r.range(1, 5);
    const ll mara = marathon(r);
    const int n = (int)(mara ? mara : r.range(4, 50));
    std::vector<int> ops;
    if (id == "C18") ops = {THREAD, CS_INIT, CS_INIT, CS_ENTER, CS_ENTER, CS_TRY, CS_LEAVE, CS_LEAVE, CS_DEL, TLS_ALLOC, TLS_ALLOC, TLS_FREE, TLS_SET, TLS_GET, TLS_GETBAD};
    else if (id == "C24") ops = {PROTECT, PROTECT, PROTECT, VFREE, FLUSH, PAGESIZE, GRAN};
    else ops = {TTY, TTY, TTY, VT100, OPENFD, OPENFD, CLOSEFD};
    if (mara && id == "C18" && r.chance(1, 3)) { const bool c = r.chance(1, 2); ops.insert(ops.end(), (size_t)r.range(4, 40), c ? CS_INIT : TLS_ALLOC); ops.insert(ops.end(), ops.size() - 14, c ? CS_DEL : TLS_FREE); }
    else if (mara && r.chance(3, 4)) for (int k = 0; k < 2; ++k) ops.insert(ops.end(), (size_t)r.range(4, 24), ops[r.below(ops.size())]);
    const u64 rate = r.pick({0, 4, 3, 8, 2});
    const bool deep = id == "C18" && r.chance(1, 30), many = id == "C18" && r.chance(1, 12);
    if (id == "C18") { p.cfg["key0"] = r.pick({0, 0, 1, 7, 63, 128, 1023, 0x10000, 0x7ffffff0}); p.cfg["reuse"] = r.chance(1, 2); }
    if (many) { p.cfg["slots"] = r.range(7, 150); p.cfg["keys"] = r.range(7, 150); }
    if (deep) p.cfg["depth"] = r.pick({200, 256, 300, 40000, 65536, 1000000});
    const ll burst = deep ? r.pick({100, 255, 256, 300, 33000, 66000}) : 0;
    for (int i = 0; i < (many && !mara ? 3 * n : n); ++i)
    {
        Step s; s.op = ops[r.below(ops.size())];
        s.a[0] = (ll)r.below(many ? 450 : 30);
        if (burst && r.chance(1, 5)) s.a[3] = (ll)r.below((u64)burst) + 1;
        s.a[1] = (ll)r.below(4000); s.a[2] = (ll)r.below(5);
        s.a[4] = r.chance(1, 2) ? 0 : (ll)r.pick({EBADF, ENOMEM, EAGAIN, EINVAL, ENOTTY});
        s.a[5] = (ll)r.below(60);
        if (rate && r.chance(1, rate)) s.f = r.chance(1, 2) ? 1u : (1u << r.below(4));
        p.steps.push_back(s);
    }
}

}   // namespace
extern const Scenario scen_sys;
const Scenario scen_sys = {"system", names, NOPS, gen, exec};
