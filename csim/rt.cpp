#include "rt.hpp"
#include <algorithm>
#include <cerrno>
#include <elf.h>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>

// ------------------------------------------------------------------------------------------------
// Memory of the simulated program: bump arena at a fixed place, never reused within a run

static u8* const ARENA = (u8*)0x200000000000ull;
static const size_t ARENA_SIZE = 8u << 20;
static u8* g_valid;            // 1: inside a live block
static size_t g_bump = 0;
static bool g_arena_ok = false;
static void arena_init()
{
    if (g_arena_ok) return;
    void* p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p != ARENA) { fprintf(stderr, "no arena\n"); _exit(3); }
    g_valid = (u8*)mmap(nullptr, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_arena_ok = true;
}
void zraw_reset() { arena_init(); memset(ARENA, 0, g_bump); memset(g_valid, 0, g_bump); g_bump = 0; }
static void access(const void* p, size_t n, bool write);
void* zraw_alloc(size_t n)
{
    arena_init();
    const size_t at = (g_bump + 15) & ~(size_t)15;
    if (at + n + 32 > ARENA_SIZE) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
    g_bump = at + n + 32;
    memset(g_valid + at, 1, n);
    return ARENA + at;
}
void zraw_free(void* p, size_t n)
{
    access(p, n, true);
    memset(g_valid + ((u8*)p - ARENA), 0, n);
}

// ------------------------------------------------------------------------------------------------
// Coroutines

extern "C" void ctx_switch(void** save, void* load);
asm(R"(
.text
.globl ctx_switch
.type ctx_switch,@function
ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size ctx_switch, .-ctx_switch
)");

typedef uint16_t u16;
struct CallState { u32 mask; int reqno, ctorno, fired, injected, step, fmt; };
enum TState { T_NEW, T_READY, T_BLOCKED, T_DONE };
struct Thread
{
    void* sp; TState st; u64 points; int err; CallState cs;
    bool (*ready)(void*); void* arg;
    u8* stack; u16 vc[MAXT + 1]; u16 frel[MAXT], facq[MAXT]; u8* tls;    // clocks of the fences
    u64 pri;
};
static Thread th[MAXT];
static const size_t STACK = 256 << 10;
static void* main_sp;
static int g_cur = MAXT, g_n = 0;
static bool g_stop = false, g_abandon = false, g_sched_on = true;
static void (*g_body)(int);
static u64 g_total = 0, g_limit_points = 300000;

int rt_self() { return g_cur; }
bool rt_done(int t) { return th[t].st == T_DONE; }
bool rt_started(int t) { return th[t].st != T_NEW; }
u64 rt_points(int t) { return th[t].points; }

// thread-local storage of the program (the library's, the harness has none): every simulated thread has its own
static size_t tls_size = 0, tls_init_size = 0; static u8* tls_addr; static const u8* tls_init;
static int tls_cb(struct dl_phdr_info* i, size_t, void*)
{
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS)
        {
            const auto& h = i->dlpi_phdr[k];
            const size_t al = h.p_align ? h.p_align : 1;
            tls_size = h.p_memsz; tls_init_size = h.p_filesz; tls_init = (const u8*)(i->dlpi_addr + h.p_vaddr);
            tls_addr = (u8*)__builtin_thread_pointer() - ((h.p_memsz + al - 1) / al * al);
        }
    return 1;   // only the main program
}
static void tls_fresh(u8* to) { memcpy(to, tls_init, tls_init_size); memset(to + tls_init_size, 0, tls_size - tls_init_size); }

// ------------------------------------------------------------------------------------------------
// Scheduler

static Rng g_rng(1);
static u64 g_low;                // the next lower priority than all given so far
enum Policy { POL_RANDOM, POL_PCT, POL_ROUNDROBIN, POL_CONFLICT, POL_SERIAL, POL_EXPLICIT };
static int g_policy = 0, g_den = 4;
static std::vector<u64> g_changes;
static std::unordered_map<u64, int> g_script;
static bool g_hot = false;       // the access at hand touches memory another thread touched
static u64 g_stall_from = 0, g_stall_to = 0; static int g_stall = -1;
struct SwitchRec { u32 tid, at, to; };
struct SwitchLog { u32 n; SwitchRec e[1 << 16]; };
SwitchLog* g_switchlog = nullptr;

static bool is_ready(int t)
{
    Thread& x = th[t];
    if (x.st == T_BLOCKED && x.ready(x.arg)) return true;
    return x.st == T_READY;
}
static void save_cs(CallState& c) { c = CallState{cx.mask, cx.reqno, cx.ctorno, cx.fired, cx.injected, cx.step, g_fmt_fail}; }
static void load_cs(const CallState& c) { cx.mask = c.mask; cx.reqno = c.reqno; cx.ctorno = c.ctorno; cx.fired = c.fired; cx.injected = c.injected; cx.step = c.step; g_fmt_fail = c.fmt; }

static void go(int t)    // to: thread index or MAXT (main)
{
    const int from = g_cur;
    if (from == t) return;
    if (from < MAXT)
    {
        save_cs(th[from].cs); th[from].err = errno;
        if (tls_size) memcpy(th[from].tls, tls_addr, tls_size);
    }
    g_cur = t;
    if (t < MAXT)
    {
        load_cs(th[t].cs); errno = th[t].err;
        if (tls_size) memcpy(tls_addr, th[t].tls, tls_size);
    }
    void** save = from < MAXT ? &th[from].sp : &main_sp;
    ctx_switch(save, t < MAXT ? th[t].sp : main_sp);
}
static void stop() { g_stop = true; go(MAXT); }

static u64 state_sig()
{
    u64 h = 7;
    for (int i = 0; i < g_n; ++i) h = mix64(h ^ (u64)th[i].st ^ ((u64)(i == g_cur ? cx.step : th[i].cs.step) << 8));
    return h;
}
static void switch_to(int t, u64 at, bool forced)
{
    if (g_switchlog && g_sched_on && g_switchlog->n < (1 << 16)) g_switchlog->e[g_switchlog->n++] = SwitchRec{(u32)g_cur, (u32)at, (u32)t};
    cx.ev(((u64)g_cur << 40) ^ (at << 8) ^ (u64)t);
    ++cx.decisions;
    if (!forced) { cx.fault(F_PREEMPT); cx.state(state_sig() ^ (u64)t << 3); }
    cx.log("  [thread %d after %llu points -> thread %d]", g_cur, (unsigned long long)at, t);
    if (th[t].st == T_BLOCKED) th[t].st = T_READY;
    go(t);
}
// chooses the next thread; returns -1 if none can run
static int choose(bool forced, u64 at)
{
    int rdy[MAXT], n = 0; bool self = false;
    for (int i = 0; i < g_n; ++i)
        if (i == g_cur) { if (!forced && th[i].st == T_READY) { rdy[n++] = i; self = true; } }
        else if (is_ready(i)) rdy[n++] = i;
    if (!n) return -1;
    if (g_policy == POL_EXPLICIT || !g_sched_on)
    {
        if (g_sched_on)
        {
            auto i = g_script.find(((u64)g_cur << 56) | at);
            if (i != g_script.end()) for (int k = 0; k < n; ++k) if (rdy[k] == i->second) return rdy[k];
        }
        if (self) return g_cur;
        for (int k = 0; k < n; ++k) if (rdy[k] > g_cur) return rdy[k];     // spinning threads must not starve the others
        return rdy[0];
    }
    if (g_stall >= 0 && g_total >= g_stall_from && g_total < g_stall_to && n > 1)
    {
        if (g_total == g_stall_from) cx.fault(F_STALL);
        for (int k = 0; k < n; ++k) if (rdy[k] == g_stall) { rdy[k] = rdy[--n]; if (g_stall == g_cur) self = false; break; }
    }
    switch (g_policy)
    {
    case POL_PCT:
    {
        if (std::find(g_changes.begin(), g_changes.end(), g_total) != g_changes.end() && g_cur < MAXT) th[g_cur].pri = g_low--;
        int best = rdy[0];
        for (int k = 1; k < n; ++k) if (th[rdy[k]].pri > th[best].pri) best = rdy[k];
        return best;
    }
    case POL_ROUNDROBIN:
        if (self && g_total % (u64)g_den) return g_cur;
        for (int d = 1; d <= g_n; ++d) { const int c = ((g_cur == MAXT ? 0 : g_cur) + d) % g_n; for (int k = 0; k < n; ++k) if (rdy[k] == c) return c; }
        return rdy[0];
    case POL_CONFLICT:
        if (self && !(g_hot ? g_rng.chance(1, 2) : g_rng.chance(1, (u64)g_den * 16))) return g_cur;
        return rdy[g_rng.below((u64)n)];
    case POL_SERIAL:
        return self ? g_cur : rdy[g_rng.below((u64)n)];
    default:
        if (self && !g_rng.chance(1, (u64)g_den)) return g_cur;
        return rdy[g_rng.below((u64)n)];
    }
}
static void limit()
{
    if (++g_total > g_limit_points)
    {
        cx.fail_later(T_PROGRESS, "no end after %llu steps of the simulated program", (unsigned long long)g_total);
        g_abandon = true; stop();
    }
}
void rt_point()
{
    if (g_cur == MAXT) return;
    Thread& t = th[g_cur];
    const u64 at = ++t.points;
    limit();
    if (cx.violated) stop();
    const int c = choose(false, at);
    g_hot = false;
    if (c >= 0 && c != g_cur) switch_to(c, at, false);
}
static void forced_switch()
{
    Thread& t = th[g_cur];
    const u64 at = ++t.points;
    limit();
    if (cx.violated) stop();
    const int c = choose(true, at);
    if (c < 0)
    {
        int blocked = 0;
        for (int i = 0; i < g_n; ++i) blocked += th[i].st == T_BLOCKED;
        if (blocked)
        {
            cx.fail_later(T_PROGRESS, "%d threads wait for ever, nobody is left to release them", blocked);
            g_abandon = true;
        }
        stop();
    }
    switch_to(c, at, true);
}
void rt_yield()
{
    if (g_cur == MAXT) return;
    th[g_cur].pri = g_low--;
    const u64 at = ++th[g_cur].points;
    limit();
    if (cx.violated) stop();
    const int c = choose(true, at);
    if (c >= 0) switch_to(c, at, true);
}
bool rt_wait(bool (*ready)(void*), void* arg)
{
    if (g_cur == MAXT) return ready(arg);
    while (!ready(arg))
    {
        Thread& t = th[g_cur];
        t.st = T_BLOCKED; t.ready = ready; t.arg = arg;
        forced_switch();
        t.st = T_READY;
    }
    return true;
}
int rt_others_ready() { int n = 0; for (int i = 0; i < g_n; ++i) n += i != g_cur && is_ready(i); return n; }
int sim_blocked_count() { int n = 0; for (int i = 0; i < g_n; ++i) n += th[i].st == T_BLOCKED; return n; }

static void entry()
{
    const int me = g_cur;
    try { sim_thread_begin(me); g_body(me); sim_thread_end(me); if (rt_at_exit) rt_at_exit(me); }
    catch (Violation&) { stop(); }
    catch (Abandon&) { g_abandon = true; stop(); }
    th[me].st = T_DONE;
    bool any = false;
    for (int i = 0; i < g_n; ++i) any |= th[i].st == T_READY || th[i].st == T_BLOCKED;
    if (!any) stop();
    forced_switch();
    stop();
}
static void start_thread(int i)
{
    Thread& t = th[i];
    if (!t.stack)
    {
        u8* s = (u8*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(s, 4096, PROT_NONE);
        t.stack = s + 4096;
    }
    memset(t.stack + STACK - 16384, (int)(0x3C ^ (g_salt * 0x5B)), 16384);
    void** sp = (void**)(t.stack + STACK - 64);
    *--sp = nullptr;              // keeps the stack aligned at function entry
    *--sp = (void*)entry;
    for (int k = 0; k < 6; ++k) *--sp = nullptr;
    t.sp = sp; t.st = T_READY; t.points = 0; t.err = 0;
    t.cs = CallState{0, 0, 0, 0, 0, cx.step, -1};
    t.ready = nullptr;
    if (tls_size) { if (!t.tls) t.tls = (u8*)malloc(tls_size); tls_fresh(t.tls); }
}

// ------------------------------------------------------------------------------------------------
// Happens-before race detection: for every byte the last read and write of every thread

struct Cell { u64 key; u32 run; u16 w[MAXT][8], r[MAXT][8]; };
static const size_t NCELL = 1 << 14;
static Cell* g_cells;
static u32 g_run = 0; static size_t g_used = 0;
static std::unordered_map<u64, std::vector<u16>> g_sync;    // object -> clock
static u16 g_mainvc[MAXT + 1];

static Cell* cell(u64 key)
{
    size_t i = mix64(key) & (NCELL - 1);
    for (;;)
    {
        Cell& c = g_cells[i];
        if (c.run != g_run)
        {
            if (++g_used > NCELL * 3 / 4) { g_abandon = true; probe("shadow_full"); stop(); }
            memset(&c, 0, sizeof c); c.key = key; c.run = g_run; return &c;
        }
        if (c.key == key) return &c;
        i = (i + 1) & (NCELL - 1);
    }
}
struct Range { const u8 *lo, *hi; };
static std::vector<Range> g_ro;
void rt_readonly_add(const void* p, size_t n) { g_ro.push_back(Range{(const u8*)p, (const u8*)p + n}); }
void rt_readonly_clear() { g_ro.clear(); }

extern "C" char __start_zlibdata[] __attribute__((weak)), __stop_zlibdata[] __attribute__((weak)), __start_zlibbss[] __attribute__((weak)), __stop_zlibbss[] __attribute__((weak));
static const char* region(const void* p)
{
    const char* c = (const char*)p;
    if ((c >= __start_zlibdata && c < __stop_zlibdata) || (c >= __start_zlibbss && c < __stop_zlibbss)) return "static data of the library";
    if ((const u8*)p >= ARENA && (const u8*)p < ARENA + ARENA_SIZE) return "heap memory";
    for (int i = 0; i < MAXT; ++i) if (th[i].stack && (const u8*)p >= th[i].stack && (const u8*)p < th[i].stack + STACK) return "a thread's stack";
    return "other memory";
}
// a thread's stack and its thread-local variables
static bool own_memory(int me, const u8* b) { return (th[me].stack <= b && b < th[me].stack + STACK) || (tls_addr <= b && b < tls_addr + tls_size); }
static void access(const void* p, size_t n, bool write)
{
    if (!n) return;
    const int me = g_cur;
    const u8* b = (const u8*)p;
    if (b >= ARENA && b < ARENA + ARENA_SIZE)
    {
        if (!g_valid[b - ARENA] || !g_valid[b + n - 1 - ARENA])
        {
            cx.fail_later(T_ALLOC, "%s of %zu bytes outside of live memory", write ? "write" : "read", n);
            if (me < MAXT) { g_abandon = true; stop(); }
        }
    }
    if (me == MAXT) return;
    if (own_memory(me, b)) return;
    if (write) for (auto& r : g_ro) if (b < r.hi && b + n > r.lo) { cx.fail_later(T_SCHED, "a read-only operation writes to the shared object"); if (cx.violated) stop(); }
    Thread& t = th[me];
    bool hot = false;
    for (u64 a = (u64)b; a < (u64)b + n;)
    {
        const u64 key = a >> 3; const u64 end = std::min<u64>((key + 1) << 3, (u64)b + n);
        Cell* c = cell(key);
        for (; a < end; ++a)
        {
            const int k = (int)(a & 7);
            for (int u = 0; u < g_n; ++u)
            {
                if (u == me) continue;
                hot |= c->w[u][k] || (write && c->r[u][k]);
                if (c->w[u][k] > t.vc[u] || (write && c->r[u][k] > t.vc[u]))
                {
                    cx.fail_later(T_SCHED, "thread %d %s %s that thread %d %s, without synchronisation", me, write ? "writes" : "reads", region(b), u, c->w[u][k] > t.vc[u] ? "writes" : "reads");
                    if (cx.violated) stop();
                    c->w[u][k] = 0; c->r[u][k] = 0;
                }
            }
            (write ? c->w : c->r)[me][k] = t.vc[me];
        }
    }
    g_hot |= hot;
}
static inline void mem(const void* p, size_t n, bool write)
{
    if (g_cur != MAXT && !own_memory(g_cur, (const u8*)p)) { access(p, n, write); rt_point(); }
    else access(p, n, write);
}
static std::vector<u16>& syncvar(u64 k) { auto& v = g_sync[k]; if (v.empty()) v.resize(MAXT); return v; }
static void acquire(u64 k) { if (g_cur == MAXT) return; auto i = g_sync.find(k); if (i == g_sync.end()) return; for (int u = 0; u < MAXT; ++u) th[g_cur].vc[u] = std::max(th[g_cur].vc[u], i->second[(size_t)u]); }
static void release(u64 k) { if (g_cur == MAXT) return; auto& v = syncvar(k); for (int u = 0; u < MAXT; ++u) v[(size_t)u] = std::max(v[(size_t)u], th[g_cur].vc[u]); ++th[g_cur].vc[g_cur]; }
// relaxed accesses take part in synchronisation through fences: a relaxed store releases what the last release fence saw, a later
// acquire fence acquires what relaxed loads have seen. A store that is no read-modify-write ends the release sequence.
static void collect(u64 k) { if (g_cur == MAXT) return; auto i = g_sync.find(k); if (i == g_sync.end()) return; for (int u = 0; u < MAXT; ++u) th[g_cur].facq[u] = std::max(th[g_cur].facq[u], i->second[(size_t)u]); }
static void release_fenced(u64 k) { if (g_cur == MAXT) return; auto& v = syncvar(k); for (int u = 0; u < MAXT; ++u) v[(size_t)u] = std::max(v[(size_t)u], th[g_cur].frel[u]); }
static void unrelease(u64 k) { if (g_cur == MAXT) return; auto i = g_sync.find(k); if (i != g_sync.end()) i->second.assign(MAXT, 0); }
static void fence(int mo)
{
    if (g_cur == MAXT) return;
    Thread& t = th[g_cur];
    if (mo == 1 || mo == 2 || mo >= 4) for (int u = 0; u < MAXT; ++u) t.vc[u] = std::max(t.vc[u], t.facq[u]);
    if (mo >= 3) { memcpy(t.frel, t.vc, sizeof t.frel); ++t.vc[g_cur]; }
}
void rt_release(u64* t) { release((u64)t); }
void rt_acquire(u64* t) { acquire((u64)t); }

void rt_spawn(int t)
{
    if (th[t].st != T_NEW) return;
    start_thread(t);
    memcpy(th[t].vc, th[g_cur].vc, sizeof th[t].vc); th[t].vc[t] = 1;
    if (g_cur < MAXT) ++th[g_cur].vc[g_cur];
    rt_point();
}
u64 sh_read(u64* p) { mem(p, 8, false); return *p; }
void sh_write(u64* p, u64 v) { mem(p, 8, true); *p = v; }
void sh_touch(const void* p, size_t n, bool w) { mem(p, n, w); }

void rt_run(const Plan& p, int n, u32 start, void (*body)(int), bool scheduled)
{
    arena_init();
    if (!g_cells) g_cells = (Cell*)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    static bool looked = false;
    if (!looked) { looked = true; dl_iterate_phdr(tls_cb, nullptr); }
    ++g_run; g_used = 0; g_sync.clear();
    g_n = n; g_body = body; g_stop = g_abandon = false; g_total = 0; g_limit_points = p.get("large") || p.get("long") ? 6000000 : 300000; g_hot = false; g_sched_on = scheduled;
    g_rng = Rng(mix64((u64)p.get("sseed", 1)));
    g_policy = p.get("explicit") ? POL_EXPLICIT : (int)p.get("policy", 0);
    g_den = (int)std::max<ll>(1, p.get("den", 4));
    g_changes.clear();
    const u64 len = (u64)std::max<ll>(8, p.get("len", 200));
    for (ll i = 0; i < p.get("changes", 0); ++i) g_changes.push_back(1 + g_rng.below(len));
    g_stall = -1;
    if (p.get("stall") && n > 1) { g_stall = (int)g_rng.below((u64)n); g_stall_from = 1 + g_rng.below(len); g_stall_to = g_stall_from + 1 + g_rng.below(len); }
    g_script.clear();
    if (g_policy == POL_EXPLICIT) for (auto& s : p.steps) if (s.op == OP_SWITCH) g_script[((u64)s.a[0] << 56) | (u64)s.a[1]] = (int)s.a[2];
    if (g_switchlog && scheduled) g_switchlog->n = 0;
    memset(g_mainvc, 0, sizeof g_mainvc);
    g_low = 999999;
    for (int i = 0; i < MAXT; ++i)
    {
        th[i].st = T_NEW; memset(th[i].vc, 0, sizeof th[i].vc); memset(th[i].frel, 0, sizeof th[i].frel); memset(th[i].facq, 0, sizeof th[i].facq); th[i].vc[i] = 1; th[i].points = 0;
        th[i].pri = 1000000 + g_rng.below(1000);
    }
    CallState keep; save_cs(keep);
    std::vector<u8> tkeep(tls_size);
    if (tls_size) memcpy(tkeep.data(), tls_addr, tls_size);
    for (int i = 0; i < n; ++i) if (start >> i & 1) start_thread(i);
    const int first = choose(true, 0);
    if (first >= 0) switch_to(first, 0, true);
    g_cur = MAXT;
    if (tls_size) memcpy(tls_addr, tkeep.data(), tls_size);
    load_cs(keep);
    if (cx.violated) throw Violation();
    if (g_abandon) throw Abandon();
}

void gen_sched(Rng& r, Plan& p)
{
    p.cfg["sseed"] = (ll)(r.next() >> 20);
    const int pol = r.pick({0, 0, 0, 1, 1, 1, 2, 3, 3, 4});
    p.cfg["policy"] = pol;
    p.cfg["den"] = pol == POL_ROUNDROBIN ? r.pick({1, 1, 2, 3, 7}) : r.pick({1, 2, 3, 4, 8, 16, 40});
    p.cfg["len"] = r.pick({20, 60, 200, 200, 600, 2000});
    if (pol == POL_PCT) p.cfg["changes"] = r.range(1, 5);
    if (r.chance(1, 4)) p.cfg["stall"] = 1;
}

// ------------------------------------------------------------------------------------------------
// Instrumentation runtime (in place of the one that comes with -fsanitize=thread)

extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) { mem(p, 8, true); }
void __tsan_vptr_read(void** p) { mem(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { mem(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { mem(p, n, true); }
#define RW(n) \
    void __tsan_read##n(void* p) { mem(p, n, false); } \
    void __tsan_write##n(void* p) { mem(p, n, true); } \
    void __tsan_read_write##n(void* p) { mem(p, n, false); mem(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { mem(p, n, false); } \
    void __tsan_volatile_write##n(void* p) { mem(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { mem(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { mem(p, n, true); } \
    void __tsan_unaligned_read_write##n(void* p) { mem(p, n, false); mem(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { mem(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { mem(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)

// Atomics: indivisible, a switch may happen before. Memory orders make happens-before edges.
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static inline void at(const volatile void* p, size_t n) { if (g_cur != MAXT) { g_hot = true; rt_point(); } (void)p; (void)n; }
static inline void acq(const volatile void* p, int mo) { if (mo == MO_ACQUIRE || mo == MO_CONSUME || mo >= MO_ACQ_REL) acquire((u64)p); else collect((u64)p); }
static inline void rel(const volatile void* p, int mo) { if (mo >= MO_RELEASE) release((u64)p); else release_fenced((u64)p); }
static bool cas_fails();
#define RMW(bits, T, name, expr) \
    T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) { at(a, sizeof(T)); acq(a, mo); rel(a, mo); T o = *a; *a = (T)(expr); return o; }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at(a, sizeof(T)); acq(a, mo); return *a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at(a, sizeof(T)); unrelease((u64)a); rel(a, mo); *a = v; } \
    RMW(bits, T, exchange, v) RMW(bits, T, fetch_add, o + v) RMW(bits, T, fetch_sub, o - v) RMW(bits, T, fetch_and, o & v) \
    RMW(bits, T, fetch_or, o | v) RMW(bits, T, fetch_xor, o ^ v) RMW(bits, T, fetch_nand, ~(o & v)) \
    static inline bool cas##bits(volatile T* a, T* c, T v, int mo, int fmo) \
    { \
        const T o = *a; \
        if (o != *c) { acq(a, fmo); *c = o; return false; } \
        acq(a, mo); rel(a, mo); *a = v; return true; \
    } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { at(a, sizeof(T)); cas##bits(a, &c, v, mo, fmo); return c; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { at(a, sizeof(T)); return cas##bits(a, c, v, mo, fmo); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) \
    { \
        at(a, sizeof(T)); \
        if (*a == *c && cas_fails()) { acq(a, fmo); return 0; } \
        return cas##bits(a, c, v, mo, fmo); \
    }
static bool cas_fails()     // a weak compare-exchange may fail without a reason
{
    ++cx.requests;
    const int i = cx.reqno++;
    if (g_cur != MAXT && i < 3 && ((cx.mask >> i) & 1)) { cx.fault(F_SPURIOUS_CAS); return true; }
    return false;
}
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) { if (g_cur != MAXT) rt_point(); fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// libc functions the library uses, as sequences of accesses
void* zsim_memcpy(void* d, const void* s, size_t n)
{
    if (n) { mem(s, n, false); mem(d, n, true); }
    if (n > 1 && g_cur != MAXT) { memcpy(d, s, n / 2); rt_point(); memcpy((u8*)d + n / 2, (const u8*)s + n / 2, n - n / 2); return d; }
    return memcpy(d, s, n);
}
void* zsim_memmove(void* d, const void* s, size_t n) { if (n) { mem(s, n, false); mem(d, n, true); } return memmove(d, s, n); }
void* zsim_memset(void* d, int c, size_t n)
{
    if (n) mem(d, n, true);
    if (n > 1 && g_cur != MAXT) { memset(d, c, n / 2); rt_point(); memset((u8*)d + n / 2, c, n - n / 2); return d; }
    return memset(d, c, n);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) { return zsim_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return zsim_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return zsim_memset(d, c, n); }
int zsim_memcmp(const void* a, const void* b, size_t n) { if (n) { mem(a, n, false); mem(b, n, false); } return memcmp(a, b, n); }
void* zsim_memchr(const void* a, int c, size_t n) { if (n) mem(a, n, false); return (void*)memchr(a, c, n); }
size_t zsim_strlen(const char* s) { const size_t n = strlen(s); mem(s, n + 1, false); return n; }
int zsim_strcmp(const char* a, const char* b) { mem(a, strlen(a) + 1, false); mem(b, strlen(b) + 1, false); return strcmp(a, b); }
int zsim_strncmp(const char* a, const char* b, size_t n) { if (n) { mem(a, strnlen(a, n), false); mem(b, strnlen(b, n), false); } return strncmp(a, b, n); }
char* zsim_strcpy(char* d, const char* s) { const size_t n = strlen(s) + 1; mem(s, n, false); mem(d, n, true); memcpy(d, s, n); return d; }
char* zsim_strncpy(char* d, const char* s, size_t n) { if (n) { mem(s, strnlen(s, n), false); mem(d, n, true); } return strncpy(d, s, n); }
char* zsim_strchr(const char* s, int c) { mem(s, strlen(s) + 1, false); return (char*)strchr(s, c); }
char* zsim_strrchr(const char* s, int c) { mem(s, strlen(s) + 1, false); return (char*)strrchr(s, c); }
char* zsim_strstr(const char* a, const char* b) { mem(a, strlen(a) + 1, false); mem(b, strlen(b) + 1, false); return (char*)strstr(a, b); }
int zsim_sched_yield() { rt_yield(); return 0; }
}
void csim_format_access(const char* f, char* d, size_t n) { mem(f, strlen(f) + 1, false); if (n) mem(d, n, true); }

// ------------------------------------------------------------------------------------------------
// pthread stand-ins

namespace {
struct Mutex { int type, owner, depth; };
std::map<const void*, Mutex> mutexes;
std::map<const void*, int> attrs;
struct Key { bool used = false; void (*dtor)(void*) = nullptr; void* val[MAXT + 1] = {}; };
std::vector<Key> keys;
int max_keys = 16, reuse = 1;
struct Once { bool done, running; };
std::map<const void*, Once> onces;
u8* tcb_base = nullptr;
const size_t TCB_STRIDE = 1ull << 32;     // control blocks that differ only in the upper half of their address
const int TCBS = 16;
bool tcb_used[TCBS]; int tcb_of[MAXT + 1];
}
u32 sim_in_try = 0; int sim_err_fault = 0; void (*rt_at_exit)(int) = nullptr;
int sim_mutexes_alive() { return (int)mutexes.size() + (int)attrs.size(); }
int sim_keys_alive() { int n = 0; for (auto& k : keys) n += k.used; return n; }
void* sim_tcb(int t) { return tcb_of[t] < 0 ? nullptr : tcb_base + (size_t)tcb_of[t] * TCB_STRIDE; }
static int take_tcb()
{
    for (int i = 0; i < TCBS; ++i) if (!tcb_used[i]) { tcb_used[i] = true; return i; }
    return TCBS - 1;
}
void sim_threads_reset(int mk, int reuse_tcb)
{
    if (!tcb_base)
    {
        tcb_base = (u8*)mmap((void*)0x300000010000ull, TCB_STRIDE * TCBS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (tcb_base != (u8*)0x300000010000ull) { fprintf(stderr, "no room for thread control blocks\n"); _exit(3); }
        for (int i = 0; i < TCBS; ++i)
        {
            u8* p = tcb_base + (size_t)i * TCB_STRIDE;
            mprotect(p, 4096, PROT_READ | PROT_WRITE);
            *(void**)p = p;
        }
    }
    mutexes.clear(); attrs.clear(); keys.clear(); onces.clear();
    max_keys = mk; reuse = reuse_tcb; sim_in_try = 0; sim_err_fault = 0; rt_at_exit = nullptr;
    for (auto& x : tcb_used) x = false;
    for (auto& x : tcb_of) x = -1;
    tcb_of[MAXT] = take_tcb();
}
void sim_thread_begin(int t) { tcb_of[t] = take_tcb(); }
void sim_thread_end(int t)
{
    for (int round = 0; round < 4; ++round)
    {
        bool any = false;
        for (size_t k = 0; k < keys.size(); ++k)
        {
            rt_point();
            void* v = keys[k].val[t];
            if (!keys[k].used || !v || !keys[k].dtor) continue;
            keys[k].val[t] = nullptr; any = true;
            keys[k].dtor(v);
        }
        if (!any) break;
    }
    if (reuse) tcb_used[tcb_of[t]] = false;
    tcb_of[t] = -1;
}
static int fault(std::initializer_list<int> errs)
{
    ++cx.requests; ++cx.decisions;
    const int i = cx.reqno++;
    if (i < 8 && ((cx.mask >> i) & 1)) { ++cx.fired; ++cx.injected; cx.fault(F_SYSCALL_FAIL); return errs.begin()[(size_t)sim_err_fault % errs.size()]; }
    return 0;
}
struct LockArg { const void* m; int me; };
static bool lock_free(void* a) { LockArg* l = (LockArg*)a; auto i = mutexes.find(l->m); return i == mutexes.end() || !i->second.depth; }
static void implicit(pthread_mutex_t* m)      // mutexes with static storage need no initialisation
{
    if (!mutexes.count(m) && !strcmp(region(m), "static data of the library")) mutexes[m] = Mutex{PTHREAD_MUTEX_NORMAL, -1, 0};
}
static int lock(pthread_mutex_t* m, bool tr)
{
    rt_point();
    implicit(m);
    auto i = mutexes.find(m);
    if (i == mutexes.end()) return EINVAL;
    const int me = g_cur;
    if (i->second.depth && i->second.owner == me)
    {
        if (i->second.type == PTHREAD_MUTEX_RECURSIVE) { ++i->second.depth; cx.ev(0x10c3); return 0; }
        if (tr) return EBUSY;
        if (i->second.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (i->second.depth)
    {
        if (tr) { probe("try_refused"); return EBUSY; }
        probe("waited_for_mutex");
        LockArg l{m, me};
        rt_wait(lock_free, &l);
        i = mutexes.find(m);
        if (i == mutexes.end()) return EINVAL;
    }
    i->second.owner = me; i->second.depth = 1;
    acquire((u64)m);
    cx.ev(0x10c4 ^ (u64)me);
    return 0;
}
extern "C"
{
int zsim_pthread_mutexattr_init(pthread_mutexattr_t* a) { if (int e = fault({ENOMEM})) return e; attrs[a] = PTHREAD_MUTEX_NORMAL; return 0; }
int zsim_pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { if (!attrs.count(a)) return EINVAL; attrs[a] = t; return 0; }
int zsim_pthread_mutexattr_destroy(pthread_mutexattr_t* a) { return attrs.erase(a) ? 0 : EINVAL; }
int zsim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    if (int e = fault({EAGAIN, ENOMEM, EPERM})) return e;
    mutexes[m] = Mutex{a && attrs.count(a) ? attrs[a] : PTHREAD_MUTEX_NORMAL, -1, 0};
    return 0;
}
int zsim_pthread_mutex_destroy(pthread_mutex_t* m)
{
    rt_point();
    auto i = mutexes.find(m);
    if (i == mutexes.end()) return EINVAL;
    if (i->second.depth) return EBUSY;
    mutexes.erase(i);
    return 0;
}
int zsim_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (int e = fault({EAGAIN})) return e;
    if (g_cur != MAXT && (sim_in_try >> g_cur & 1) && mutexes.count(m) && mutexes[m].depth && mutexes[m].owner != g_cur)
        cx.fail_later(T_PROGRESS, "a try to enter waits for another thread");
    return lock(m, false);
}
int zsim_pthread_mutex_trylock(pthread_mutex_t* m) { return lock(m, true); }
int zsim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*)
{
    if (g_cur != MAXT && (sim_in_try >> g_cur & 1) && mutexes.count(m) && mutexes[m].depth && mutexes[m].owner != g_cur)
        cx.fail_later(T_PROGRESS, "a try to enter waits for another thread");
    const int e = lock(m, true);
    return e == EBUSY ? ETIMEDOUT : e;
}
int zsim_pthread_mutex_unlock(pthread_mutex_t* m)
{
    rt_point();
    auto i = mutexes.find(m);
    if (i == mutexes.end()) return EINVAL;
    Mutex& x = i->second;
    if (x.type == PTHREAD_MUTEX_RECURSIVE || x.type == PTHREAD_MUTEX_ERRORCHECK)
        if (!x.depth || x.owner != g_cur) return EPERM;
    if (x.depth) --x.depth;
    if (!x.depth) { release((u64)m); x.owner = -1; }
    cx.ev(0x10c5);
    return 0;
}
int zsim_pthread_key_create(pthread_key_t* k, void (*d)(void*))
{
    rt_point();
    if (int e = fault({EAGAIN, ENOMEM})) return e;
    size_t i = 0;
    while (i < keys.size() && keys[i].used) ++i;
    if ((int)i >= max_keys) { ++cx.fired; cx.fault(F_EXHAUSTED); return EAGAIN; }
    if (i == keys.size()) keys.push_back(Key());
    keys[i] = Key(); keys[i].used = true; keys[i].dtor = d;
    *k = (pthread_key_t)i;
    return 0;
}
int zsim_pthread_key_delete(pthread_key_t k)
{
    rt_point();
    if (k >= keys.size() || !keys[k].used) return EINVAL;
    keys[k].used = false;
    return 0;
}
int zsim_pthread_setspecific(pthread_key_t k, const void* v)
{
    rt_point();
    if (int e = fault({ENOMEM})) return e;
    if (k >= keys.size() || !keys[k].used) return EINVAL;
    keys[k].val[g_cur] = (void*)v;
    return 0;
}
void* zsim_pthread_getspecific(pthread_key_t k)
{
    rt_point();
    return k < keys.size() && keys[k].used ? keys[k].val[g_cur] : nullptr;
}
pthread_t zsim_pthread_self() { rt_point(); return (pthread_t)sim_tcb(g_cur); }
int zsim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int zsim_pthread_once(pthread_once_t* o, void (*f)())
{
    rt_point();
    struct W { static bool ready(void* a) { return onces[a].done || !onces[a].running; } };
    rt_wait(W::ready, o);
    Once& x = onces[o];
    if (x.done) { acquire((u64)o); return 0; }
    x.running = true; f(); onces[o].done = true; onces[o].running = false;
    release((u64)o);
    return 0;
}
// not used by concurrent scenarios
int zsim_mprotect(void*, size_t, int) { return 0; }
int zsim_munmap(void*, size_t) { return 0; }
int zsim_msync(void*, size_t, int) { return 0; }
long zsim_sysconf(int) { return 4096; }
int zsim_getpagesize() { return 4096; }
int zsim_isatty(int) { return 0; }
}
