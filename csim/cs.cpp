// Critical sections under simulated threads: exclusion, visibility, reentrancy, tries, progress.
#include "rt.hpp"
#include <Zycore/API/Synchronization.h>
#include <algorithm>

namespace {

enum Op { SW, ENTER, TRY, LEAVE, TOUCH, BADLEAVE, PAUSE, SPAWN, NOPS };
const char* const names[NOPS] = { "switch", "enter", "try_enter", "leave", "touch", "leave_not_entered", "pause", "spawn" };
const int MAXCS = 3;

struct Shared { ZyanCriticalSection cs[MAXCS]; u64 data[MAXCS][2]; };
Shared* sh;
int ncs, nthr, max_depth;
int depth[MAXT][MAXCS];          // as the caller sees it
int calls[MAXT][MAXCS];          // in a call on the section
u64 started[MAXCS];              // calls started
u64 touches[MAXCS];
std::vector<std::pair<int, Step>> prog[MAXT];

void inside(int me, int c, const char* how)
{
    for (int u = 0; u < nthr; ++u)
        if (u != me && depth[u][c]) cx.fail(T_SCHED, "thread %d is inside critical section %d (%s) while thread %d is", me, c, how, u);
}
void entered(int me, int c, const char* how)
{
    ++depth[me][c];
    if (depth[me][c] > 1) probe("nested_enter");
    inside(me, c, how);
    cx.mutation();
}
void touch(int me, int c, int n)
{
    for (int i = 0; i < n; ++i)
    {
        const u64 v = sh_read(&sh->data[c][0]);
        const u64 w = sh_read(&sh->data[c][1]);
        if (v != w || v != touches[c]) cx.fail(T_SCHED, "inside critical section %d thread %d sees %llu/%llu, %llu changes were made before", c, me, (unsigned long long)v, (unsigned long long)w, (unsigned long long)touches[c]);
        sh_write(&sh->data[c][0], v + 1);
        inside(me, c, "still");
        sh_write(&sh->data[c][1], w + 1);
        ++touches[c];
    }
}
void leave(int me, int c)
{
    --depth[me][c]; ++calls[me][c];
    rt_point();
    cx.begin(0);
    const ZyanStatus st = ZyanCriticalSectionLeave(&sh->cs[c]);
    cx.end();
    --calls[me][c];
    cx.ev(st);
    if (!ZYAN_SUCCESS(st)) { cx.fail(T_STATUS, "thread %d cannot leave critical section %d it entered: %08x", me, c, st); throw Abandon(); }
}

void run_step(int me, const Step& t)
{
    const int c = (int)((size_t)t.a[1] % (size_t)ncs);
    rt_point();
    cx.log("#%d thread %d: %s %d", cx.step, me, names[t.op], c);
    bool tr = t.op == TRY;
    if (t.op == ENTER && !depth[me][c])
        for (int k = c + 1; k < ncs; ++k) if (depth[me][k]) { tr = true; probe("enter_out_of_order_becomes_try"); }   // a program that waits out of order may deadlock by itself
    switch (t.op)
    {
    case ENTER: case TRY:
        if (depth[me][c] >= max_depth) break;
        if (!tr)
        {
            ++started[c]; ++calls[me][c];
            cx.begin(t.f);
            const ZyanStatus st = ZyanCriticalSectionEnter(&sh->cs[c]);
            const int fired = cx.end();
            --calls[me][c];
            cx.ev(st);
            cx.log("    thread %d: enter %d -> %08x", me, c, st);
            if (ZYAN_SUCCESS(st)) entered(me, c, "entered");
            else if (!fired) cx.fail(T_STATUS, "thread %d cannot enter critical section %d (depth %d): %08x", me, c, depth[me][c], st);
        } else
        {
            bool other = false;
            for (int u = 0; u < nthr; ++u) other |= u != me && (depth[u][c] || calls[u][c]);
            const u64 before = ++started[c];
            const u64 pts = rt_points(me);
            ++calls[me][c]; sim_in_try |= 1u << me;
            cx.begin(0);
            const ZyanBool got = ZyanCriticalSectionTryEnter(&sh->cs[c]);
            sim_in_try &= ~(1u << me); --calls[me][c];
            cx.end();
            cx.ev(got);
            cx.log("    thread %d: try_enter %d -> %d", me, c, got);
            if (rt_points(me) - pts > 64) cx.fail(T_PROGRESS, "a try to enter takes %llu steps", (unsigned long long)(rt_points(me) - pts));
            if (got) entered(me, c, "by a try");
            else
            {
                if (depth[me][c]) cx.fail(T_STATUS, "thread %d tries to enter critical section %d it is in and is refused", me, c);
                else if (!other && started[c] == before) cx.fail(T_STATUS, "thread %d tries to enter critical section %d that is free and is refused", me, c);
                probe("try_enter_false");
            }
        }
        break;
    case LEAVE: if (depth[me][c]) leave(me, c); break;
    case TOUCH: if (depth[me][c]) touch(me, c, (int)(1 + t.a[2] % 3)); break;
    case BADLEAVE:
        if (!depth[me][c])
        {
            cx.begin(0);
            const ZyanStatus st = ZyanCriticalSectionLeave(&sh->cs[c]);
            cx.end();
            cx.ev(st); cx.fault(F_OUT_OF_RANGE);
            if (ZYAN_SUCCESS(st)) cx.fail(T_STATUS, "thread %d may leave critical section %d it is not in", me, c);
            else if (st != ZYAN_STATUS_INVALID_OPERATION) cx.fail(T_STATUS, "leaving a critical section the thread is not in: %08x", st);
        }
        break;
    case PAUSE: rt_yield(); break;
    case SPAWN: { const int k = (int)((size_t)t.a[1] % (size_t)nthr); rt_spawn(k); break; }
    }
}
void body(int me)
{
    for (auto& s : prog[me])
    {
        cx.step = s.first;
        const int o = s.second.op;
        const ll again = o == ENTER || o == TRY || o == LEAVE ? std::min<ll>(s.second.a[3], 70000) : 0;
        for (ll n = 0; n <= again; ++n) run_step(me, s.second);
    }
    for (int c = ncs - 1; c >= 0; --c) while (depth[me][c]) leave(me, c);
}

void exec(const Plan& p)
{
    nthr = (int)std::min<ll>(MAXT, std::max<ll>(1, p.get("threads", 2)));
    max_depth = (int)std::min<ll>(100000, p.get("depth", 21));
    if (max_depth > 21) probe("deep_recursion");
    ncs = (int)std::min<ll>(MAXCS, std::max<ll>(1, p.get("sections", 1)));
    sim_threads_reset(8, 1);
    memset(depth, 0, sizeof depth); memset(calls, 0, sizeof calls); memset(started, 0, sizeof started); memset(touches, 0, sizeof touches);
    for (auto& v : prog) v.clear();
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& s = p.steps[k];
        if (s.op != SW) prog[(size_t)s.a[0] % (size_t)nthr].push_back({(int)k, s});
    }
    sh = (Shared*)sim_buffer(sizeof(Shared));
    memset(sh->data, 0, sizeof sh->data);
    cx.begin(0);
    for (int c = 0; c < ncs; ++c)
    {
        cx.step = -1;
        const ZyanStatus st = ZyanCriticalSectionInitialize(&sh->cs[c]);
        if (!ZYAN_SUCCESS(st)) { cx.fail(T_STATUS, "cannot initialize a critical section: %08x", st); throw Abandon(); }
    }
    rt_run(p, nthr, p.get("start", 255) & ((1 << nthr) - 1) ? (u32)p.get("start", 255) & ((1u << nthr) - 1) : 1u, body);
    cx.step = (int)p.steps.size();
    for (int c = 0; c < ncs; ++c)
    {
        if (sh->data[c][0] != touches[c] || sh->data[c][1] != touches[c]) cx.fail(T_SCHED, "%llu changes were made inside critical section %d, %llu are visible", (unsigned long long)touches[c], c, (unsigned long long)sh->data[c][0]);
        const ZyanStatus st = ZyanCriticalSectionDelete(&sh->cs[c]);
        if (!ZYAN_SUCCESS(st)) cx.fail(T_STATUS, "cannot delete a critical section nobody is in: %08x", st);
    }
}

void gen(Rng& r, Plan& p)
{
    const int n = (int)r.range(2, r.chance(1, 3) ? 5 : 3), m = (int)r.pick({1, 1, 2, 3});
    p.cfg["threads"] = n; p.cfg["sections"] = m;
    gen_sched(r, p);
    const bool faults = r.chance(1, 3);
    const bool spawning = r.chance(1, 3);
    if (spawning) p.cfg["start"] = 1;
    const bool deep = r.chance(1, 60);
    const ll burst = deep ? r.pick({100, 255, 256, 300, 1000, 33000, 66000}) : 0;
    if (deep) { p.cfg["depth"] = 100000; p.cfg["large"] = 1; }
    const ll mara = deep ? 0 : std::min<ll>(marathon(r), 8000);
    if (mara) p.cfg["large"] = 1;
    for (int t = 0; t < n; ++t)
    {
        const int len = (int)(mara ? mara / 4 : r.range(2, r.chance(1, 4) ? 24 : 10));
        int held = 0;
        auto add = [&](int op, ll c, ll x = 0) { Step s; s.op = op; s.a[0] = t; s.a[1] = c; s.a[2] = x; if (faults && op == ENTER && r.chance(1, 6)) s.f = 1; if (burst && (op == ENTER || op == TRY || op == LEAVE) && r.chance(1, 5)) s.a[3] = r.chance(1, 3) ? burst : (ll)r.below((u64)burst); p.steps.push_back(s); };
        if (spawning && t == 0) for (int k = 1; k < n; ++k) add(SPAWN, k);
        for (int i = 0; i < len; ++i)
        {
            const ll c = (ll)r.below((u64)m);
            const u64 x = r.below(16);
            if (x < 4) { add(ENTER, c); ++held; if (r.chance(1, 2)) add(TOUCH, c, (ll)r.below(3)); }
            else if (x < 7) { add(TRY, c); ++held; if (r.chance(1, 2)) add(TOUCH, c, (ll)r.below(3)); }
            else if (x < 11) add(LEAVE, c);
            else if (x < 14) add(TOUCH, c, (ll)r.below(3));
            else if (x < 15) add(BADLEAVE, c);
            else add(PAUSE, 0);
        }
        (void)held;
    }
}

}   // namespace
extern const Scenario scen_cs;
const Scenario scen_cs = {"critical_sections", names, NOPS, gen, exec};
