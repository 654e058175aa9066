// Thread-local slots and thread identities under simulated threads.
#include "rt.hpp"
#include <Zycore/API/Thread.h>
#include <algorithm>
#include <utility>

namespace {

enum Op { SW, ALLOC, SET, GET, FREE, SPAWN, ID, PAUSE, NOPS };
const char* const names[NOPS] = { "switch", "tls_alloc", "tls_set", "tls_get", "tls_free", "spawn", "identity", "pause" };
const int MAXSLOT = 160;      // 5 in most runs
int nslot, vals;
struct SlotM { bool live; ZyanThreadTlsIndex index; bool dtor; int users; void* val[MAXT]; };
SlotM slot[MAXSLOT];
bool busy_alloc[MAXSLOT];
bool exiting[MAXT], gone[MAXT];
int nthr;
struct Ident { bool known; ZyanThread handle; ZyanThreadId id; } ident[MAXT];
std::vector<std::pair<int, Step>> prog[MAXT];
int freeing;      // free calls in progress: threads do not end meanwhile, whether their destructors run would be open
bool none_freeing(void*) { return !freeing; }

void called(int k, void* v)
{
    const int me = rt_self();
    cx.log("    thread %d: destructor of slot %d (%p)", me, k, v);
    cx.ev(0xD702 ^ (u64)k ^ (u64)v);
    if (me >= MAXT) { cx.fail_later(T_CONTENT, "a slot destructor runs outside of the ending thread"); return; }
    if (!exiting[me]) { cx.fail_later(T_CONTENT, "the destructor of slot %d runs while the thread is alive", k); return; }
    if (!slot[k].live) { cx.fail_later(T_CONTENT, "the destructor of freed slot %d runs", k); return; }
    if (!slot[k].dtor) { cx.fail_later(T_CONTENT, "slot %d has no destructor", k); return; }
    if (v != slot[k].val[me] || !v) { cx.fail_later(T_CONTENT, "the destructor of slot %d gets %p, the ending thread stored %p", k, v, slot[k].val[me]); return; }
    slot[k].val[me] = nullptr;
    probe("slot_destructor_ran");
}
template <int K> void dtor(void* v) { called(K, v); }
template <int... K> struct Dtors { void (*f[sizeof...(K)])(void*) = { dtor<K>... }; };
template <int... K> Dtors<K...> all_dtors(std::integer_sequence<int, K...>) { return {}; }
const auto dtors = all_dtors(std::make_integer_sequence<int, MAXSLOT>());
// what is stored: distinct for each thread and store
void* value(int me, u64 n)
{
    const u64 v = (u64)(me + 1) * 0x1000 + n;
    switch (vals)
    {
    case 1: return (void*)~v;                            // all upper bits set
    case 2: return (void*)(v << 48 | 0x7f0012340001ull); // differ in the topmost bits only
    case 3: return (void*)v;
    }
    return (void*)(0x10000 + v);
}

void at_exit(int me)
{
    for (int k = 0; k < nslot; ++k)
    {
        if (slot[k].live && slot[k].dtor && slot[k].val[me]) cx.fail(T_CONTENT, "thread %d ended, but the destructor of slot %d did not get its value", me, k);
        slot[k].val[me] = nullptr;
    }
    exiting[me] = false; gone[me] = true; ident[me].known = false;
}

void identity(int me)
{
    ZyanThread h{}; ZyanThreadId id{};
    cx.begin(0);
    const ZyanStatus s1 = ZyanThreadGetCurrentThread(&h), s2 = ZyanThreadGetCurrentThreadId(&id);
    cx.end();
    if (!ZYAN_SUCCESS(s1) || !ZYAN_SUCCESS(s2)) { cx.fail(T_STATUS, "the identity of thread %d is not available", me); return; }
    if (ident[me].known && memcmp(&ident[me].handle, &h, sizeof h)) cx.fail(T_CONTENT, "the handle of thread %d changed", me);
    if (ident[me].known && ident[me].id != id) cx.fail(T_CONTENT, "the id of thread %d changed", me);
    for (int u = 0; u < nthr; ++u)
        if (u != me && ident[u].known)
        {
            if (!memcmp(&ident[u].handle, &h, sizeof h)) cx.fail(T_CONTENT, "threads %d and %d have the same handle", u, me);
            if (ident[u].id == id) cx.fail(T_CONTENT, "threads %d and %d have the same id", u, me);
            probe("identities_compared");
        }
    ident[me].known = true; ident[me].handle = h; ident[me].id = id;
    cx.mutation();
}
void get(int me, int k)
{
    SlotM& s = slot[k];
    void* v = (void*)0x77;
    ++s.users;
    cx.begin(0);
    const ZyanStatus st = ZyanThreadTlsGetValue(s.index, &v);
    cx.end();
    --s.users;
    cx.ev(st ^ (u64)v << 32);
    cx.log("    thread %d: get %d -> %08x %p", me, k, st, v);
    if (!ZYAN_SUCCESS(st)) cx.fail(T_STATUS, "reading slot %d fails with %08x", k, st);
    else if (v != s.val[me]) cx.fail(T_CONTENT, "thread %d reads %p from slot %d, it stored %p", me, v, k, s.val[me]);
}
void body(int me)
{
    u64 n = 0;
    for (auto& ps : prog[me])
    {
        const Step& t = ps.second;
        cx.step = ps.first;
        rt_point();
        const int k = (int)((size_t)t.a[1] % (size_t)nslot);
        SlotM& s = slot[k];
        cx.log("#%d thread %d: %s %d", ps.first, me, names[t.op], k);
        sim_err_fault = (int)t.a[3];
        switch (t.op)
        {
        case ALLOC:
        {
            if (s.live || busy_alloc[k]) break;
            busy_alloc[k] = true;
            ZyanThreadTlsIndex idx = (ZyanThreadTlsIndex)0x5a5a;
            cx.begin(t.f);
            const ZyanStatus st = ZyanThreadTlsAlloc(&idx, t.a[2] & 1 ? dtors.f[k] : nullptr);
            const int fired = cx.end();
            busy_alloc[k] = false;
            cx.ev(st);
            cx.log("    thread %d: alloc %d -> %08x index %llu", me, k, st, (unsigned long long)idx);
            if (ZYAN_SUCCESS(st))
            {
                for (int o = 0; o < nslot; ++o) if (o != k && slot[o].live && slot[o].index == idx) { cx.fail(T_CONTENT, "slots %d and %d have the same index", o, k); throw Abandon(); }
                s.live = true; s.index = idx; s.dtor = t.a[2] & 1; s.users = 0;
                for (auto& v : s.val) v = nullptr;
                cx.mutation();
                get(me, k);
            } else if (!fired) cx.fail(T_STATUS, "allocating a slot fails with %08x", st);
            break;
        }
        case SET:
        {
            if (!s.live) break;
            void* v = t.a[2] % 5 == 0 ? nullptr : value(me, ++n);
            ++s.users;
            cx.begin(t.f);
            const ZyanStatus st = ZyanThreadTlsSetValue(s.index, v);
            const int fired = cx.end();
            --s.users;
            cx.ev(st);
            cx.log("    thread %d: set %d = %p -> %08x", me, k, v, st);
            if (ZYAN_SUCCESS(st)) { s.val[me] = v; cx.mutation(); }
            else if (!fired) cx.fail(T_STATUS, "storing into slot %d fails with %08x", k, st);
            break;
        }
        case GET: if (s.live) get(me, k); break;
        case FREE:
        {
            bool ex = false;
            for (bool e : exiting) ex |= e;
            if (!s.live || s.users || ex) break;
            s.live = false;                  // nobody may use it any more
            busy_alloc[k] = true; ++freeing;
            cx.begin(0);
            const ZyanStatus st = ZyanThreadTlsFree(s.index);
            cx.end();
            busy_alloc[k] = false; --freeing;
            cx.ev(st);
            if (!ZYAN_SUCCESS(st)) cx.fail(T_STATUS, "freeing slot %d fails with %08x", k, st);
            for (auto& v : s.val) v = nullptr;
            probe("slot_freed");
            break;
        }
        case SPAWN: rt_spawn((int)((size_t)t.a[1] % (size_t)nthr)); break;
        case ID: identity(me); break;
        case PAUSE: rt_yield(); break;
        }
    }
    rt_point();
    rt_wait(none_freeing, nullptr);
    exiting[me] = true;
}

void exec(const Plan& p)
{
    nthr = (int)std::min<ll>(MAXT, std::max<ll>(1, p.get("threads", 2)));
    sim_threads_reset((int)p.get("max_keys", 8), (int)p.get("reuse", 1));
    nslot = (int)std::min<ll>(MAXSLOT, std::max<ll>(1, p.get("slots", 5))); vals = (int)p.get("vals");
    freeing = 0; memset(slot, 0, sizeof slot); memset(busy_alloc, 0, sizeof busy_alloc); memset(exiting, 0, sizeof exiting); memset(gone, 0, sizeof gone); memset(ident, 0, sizeof ident);
    for (auto& v : prog) v.clear();
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& s = p.steps[k];
        if (s.op != SW) prog[(size_t)s.a[0] % (size_t)nthr].push_back({(int)k, s});
    }
    rt_at_exit = at_exit;
    const u32 st = (u32)p.get("start", 255) & ((1u << nthr) - 1);
    rt_run(p, nthr, st ? st : 1, body);
    cx.step = (int)p.steps.size();
    int live = 0;
    for (auto& s : slot) live += s.live;
    if (sim_keys_alive() != live) cx.fail(T_CONTENT, "%d slots exist in the system, %d are in use", sim_keys_alive(), live);
}

void gen(Rng& r, Plan& p)
{
    const bool ids = p.prop == "C23";
    const int n = (int)r.range(2, r.chance(1, 3) ? 6 : 4), m0 = (int)r.range(1, 5);
    const bool many = !ids && r.chance(1, 20);
    const int m = many ? (int)r.range(6, MAXSLOT) : m0;
    p.cfg["threads"] = n;
    p.cfg["max_keys"] = r.chance(1, 4) ? r.range(1, 3) : 8;
    p.cfg["reuse"] = r.chance(2, 3);
    if (many) { p.cfg["slots"] = m; p.cfg["max_keys"] = r.chance(1, 4) ? r.range(4, m) : MAXSLOT; p.cfg["large"] = 1; }
    p.cfg["vals"] = r.chance(1, 2) ? 0 : (ll)r.below(4);
    gen_sched(r, p);
    const bool spawning = r.chance(1, 2), faults = r.chance(1, 3);
    if (spawning) p.cfg["start"] = r.chance(1, 2) ? 1 : 3;
    const ll mara = many ? 0 : std::min<ll>(marathon(r), 8000);
    if (mara) p.cfg["large"] = 1;
    int allocs = 0;
    for (int t = 0; t < n; ++t)
    {
        auto add = [&](int op, ll a, ll b = 0) { Step s; s.op = op; s.a[0] = t; s.a[1] = a; s.a[2] = b; s.a[3] = (ll)r.below(3); if (faults && r.chance(1, 5)) s.f = 1; p.steps.push_back(s); };
        const int len = (int)(mara ? mara / 4 : r.range(2, r.chance(1, 4) ? 24 : 12));
        if (spawning && t == 0) for (int k = 1; k < n; ++k) { if (r.chance(1, 2)) add(ALLOC, (ll)r.below((u64)m), (ll)r.below(2)); if (r.chance(1, 2)) add(ids ? ID : SET, (ll)r.below((u64)m), 1); add(SPAWN, k); }
        for (int i = 0; i < (many ? len * 6 : len); ++i)
        {
            if (many && allocs < m && r.chance(2, 3)) { const ll k = allocs++; add(ALLOC, k, (ll)r.below(2)); if (r.chance(1, 2)) add(SET, k, (ll)r.below(100)); continue; }
            const ll k = (ll)r.below((u64)m);
            const u64 x = r.below(20);
            if (ids && r.chance(3, 4)) { add(r.chance(1, 8) ? PAUSE : ID, 0); continue; }
            if (x < 4) add(ALLOC, k, (ll)r.below(2));
            else if (x < 10) add(SET, k, (ll)r.below(100));
            else if (x < 15) add(GET, k);
            else if (x < 17) add(FREE, k);
            else if (x < 18) add(ID, 0);
            else if (x < 19) add(PAUSE, 0);
            else add(SPAWN, (ll)r.below((u64)n));
        }
    }
}

}   // namespace
extern const Scenario scen_tls;
const Scenario scen_tls = {"thread_local", names, NOPS, gen, exec};
