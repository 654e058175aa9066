// What a thread wrote before an atomic operation is seen by every thread that sees the operation's effect: threads pass plain
// data to each other by the usual protocols (reference counts, locks, messages, ...), with nothing but the library's atomic
// operations between them. The plain data is checked for its values and by the happens-before race detection.
#include "rt.hpp"
#include <algorithm>

extern "C"
{
u32 at_inc32(void*); u32 at_dec32(void*); u32 at_cas32(void*, u32, u32); u64 at_inc64(void*); u64 at_dec64(void*); u64 at_cas64(void*, u64, u64);
u64 at_incp(void*); u64 at_decp(void*); u64 at_casp(void*, u64, u64);
u32 am_inc32(void*); u32 am_dec32(void*); u32 am_cas32(void*, u32, u32); u64 am_inc64(void*); u64 am_dec64(void*); u64 am_cas64(void*, u64, u64);
u64 am_incp(void*); u64 am_decp(void*); u64 am_casp(void*, u64, u64);
}
namespace {

enum Op { SW, REF_WORK, REF_GET, REF_PUT, LOCK, TICKET, SEND, RECEIVE, ONCE, ARRIVE, BOX_PUT, BOX_TAKE, PUSH, TAKE_ALL, NOPS };
const char* const names[NOPS] = { "switch", "reference_work", "reference_get", "reference_put", "spin_lock", "ticket_lock", "message_send", "message_receive",
    "once", "barrier", "box_put", "box_take", "stack_push", "stack_take_all" };
enum Cells { C_REF, C_LOCK, C_NEXT, C_SERVING, C_TAIL, C_READY, C_ONCE = C_READY + 8, C_ARRIVED = C_ONCE + 2, C_BOX = C_ARRIVED + 8, C_HEAD = C_BOX + 2, NCELLS };
const int kind_of[] = { 0, 1, 2, 2, 3, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 6, 6, 6, 6, 6, 6, 6, 6, 7, 7, 8 };
static_assert(sizeof kind_of / sizeof *kind_of == NCELLS, "");
const u64 DEAD = 0xdeadull;
struct Node { u64 next, val, sum; };
struct Shared
{
    union { u32 w32[2]; u64 w64; } c[NCELLS];
    u64 refdata[MAXT], count[2], msg[8][2], bar[8][MAXT], box[2][2];
    Node once[2][MAXT], node[MAXT][8];
};
Shared* S;
u64 widths; int half;
std::vector<std::pair<int, Step>> prog[MAXT];
int nthr, holds[MAXT], finals, rounds[MAXT], nodes[MAXT], taken[MAXT][8];
u64 want[MAXT], locked[2], boxwant[2], once_winner[2]; bool tried[MAXT][2];
int barrier_down;

int width(int c) { u64 w = widths; for (int i = 0; i < kind_of[c]; ++i) w /= 3; return (int)(w % 3); }
void* addr(int c) { return width(c) ? (void*)&S->c[c].w64 : (void*)&S->c[c].w32[half]; }
u64 raw(int c) { return width(c) ? S->c[c].w64 : S->c[c].w32[half]; }
void set(int c, u64 v) { if (width(c)) S->c[c].w64 = v; else S->c[c].w32[half] = (u32)v; }
bool mac;
u64 inc(int c)
{
    void* p = addr(c); u64 r;
    switch (width(c)) { case 0: r = mac ? am_inc32(p) : at_inc32(p); break; case 1: r = mac ? am_inc64(p) : at_inc64(p); break; default: r = mac ? am_incp(p) : at_incp(p); }
    cx.ev(r); return r;
}
u64 dec(int c)
{
    void* p = addr(c); u64 r;
    switch (width(c)) { case 0: r = mac ? am_dec32(p) : at_dec32(p); break; case 1: r = mac ? am_dec64(p) : at_dec64(p); break; default: r = mac ? am_decp(p) : at_decp(p); }
    cx.ev(r); return r;
}
u64 cas(int c, u64 x, u64 v)
{
    void* p = addr(c); u64 r;
    switch (width(c)) { case 0: r = mac ? am_cas32(p, (u32)x, (u32)v) : at_cas32(p, (u32)x, (u32)v); break; case 1: r = mac ? am_cas64(p, x, v) : at_cas64(p, x, v); break; default: r = mac ? am_casp(p, x, v) : at_casp(p, x, v); }
    cx.ev(r); return r;
}
u64 load(int c, ll how) { const u64 x = how % 3 == 0 ? 0x77777777 : how % 3 == 1 ? 0 : 1; return cas(c, x, x); }   // a compare-exchange that changes nothing
void expect(u64 is, u64 should, const char* what)
{
    cx.ev(is);
    if (is != should) cx.fail(T_CONTENT, "%s: %llx instead of %llx", what, (unsigned long long)is, (unsigned long long)should);
}
u64 val(int me, u64 i) { return mix64((u64)me * 1000 + i) | 1; }

void put_reference(int me)
{
    const u64 r = dec(C_REF);
    --holds[me];
    if (r) return;
    probe("last_reference");
    if (++finals > 1) cx.fail(T_CONTENT, "two threads get the last reference");
    for (int u = 0; u < nthr; ++u)
    {
        expect(sh_read(&S->refdata[u]), want[u], "the owner of the last reference reads what another owner wrote");
        sh_write(&S->refdata[u], DEAD);
    }
}
u64 node_id(int c, Node* n, int me, int i) { return width(c) == 2 ? (u64)n : (u64)(me * 8 + i + 1); }
Node* node_at(int c, u64 id) { if (width(c) == 2) return (Node*)id; return &S->node[(id - 1) / 8 % MAXT][(id - 1) % 8]; }
void check_node(Node* n, bool plain)
{
    const u64 v = plain ? n->val : sh_read(&n->val), s = plain ? n->sum : sh_read(&n->sum);
    const size_t at = (size_t)(n - &S->node[0][0]);
    if (at >= MAXT * 8) cx.fail(T_CONTENT, "the stack holds what was never pushed");
    const int m = (int)(at / 8), i = (int)(at % 8);
    expect(v, val(m, 500 + (u64)i), "data of a node taken from the stack"); expect(s, ~v, "data of a node taken from the stack");
    if (++taken[m][i] > 1) cx.fail(T_CONTENT, "a node is taken from the stack twice");
}

void one(int me, const Step& t, int step)
{
    const ll a = t.a[1], b = t.a[2];
    mac = t.a[3] & 1;
    switch (t.op)
    {
    case REF_WORK: if (holds[me]) { const u64 v = val(me, 100 + (u64)step); sh_write(&S->refdata[me], v); want[me] = v; } break;
    case REF_GET: if (holds[me] && holds[me] < 4) { const u64 r = inc(C_REF); ++holds[me]; if (r < 2) cx.fail(T_CONTENT, "a reference count is %llu after an owner took another reference", (unsigned long long)r); } break;
    case REF_PUT: if (holds[me]) put_reference(me); break;
    case LOCK:
    {
        int spins = 0;
        while (cas(C_LOCK, 0, 1) != 0) { ++spins; rt_yield(); }
        if (spins) probe("spun");
        const u64 v = sh_read(&S->count[0]); rt_point(); sh_write(&S->count[0], v + 1); ++locked[0];
        mac = t.a[3] >> 1 & 1;
        if (b & 1) expect(cas(C_LOCK, 1, 0), 1, "state of the spin lock when its owner releases it"); else expect(dec(C_LOCK), 0, "state of the spin lock after its owner released it");
        break;
    }
    case TICKET:
    {
        const u64 m = inc(C_NEXT) - 1;
        while (load(C_SERVING, a) != m) rt_yield();
        const u64 v = sh_read(&S->count[1]); rt_point(); sh_write(&S->count[1], v + 1); ++locked[1];
        mac = t.a[3] >> 1 & 1;
        if (b & 1) expect(cas(C_SERVING, m, m + 1), m, "number being served while its holder is at work"); else expect(inc(C_SERVING), m + 1, "number being served after its holder is done");
        break;
    }
    case SEND:
    {
        const u64 slot = inc(C_TAIL) - 1;
        if (slot >= 8) break;
        sh_write(&S->msg[slot][0], val((int)slot, 7)); sh_write(&S->msg[slot][1], ~val((int)slot, 7));
        mac = t.a[3] >> 1 & 1;
        switch (b % 3)
        {
        case 0: expect(inc(C_READY + (int)slot), 2, "flag of a message"); break;
        case 1: expect(dec(C_READY + (int)slot), 0, "flag of a message"); break;
        default: expect(cas(C_READY + (int)slot, 1, 3), 1, "flag of a message"); break;
        }
        break;
    }
    case RECEIVE:
    {
        const int slot = (int)(a % 4);
        u64 r = load(C_READY + slot, b);
        for (int i = 0; r == 1 && i < b % 5; ++i) { rt_yield(); r = load(C_READY + slot, b); }
        if (r == 1) break;
        probe("message_received");
        expect(sh_read(&S->msg[slot][0]), val(slot, 7), "contents of a received message"); expect(sh_read(&S->msg[slot][1]), ~val(slot, 7), "contents of a received message");
        break;
    }
    case ONCE:
    {
        const int k = (int)(a & 1);
        Node* mine = &S->once[k][me];
        u64 r;
        if (!tried[me][k])
        {
            tried[me][k] = true;
            sh_write(&mine->val, val(me, 900 + (u64)k)); sh_write(&mine->sum, ~val(me, 900 + (u64)k));
            const u64 id = width(C_ONCE) == 2 ? (u64)mine : (u64)me + 1;
            r = cas(C_ONCE + k, 0, id);
            if (!r) { r = id; probe("installed"); } else probe("came_second");
        }
        else r = load(C_ONCE + k, b % 2 ? 0 : 1);
        if (!once_winner[k]) once_winner[k] = r;
        expect(r, once_winner[k], "the object that was installed once");
        Node* n = width(C_ONCE) == 2 ? (Node*)r : &S->once[k][(r - 1) % MAXT];
        const int m = (int)(n - &S->once[k][0]);
        expect(sh_read(&n->val), val(m, 900 + (u64)k), "contents of the object that was installed once"); expect(sh_read(&n->sum), ~val(m, 900 + (u64)k), "contents of the object that was installed once");
        break;
    }
    case ARRIVE:
    {
        const int r = rounds[me]++;
        if (r >= 8) break;
        u64 need = 0;
        for (int u = 0; u < nthr; ++u) { int n = 0; for (auto& ps : prog[u]) n += ps.second.op == ARRIVE; need += n > r; }
        sh_write(&S->bar[r][me], val(me, 300 + (u64)r));
        const u64 n = barrier_down ? need - (0x100 - dec(C_ARRIVED + r)) : need - inc(C_ARRIVED + r);   // how many are missing
        if (n && !(b & 1)) break;
        if (n) for (;;) { const u64 now = load(C_ARRIVED + r, 0); if ((barrier_down ? 0x100 - now : now) == need) break; rt_yield(); }
        else probe("last_to_arrive");
        for (int u = 0; u < nthr; ++u)
        {
            int k = 0; for (auto& ps : prog[u]) k += ps.second.op == ARRIVE;
            if (k > r) expect(sh_read(&S->bar[r][u]), val(u, 300 + (u64)r), "what another thread wrote before the barrier");
        }
        break;
    }
    case BOX_PUT:
    {
        const int k = (int)(a & 1);
        if (cas(C_BOX + k, 0, 1) != 0) break;
        const u64 v = val(me, 2000 + (u64)step);
        sh_write(&S->box[k][0], v); sh_write(&S->box[k][1], ~v); boxwant[k] = v;
        mac = t.a[3] >> 1 & 1;
        if (b & 1) expect(cas(C_BOX + k, 1, 2), 1, "state of the box while it is being filled"); else expect(inc(C_BOX + k), 2, "state of the box after it was filled");
        break;
    }
    case BOX_TAKE:
    {
        const int k = (int)(a & 1);
        if (cas(C_BOX + k, 2, 1) != 2) break;
        probe("box_taken");
        const u64 v = sh_read(&S->box[k][0]);
        expect(v, boxwant[k], "contents of the box"); expect(sh_read(&S->box[k][1]), ~v, "contents of the box");
        sh_write(&S->box[k][0], DEAD);
        mac = t.a[3] >> 1 & 1;
        if (b & 1) expect(cas(C_BOX + k, 1, 0), 1, "state of the box while it is being emptied"); else expect(dec(C_BOX + k), 0, "state of the box after it was emptied");
        break;
    }
    case PUSH:
    {
        const int i = nodes[me];
        if (i >= 8) break;
        ++nodes[me];
        Node* n = &S->node[me][i];
        sh_write(&n->val, val(me, 500 + (u64)i)); sh_write(&n->sum, ~val(me, 500 + (u64)i));
        u64 h = load(C_HEAD, a);
        for (;;)
        {
            sh_write(&n->next, h);
            const u64 r = cas(C_HEAD, h, node_id(C_HEAD, n, me, i));
            if (r == h) break;
            h = r;
        }
        break;
    }
    case TAKE_ALL:
    {
        u64 h = load(C_HEAD, 0);
        for (;;) { const u64 r = cas(C_HEAD, h, 0); if (r == h) break; h = r; }
        if (h) probe("stack_taken");
        for (int i = 0; h && i < 100; ++i) { Node* n = node_at(C_HEAD, h); check_node(n, false); h = sh_read(&n->next); }
        break;
    }
    }
    cx.mutation();
}
void body(int me)
{
    for (auto& ps : prog[me])
    {
        cx.step = ps.first;
        rt_point();
        cx.log("#%d thread %d: %s %lld %lld %lld", ps.first, me, names[ps.second.op], ps.second.a[1], ps.second.a[2], ps.second.a[3]);
        cx.begin(ps.second.f);
        one(me, ps.second, ps.first);
        cx.end();
    }
    cx.begin(0);
    mac = false;
    while (holds[me]) put_reference(me);
    cx.end();
}

void exec(const Plan& p)
{
    nthr = (int)std::min<ll>(MAXT, std::max<ll>(1, p.get("threads", 2)));
    sim_threads_reset(8, 1);
    for (auto& v : prog) v.clear();
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& s = p.steps[k];
        if (s.op != SW) prog[(size_t)s.a[0] % (size_t)nthr].push_back({(int)k, s});
    }
    widths = (u64)p.get("widths"); half = (int)(p.get("half") & 1); barrier_down = (int)(p.get("down") & 1);
    S = (Shared*)sim_buffer(sizeof(Shared));
    memset(S, 0, sizeof *S);
    finals = 0; memset(rounds, 0, sizeof rounds); memset(nodes, 0, sizeof nodes); memset(taken, 0, sizeof taken); memset(want, 0, sizeof want);
    memset(locked, 0, sizeof locked); memset(boxwant, 0, sizeof boxwant); memset(once_winner, 0, sizeof once_winner); memset(tried, 0, sizeof tried);
    for (int i = 0; i < MAXT; ++i) holds[i] = i < nthr;
    set(C_REF, (u64)nthr);
    for (int i = 0; i < 8; ++i) { set(C_READY + i, 1); set(C_ARRIVED + i, barrier_down ? 0x100 : 0); }
    rt_run(p, nthr, (1u << nthr) - 1, body);
    cx.step = (int)p.steps.size();
    if (finals != 1) cx.fail(T_CONTENT, "nobody gets the last reference");
    expect(raw(C_REF), 0, "reference count at the end");
    for (int k = 0; k < 2; ++k) expect(S->count[k], locked[k], k ? "changes made under the ticket lock" : "changes made under the spin lock");
    u64 h = raw(C_HEAD);
    for (int i = 0; h && i < 100; ++i) { Node* n = node_at(C_HEAD, h); check_node(n, true); h = n->next; }
    for (int m = 0; m < nthr; ++m) for (int i = 0; i < nodes[m]; ++i) if (taken[m][i] != 1) cx.fail(T_CONTENT, "a node pushed by thread %d is lost", m);
}

void gen(Rng& r, Plan& p)
{
    const int n = (int)r.range(2, r.chance(1, 3) ? 5 : 3);
    p.cfg["threads"] = n;
    p.cfg["widths"] = (ll)r.below(19683); p.cfg["half"] = (ll)r.below(2); p.cfg["down"] = (ll)r.below(2);
    gen_sched(r, p);
    static const int grp[][3] = { {REF_WORK, REF_GET, REF_PUT}, {LOCK, LOCK, LOCK}, {TICKET, TICKET, TICKET}, {SEND, RECEIVE, RECEIVE}, {ONCE, ONCE, ONCE}, {ARRIVE, ARRIVE, ARRIVE}, {BOX_PUT, BOX_TAKE, BOX_TAKE}, {PUSH, PUSH, TAKE_ALL} };
    const int g = (int)r.below(8);
    const bool mixed = r.chance(1, 4);
    for (int t = 0; t < n; ++t)
    {
        const int len = (int)r.range(1, r.chance(1, 3) ? 8 : 4);
        for (int i = 0; i < len; ++i)
        {
            Step s; s.op = grp[mixed ? r.below(8) : (u64)g][r.below(3)]; s.a[0] = t; s.a[1] = (ll)r.below(120); s.a[2] = (ll)r.below(120); s.a[3] = (ll)r.below(4);
            s.f = r.chance(1, 4) ? (u32)r.below(8) : 0;
            p.steps.push_back(s);
        }
    }
}

}   // namespace
extern const Scenario scen_pub;
const Scenario scen_pub = {"publication", names, NOPS, gen, exec};
