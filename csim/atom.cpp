// Atomic operations: recorded concurrent histories, checked for linearizability.
#include "rt.hpp"
#include <algorithm>
#include <set>

extern "C"
{
u32 at_inc32(void*); u32 at_dec32(void*); u32 at_cas32(void*, u32, u32); u64 at_inc64(void*); u64 at_dec64(void*); u64 at_cas64(void*, u64, u64);
u64 at_incp(void*); u64 at_decp(void*); u64 at_casp(void*, u64, u64);
u32 am_inc32(void*); u32 am_dec32(void*); u32 am_cas32(void*, u32, u32); u64 am_inc64(void*); u64 am_dec64(void*); u64 am_cas64(void*, u64, u64);
u64 am_incp(void*); u64 am_decp(void*); u64 am_casp(void*, u64, u64);
// the implementation for another compiler, if it can be built
#define W __attribute__((weak))
W u32 mt_inc32(void*); W u32 mt_dec32(void*); W u32 mt_cas32(void*, u32, u32); W u64 mt_inc64(void*); W u64 mt_dec64(void*); W u64 mt_cas64(void*, u64, u64);
W u64 mt_incp(void*); W u64 mt_decp(void*); W u64 mt_casp(void*, u64, u64);
#undef W
}
namespace {

enum Op { SW, INC, DEC, CAS, NOPS };
const char* const names[NOPS] = { "switch", "increment", "decrement", "compare_exchange" };
const int MAXCELL = 2;
const u64 GUARD = 0x5AFEC0DE5AFEC0DEull;
struct Memory { u64 g0; union { u32 w32[2]; u64 w64; } c[MAXCELL]; u64 g1; };
Memory* mem_;
int width[MAXCELL];      // 0: 32 bit, 1: 64 bit, 2: pointer
int half[MAXCELL];       // 32 bit: which half of the word is used
u64 init[MAXCELL];
bool msvc;
struct Ev { int tid, op, cell; u64 c, v, res; u64 from, to; int step; };
std::vector<Ev> hist;
u64 stamp;
u64 seen[MAXT][MAXCELL];
std::vector<std::pair<int, Step>> prog[MAXT];
u64 mask(int c) { return width[c] ? ~0ull : 0xffffffffull; }
const u64 EDGE[] = { 0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000ull, 0x1ffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~1ull, ~0ull, 0xdeadbeef00000000ull };
const int NEDGE = sizeof EDGE / sizeof *EDGE;

void body(int me)
{
    for (auto& ps : prog[me])
    {
        const Step& t = ps.second;
        cx.step = ps.first;
        const int c = (int)((size_t)t.a[1] % MAXCELL);
        rt_point();
        Ev e; e.tid = me; e.op = t.op; e.cell = c; e.step = ps.first; e.c = e.v = 0;
        if (t.op == CAS)
        {
            switch (t.a[2] % 4)
            {
            case 0: case 1: e.c = seen[me][c]; break;
            case 2: e.c = EDGE[(size_t)(t.a[2] / 4) % NEDGE]; break;
            default: e.c = seen[me][c] ^ (1ull << ((t.a[2] / 4) % 64)); break;
            }
            e.v = t.a[3] % 2 ? EDGE[(size_t)(t.a[3] / 2) % NEDGE] : seen[me][c] + (u64)(t.a[3] / 2 % 5) - 2;
            e.c &= mask(c); e.v &= mask(c);
        }
        const bool mac = t.a[4] & 1;
        void* p = width[c] ? (void*)&mem_->c[c].w64 : (void*)&mem_->c[c].w32[half[c]];
        cx.begin(t.f);
        e.from = ++stamp;
        u64 r = 0;
        if (msvc) switch (t.op * 3 + width[c])
        {
        case INC * 3: r = mt_inc32(p); break;
        case INC * 3 + 1: r = mt_inc64(p); break;
        case INC * 3 + 2: r = mt_incp(p); break;
        case DEC * 3: r = mt_dec32(p); break;
        case DEC * 3 + 1: r = mt_dec64(p); break;
        case DEC * 3 + 2: r = mt_decp(p); break;
        case CAS * 3: r = mt_cas32(p, (u32)e.c, (u32)e.v); break;
        case CAS * 3 + 1: r = mt_cas64(p, e.c, e.v); break;
        case CAS * 3 + 2: r = mt_casp(p, e.c, e.v); break;
        }
        else switch (t.op * 3 + width[c])
        {
        case INC * 3: r = mac ? am_inc32(p) : at_inc32(p); break;
        case INC * 3 + 1: r = mac ? am_inc64(p) : at_inc64(p); break;
        case INC * 3 + 2: r = mac ? am_incp(p) : at_incp(p); break;
        case DEC * 3: r = mac ? am_dec32(p) : at_dec32(p); break;
        case DEC * 3 + 1: r = mac ? am_dec64(p) : at_dec64(p); break;
        case DEC * 3 + 2: r = mac ? am_decp(p) : at_decp(p); break;
        case CAS * 3: r = mac ? am_cas32(p, (u32)e.c, (u32)e.v) : at_cas32(p, (u32)e.c, (u32)e.v); break;
        case CAS * 3 + 1: r = mac ? am_cas64(p, e.c, e.v) : at_cas64(p, e.c, e.v); break;
        case CAS * 3 + 2: r = mac ? am_casp(p, e.c, e.v) : at_casp(p, e.c, e.v); break;
        }
        e.to = ++stamp;
        cx.end();
        e.res = r;
        seen[me][c] = t.op == CAS && r == e.c ? e.v : r;
        if (t.op == CAS) probe(r == e.c ? "compare_exchange_stored" : "compare_exchange_refused");
        cx.ev(r); cx.mutation();
        cx.log("    thread %d: %s%s cell %d (%llx, %llx) -> %llx", me, names[t.op], mac ? " (macro)" : "", c, (unsigned long long)e.c, (unsigned long long)e.v, (unsigned long long)r);
        hist.push_back(e);
    }
}

// Is there an order of the operations, consistent with real time, that explains all results and the final value?
struct Lin
{
    std::vector<Ev> h; u64 fin, m; std::set<std::pair<u32, u64>> seen; u32 best = 0;
    bool go(u32 done, u64 val)
    {
        if (done == (1u << h.size()) - 1) return val == fin;
        if (!seen.insert({done, val}).second) return false;
        u64 first_to = ~0ull;
        for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) first_to = std::min(first_to, h[i].to);
        for (size_t i = 0; i < h.size(); ++i)
        {
            if (done >> i & 1 || h[i].from > first_to) continue;
            u64 nv = val; bool ok;
            switch (h[i].op)
            {
            case INC: nv = (val + 1) & m; ok = h[i].res == nv; break;
            case DEC: nv = (val - 1) & m; ok = h[i].res == nv; break;
            default: ok = h[i].res == val; if (val == h[i].c) nv = h[i].v; break;
            }
            if (ok && go(done | 1u << i, nv)) return true;
        }
        return false;
    }
};

void exec(const Plan& p)
{
    const int n = (int)std::min<ll>(MAXT, std::max<ll>(1, p.get("threads", 2)));
    sim_threads_reset(8, 1);
    hist.clear(); stamp = 0;
    msvc = p.get("msvc") && mt_inc32;
    if (msvc) probe("microsoft_compiler_atomics");
    for (auto& v : prog) v.clear();
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& s = p.steps[k];
        if (s.op != SW && hist.size() + prog[(size_t)s.a[0] % (size_t)n].size() < 24) prog[(size_t)s.a[0] % (size_t)n].push_back({(int)k, s});
    }
    mem_ = (Memory*)sim_buffer(sizeof(Memory));
    mem_->g0 = mem_->g1 = GUARD;
    for (int c = 0; c < MAXCELL; ++c)
    {
        width[c] = (int)(p.get(c ? "width1" : "width0") % 3);
        half[c] = (int)(p.get("half") & 1);
        init[c] = EDGE[(size_t)p.get(c ? "init1" : "init0") % NEDGE] & mask(c);
        if (width[c]) mem_->c[c].w64 = init[c];
        else { mem_->c[c].w32[0] = mem_->c[c].w32[1] = (u32)GUARD; mem_->c[c].w32[half[c]] = (u32)init[c]; }
        for (int t = 0; t < MAXT; ++t) seen[t][c] = init[c];
    }
    rt_run(p, n, (1u << n) - 1, body);
    cx.step = (int)p.steps.size();
    if (mem_->g0 != GUARD || mem_->g1 != GUARD) cx.fail(T_CONTENT, "memory next to an atomic value changed");
    for (int c = 0; c < MAXCELL; ++c)
    {
        if (!width[c] && mem_->c[c].w32[1 - half[c]] != (u32)GUARD) cx.fail(T_CONTENT, "memory next to a 32-bit atomic value changed");
        const u64 fin = width[c] ? mem_->c[c].w64 : mem_->c[c].w32[half[c]];
        Lin l; l.fin = fin; l.m = mask(c);
        for (auto& e : hist) if (e.cell == c) l.h.push_back(e);
        cx.ev(fin);
        if (l.h.size() > 24) continue;
        if (!l.go(0, init[c])) cx.fail(T_CONTENT, "no order of the %zu operations on %s value %d explains their results and the final value %llx", l.h.size(), width[c] == 0 ? "32-bit" : width[c] == 1 ? "64-bit" : "pointer-sized", c, (unsigned long long)fin);
        size_t over = 0;
        for (auto& a : l.h) for (auto& b : l.h) over += a.from < b.from && b.from < a.to;
        if (over) probe("overlapping_operations");
    }
}

void gen(Rng& r, Plan& p)
{
    const int n = (int)r.range(2, r.chance(1, 3) ? 4 : 3);
    p.cfg["threads"] = n;
    p.cfg["width0"] = (ll)r.below(3); p.cfg["width1"] = (ll)r.below(3); p.cfg["half"] = (ll)r.below(2);
    p.cfg["init0"] = (ll)r.below(NEDGE); p.cfg["init1"] = (ll)r.below(NEDGE);
    p.cfg["msvc"] = r.chance(1, 6);
    gen_sched(r, p);
    const int cells = (int)r.pick({1, 1, 2});
    const int per = (int)r.range(1, n == 2 ? 6 : 4);
    const int kind = (int)r.below(4);
    for (int t = 0; t < n; ++t)
        for (int i = 0; i < per; ++i)
        {
            Step s; s.op = kind == 0 ? r.pick({INC, DEC}) : kind == 1 ? (int)CAS : r.pick({INC, DEC, CAS, CAS});
            s.a[0] = t; s.a[1] = (ll)r.below((u64)cells); s.a[2] = (ll)r.below(400); s.a[3] = (ll)r.below(400); s.a[4] = (ll)r.below(2);
            s.f = r.chance(1, 3) ? (u32)r.below(8) : 0;
            p.steps.push_back(s);
        }
}

}   // namespace
extern const Scenario scen_atom;
const Scenario scen_atom = {"atomics", names, NOPS, gen, exec};
