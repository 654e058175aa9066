// Bitsets: histories of operations under allocation faults, against a sequence of booleans.
#include "core.hpp"
#include <Zycore/Bitset.h>
#include <algorithm>

namespace {

enum Op { INIT, DESTROY, SET, RESET, ASSIGN, TOGGLE, TEST, SETALL, RESETALL, FLIP, LOGIC, PUSH, PUSHN, POP, POPN, CLEAR, RESERVE, SHRINK, NOPS };
const char* const names[NOPS] = {
    "init", "destroy", "set", "reset", "assign", "toggle", "test", "set_all", "reset_all", "flip", "logic", "push",
    "push_burst", "pop", "pop_burst", "clear", "reserve", "shrink_to_fit" };

enum Kind { K_SIM, K_DEFAULT, K_BUFFER };
struct Slot
{
    bool live = false;
    ZyanBitset b;
    int kind = K_SIM, gf = 2, thr = 2;
    size_t bufcap = 0;
    std::string m;      // '0'/'1'
    SimAlloc al;
};
const int MAXSLOT = 2;
Slot g[MAXSLOT];
size_t g_limit;     // bits
const size_t MAXSZ = ~(size_t)0, MEM = 16u << 20;
size_t bytes_of(size_t bits) { return bits / 8 + (bits % 8 != 0); }
bool absurd(size_t bytes) { return bytes > MEM; }
ZyanStatus oom(const Slot& s) { return s.kind == K_DEFAULT ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : cx.fault_status; }

size_t index_arg(ll c, size_t n)
{
    if (c >= 0) return n ? (size_t)c % n : 0;
    switch (c)
    {
    case -1: return MAXSZ;
    case -2: return n;
    case -3: return n + 1;
    case -4: return (n | 7) + 1;
    case -5: return n | 7;
    case -6: return MAXSZ / 2 + 1;
    // values that a narrower type would cut off
    case -7: return (1ull << 32) + n / 2;
    case -8: return (1ull << 35) + n / 2;
    case -9: return n + 0x10000;
    default: return n + 0x800;
    }
}
size_t size_arg(ll c)
{
    if (c >= 0) return (size_t)c;
    switch (c)
    {
    case -1: return MAXSZ;
    case -2: return MAXSZ - 7;
    case -3: return MAXSZ / 2 + 1;
    case -4: return MEM * 8 + 8;
    case -5: return MAXSZ / 8 + 2;
    case -6: return (1ull << 32) + 9;
    case -7: return (1ull << 35) + 9;
    default: return 1ull << 63;
    }
}
ZyanStatus op_andnot(ZyanU8* a, const ZyanU8* b) { *a = (ZyanU8)(*a & ~*b); return ZYAN_STATUS_SUCCESS; }
ZyanStatus op_nor(ZyanU8* a, const ZyanU8* b) { *a = (ZyanU8)~(*a | *b); return ZYAN_STATUS_SUCCESS; }

bool sane(const Slot& s)
{
    int ow; size_t gr;
    const ZyanVector& v = s.b.bits;
    if (v.size > v.capacity || !v.data || s.b.size > v.size * 8) return false;
    if (s.kind == K_BUFFER) return v.size <= s.bufcap;
    return sa_block(v.data, &ow, &gr) && v.size <= gr;
}
void verify(Slot& s, int tag, const char* when)
{
    if (!s.live) return;
    const size_t n = s.m.size();
    ZyanUSize sz = 0, sb = 0, cb = 0, cap = 0, cnt = 777777;
    if (!ZYAN_SUCCESS(ZyanBitsetGetSize(&s.b, &sz)) || !ZYAN_SUCCESS(ZyanBitsetGetSizeBytes(&s.b, &sb)) || !ZYAN_SUCCESS(ZyanBitsetGetCapacityBytes(&s.b, &cb)) ||
        !ZYAN_SUCCESS(ZyanBitsetGetCapacity(&s.b, &cap))) cx.fail(T_STATUS, "%s: the size is not available", when);
    if (cb < sb) { cx.fail(T_CAP, "%s: capacity %zu bytes is less than the size %zu", when, (size_t)cb, (size_t)sb); if (!sane(s)) throw Abandon(); }
    if (cap != cb * 8) cx.fail(T_CAP, "%s: capacity is %zu bits and %zu bytes", when, (size_t)cap, (size_t)cb);
    if (s.kind == K_BUFFER)
    {
        if (cb != s.bufcap) cx.fail(T_BUFFER, "%s: capacity %zu, the buffer has %zu bytes", when, (size_t)cb, s.bufcap);
        if (sb > s.bufcap) throw Abandon();
    } else
    {
        int ow; size_t gr;
        if (!sa_block(s.b.bits.data, &ow, &gr)) { cx.fail(T_ALLOC, "%s: the bitset uses memory it does not own", when); throw Abandon(); }
        if (ow != (s.kind == K_SIM ? s.al.id : HEAP_OWNER)) cx.fail(T_ALLOC, "%s: the bitset uses memory of another allocator", when);
        if (cb > gr) cx.fail(T_ALLOC, "%s: capacity of %zu bytes, but only %zu were allocated", when, (size_t)cb, gr);
        if (cb != gr) cx.fail(T_CAP, "%s: reported capacity of %zu bytes, %zu were granted", when, (size_t)cb, gr);
        if (sb > gr) throw Abandon();
    }
    if (sz != n) { cx.fail(tag, "%s: size is %zu, expected %zu", when, (size_t)sz, n); return; }
    if (sb != bytes_of(n)) { cx.fail(tag, "%s: %zu bits take %zu bytes", when, n, (size_t)sb); if (!sane(s)) throw Abandon(); }
    size_t ones = 0;
    ZyanBitset* b = &s.b;
    for (size_t i = 0; i < n; ++i)
    {
        const ZyanStatus st = ZyanBitsetTest(b, i), want = s.m[i] == '1' ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE;
        ones += s.m[i] == '1';
        if (st != want) { cx.fail(tag, "%s: bit %zu of %zu tests as %08x, expected %c", when, i, n, st, s.m[i]); return; }
    }
    for (size_t i : {n, n + 1, (n | 7) + 1})
        if (ZyanBitsetTest(b, i) != ZYAN_STATUS_OUT_OF_RANGE) cx.fail(T_STATUS, "%s: testing bit %zu of %zu is not refused", when, i, n);
    if (!ZYAN_SUCCESS(ZyanBitsetCount(b, &cnt)) || cnt != ones) cx.fail(tag, "%s: population count of %zu bits is %zu, expected %zu", when, n, (size_t)cnt, ones);
    const ZyanStatus all = ZyanBitsetAll(b), any = ZyanBitsetAny(b), none = ZyanBitsetNone(b);
    if (all != (ones == n ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE)) cx.fail(tag, "%s: %zu of %zu bits set, all answers %08x", when, ones, n, all);
    if (any != (ones ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE)) cx.fail(tag, "%s: %zu of %zu bits set, any answers %08x", when, ones, n, any);
    if (none != (!ones ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE)) cx.fail(tag, "%s: %zu of %zu bits set, none answers %08x", when, ones, n, none);
    const ZyanStatus msb = ZyanBitsetTestMSB(b), lsb = ZyanBitsetTestLSB(b);
    if (!n) { if (ZYAN_SUCCESS(msb) || ZYAN_SUCCESS(lsb)) cx.fail(T_STATUS, "%s: an empty bitset has a first/last bit", when); }
    else
    {
        if (msb != (s.m[n - 1] == '1' ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE)) cx.fail(tag, "%s: last bit tests as %08x", when, msb);
        if (lsb != (s.m[0] == '1' ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE)) cx.fail(tag, "%s: first bit tests as %08x", when, lsb);
    }
}
void resync(Slot& s)
{
    if (!s.live) return;
    if (!sane(s)) throw Abandon();
    s.m.clear();
    for (size_t i = 0; i < s.b.size; ++i) s.m.push_back(ZyanBitsetTest(&s.b, i) == ZYAN_STATUS_TRUE ? '1' : '0');
}
void leak_check(const char* when)
{
    int heap = 0;
    for (auto& s : g)
    {
        const int want = s.live && s.kind == K_SIM, got = sa_live(s.al.id);
        if (got != want) cx.fail(T_LEAK, "%s: %d blocks of the bitset's allocator are in use, expected %d", when, got, want);
        heap += s.live && s.kind == K_DEFAULT;
    }
    if (sa_live(HEAP_OWNER) != heap) cx.fail(T_LEAK, "%s: %d heap blocks are in use, expected %d", when, sa_live(HEAP_OWNER), heap);
}
void destroy(Slot& s)
{
    if (!s.live) return;
    const ZyanStatus st = ZyanBitsetDestroy(&s.b);
    s.live = false; s.m.clear();
    cx.ev(st);
    if (!ZYAN_SUCCESS(st)) cx.fail(T_REFUSE, "destroy failed with %08x", st);
}
struct Pre { size_t size, cap; const void* data; u64 req; };
Pre pre(const Slot& s) { return Pre{s.b.size, s.b.bits.capacity, s.b.bits.data, cx.requests}; }

bool judge(Slot& s, const char* what, ZyanStatus st, const Pre& b, size_t need, bool refuse, bool removal)
{
    const int fired = cx.end();
    const ZyanVector& v = s.b.bits;
    cx.ev(st);
    cx.log("    %s -> %08x (faults %d) size %zu->%zu cap %zu->%zu", what, st, fired, b.size, (size_t)s.b.size, b.cap, (size_t)v.capacity);
    const bool ok = ZYAN_SUCCESS(st);
    if (refuse)
    {
        cx.fault(F_OUT_OF_RANGE);
        if (ok) { cx.fail(T_STATUS, "%s accepted an index outside the bitset", what); resync(s); return false; }
        if (st != ZYAN_STATUS_OUT_OF_RANGE) cx.fail(T_STATUS, "%s refused with %08x", what, st);
    } else if (s.kind == K_BUFFER && need > s.bufcap)
    {
        cx.fault(F_BUFFER_FULL);
        if (ok) { cx.fail(T_BUFFER, "%s accepted %zu bytes in a buffer of %zu", what, need, s.bufcap); throw Abandon(); }
        if (st != ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE) cx.fail(T_BUFFER, "%s failed with %08x on a full buffer", what, st);
    } else if (absurd(need))
    {
        cx.fault(F_ABSURD_SIZE);
        if (ok) { cx.fail(T_ALLOC, "%s claims to have memory for %zu bytes", what, need); throw Abandon(); }
        if (st != oom(s)) cx.fail(T_REFUSE, "%s failed with %08x for want of memory, expected %08x", what, st, oom(s));
    } else if (!ok)
    {
        if (removal) cx.fail(T_REFUSE, "%s failed with %08x although it needs no memory", what, st);
        else if (!fired) cx.fail(T_REFUSE, "%s failed with %08x without a reason (size %zu, capacity %zu)", what, st, b.size, b.cap);
        else if (cx.starved(65536 + 4 * need * (size_t)std::max(s.gf, 2))) cx.fail(T_REFUSE, "%s used up %zu bytes of memory for %zu bytes", what, cx.room, need);
        else if (st != oom(s)) cx.fail(T_REFUSE, "%s failed with %08x for want of memory, expected %08x", what, st, oom(s));
    }
    if (s.kind == K_BUFFER && cx.requests != b.req) cx.fail(T_BUFFER, "%s allocated memory for a bitset on a fixed buffer", what);
    if (!removal && need <= b.cap)
    {
        if (cx.requests != b.req) cx.fail(T_CAP, "%s used the allocator although the capacity %zu suffices for %zu", what, b.cap, need);
        if (v.data != b.data) cx.fail(T_CAP, "%s moved the bits although the capacity %zu suffices for %zu", what, b.cap, need);
        if (v.capacity != b.cap) cx.fail(T_CAP, "%s changed the capacity %zu to %zu although it suffices", what, b.cap, (size_t)v.capacity);
    }
    if (s.thr == 0 && v.capacity < b.cap) cx.fail(T_CAP, "%s gave back capacity (%zu to %zu) although shrinking is disabled", what, b.cap, (size_t)v.capacity);
    if (!ok)
    {
        if (v.capacity != b.cap) cx.fail(T_ATOMIC, "failed %s changed the capacity from %zu to %zu", what, b.cap, (size_t)v.capacity);
        verify(s, T_ATOMIC, (std::string("after failed ") + what).c_str());
    } else if (!refuse) cx.mutation();
    return ok;
}

bool op(const Step& t, u32 mask)
{
    Slot& s = g[(size_t)t.a[0] % MAXSLOT];
    cx.begin(0);
    ZyanStatus st;
    if (t.op == INIT)
    {
        destroy(s);
        s.kind = (int)(t.a[1] % 3); s.gf = (int)(t.a[4] & 0xff); s.thr = (int)((t.a[4] >> 8) & 0xff);
        if (s.kind == K_DEFAULT) { s.gf = 2; s.thr = 2; }
        if (s.kind == K_BUFFER) { s.gf = 1; s.thr = 0; }
        memset(&s.b, 0xCC, sizeof s.b);
        const size_t n = size_arg(t.a[2]);
        const u64 rq = cx.requests;
        bool small = false;
        if (s.kind == K_BUFFER)
        {
            s.bufcap = t.a[3] > 0 ? (size_t)t.a[3] : 1;
            if (t.a[3] > 32 && t.a[3] % 4) s.bufcap = std::max<size_t>(1, std::min<size_t>(bytes_of(n), 640)) + (t.a[3] & 1);
            small = s.bufcap < bytes_of(n);
            u8* buf = sim_buffer(s.bufcap);
            cx.begin(mask); st = ZyanBitsetInitBuffer(&s.b, n, buf, s.bufcap);
        } else { cx.begin(mask); st = s.kind == K_DEFAULT ? ZyanBitsetInit(&s.b, n) : ZyanBitsetInitEx(&s.b, n, &s.al.a, (ZyanU8)s.gf, (ZyanU8)s.thr); }
        const int fired = cx.end(); cx.ev(st);
        cx.log("    init kind %d bits %zu buffer %zu gf %d thr %d -> %08x (faults %d)", s.kind, n, s.bufcap, s.gf, s.thr, st, fired);
        if (s.kind == K_BUFFER && cx.requests != rq) cx.fail(T_BUFFER, "init on a buffer allocated memory");
        const bool huge = absurd(bytes_of(n));
        if (ZYAN_SUCCESS(st))
        {
            if (small) { cx.fail(T_BUFFER, "init accepted a buffer of %zu bytes for %zu bits", s.bufcap, n); throw Abandon(); }
            if (huge) { cx.fail(T_ALLOC, "init claims to have memory for %zu bits", n); throw Abandon(); }
            s.live = true; s.m.assign(n, '0'); cx.mutation();
            if (s.kind != K_BUFFER && s.b.bits.capacity < bytes_of(n)) cx.fail(T_CAP, "init of %zu bits provides only %zu bytes", n, (size_t)s.b.bits.capacity);
            return false;
        }
        if (small) { cx.fault(F_BUFFER_FULL); if (st != ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE) cx.fail(T_BUFFER, "init on a small buffer failed with %08x", st); return false; }
        if (s.kind == K_BUFFER) { cx.fail(T_REFUSE, "init on a buffer failed with %08x", st); return false; }
        if (huge) cx.fault(F_ABSURD_SIZE);
        else if (!fired) cx.fail(T_REFUSE, "init failed with %08x without a reason", st);
        if (st != oom(s)) cx.fail(T_REFUSE, "init failed with %08x for want of memory, expected %08x", st, oom(s));
        return cx.injected > 0 && !huge;
    }
    if (!s.live) return false;
    const size_t n = s.m.size();
    const Pre b = pre(s);
    const char* what = names[t.op];
    bool ok = false;
    if (n > g_limit && (t.op == PUSH || t.op == PUSHN)) return false;
    switch (t.op)
    {
    case DESTROY: destroy(s); return false;
    case SET: case RESET: case ASSIGN: case TOGGLE:
    {
        const size_t i = index_arg(t.a[1], n);
        const bool v = t.a[2] & 1;
        cx.begin(mask);
        st = t.op == SET ? ZyanBitsetSet(&s.b, i) : t.op == RESET ? ZyanBitsetReset(&s.b, i) : t.op == TOGGLE ? ZyanBitsetToggle(&s.b, i) : ZyanBitsetAssign(&s.b, i, v ? ZYAN_TRUE : ZYAN_FALSE);
        if ((ok = judge(s, what, st, b, bytes_of(n), i >= n, false)))
            s.m[i] = t.op == SET ? '1' : t.op == RESET ? '0' : t.op == TOGGLE ? (char)(s.m[i] ^ 1) : (v ? '1' : '0');
        break;
    }
    case TEST:
    {
        const size_t i = index_arg(t.a[1], n);
        st = ZyanBitsetTest(&s.b, i); cx.ev(st);
        const ZyanStatus want = i >= n ? ZYAN_STATUS_OUT_OF_RANGE : s.m[i] == '1' ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE;
        if (st != want) cx.fail(T_STATUS, "bit %zu of %zu tests as %08x, expected %08x", i, n, st, want);
        return false;
    }
    case SETALL: case RESETALL: case FLIP:
        cx.begin(mask);
        st = t.op == SETALL ? ZyanBitsetSetAll(&s.b) : t.op == RESETALL ? ZyanBitsetResetAll(&s.b) : ZyanBitsetFlip(&s.b);
        if ((ok = judge(s, what, st, b, bytes_of(n), false, false)))
            for (char& c : s.m) c = t.op == SETALL ? '1' : t.op == RESETALL ? '0' : (char)(c ^ 1);
        break;
    case LOGIC:
    {
        const Slot& o = g[(size_t)(t.a[0] + 1) % MAXSLOT];
        if (!o.live) return false;
        const int k = (int)(t.a[1] % 5);
        const std::string before = o.m;
        cx.begin(mask);
        switch (k)
        {
        case 0: st = ZyanBitsetAND(&s.b, &o.b); break;
        case 1: st = ZyanBitsetOR(&s.b, &o.b); break;
        case 2: st = ZyanBitsetXOR(&s.b, &o.b); break;
        default: st = ZyanBitsetPerformByteOperation(&s.b, &o.b, k == 3 ? op_andnot : op_nor); break;
        }
        if ((ok = judge(s, what, st, b, bytes_of(n), false, false)))
        {
            for (size_t i = 0; i < std::min(n, o.m.size()); ++i)
            {
                const int x = s.m[i] - '0', y = o.m[i] - '0';
                s.m[i] = (char)('0' + (k == 0 ? x & y : k == 1 ? x | y : k == 2 ? x ^ y : k == 3 ? x & !y : !(x | y)));
            }
            // documented: bits beyond the size of the source are undefined now
            for (size_t i = o.m.size(); i < n; ++i)
            {
                const ZyanStatus q = ZyanBitsetTest(&s.b, i);
                if (q != ZYAN_STATUS_TRUE && q != ZYAN_STATUS_FALSE) { cx.fail(T_STATUS, "bit %zu of %zu tests as %08x", i, n, q); break; }
                s.m[i] = q == ZYAN_STATUS_TRUE ? '1' : '0';
            }
        }
        break;
    }
    case PUSH: case PUSHN:
    {
        // negative: fill up to the reported capacity (-2: one more)
        ZyanUSize cap = 0;
        if (t.op == PUSHN && t.a[2] < 0) { ZyanBitsetGetCapacity(&s.b, &cap); cap = std::min<size_t>(cap - std::min<size_t>(n, cap), g_limit) + (t.a[2] == -2); probe("filled_to_capacity"); }
        const size_t k = t.op == PUSH ? 1 : t.a[2] < 0 ? cap : (size_t)t.a[2];
        for (size_t i = 0; i < k; ++i)
        {
            const bool v = (mix64((u64)t.a[1] + i) & 1);
            const Pre bb = pre(s);
            cx.begin(t.op == PUSH ? mask : mask & (1u << (i / 8 % 4)) ? 1 : 0);
            st = ZyanBitsetPush(&s.b, v ? ZYAN_TRUE : ZYAN_FALSE);
            ok = judge(s, what, st, bb, bytes_of(s.m.size() + 1), false, false);
            if (!ok) break;
            s.m.push_back(v ? '1' : '0');
        }
        if (t.op == PUSHN) return false;
        break;
    }
    case POP: case POPN:
    {
        const size_t k = t.op == POP ? 1 : (size_t)t.a[2];
        for (size_t i = 0; i < k; ++i)
        {
            const Pre bb = pre(s);
            cx.begin(mask);
            st = ZyanBitsetPop(&s.b);
            if (s.m.empty())
            {
                cx.end(); cx.ev(st); cx.fault(F_OUT_OF_RANGE);
                if (ZYAN_SUCCESS(st)) { cx.fail(T_STATUS, "pop accepted on an empty bitset"); throw Abandon(); }
                verify(s, T_ATOMIC, "after refused pop");
                return false;
            }
            ok = judge(s, what, st, bb, bytes_of(s.m.size()), false, true);
            if (!ok) break;
            s.m.pop_back();
        }
        return false;
    }
    case CLEAR:
        cx.begin(mask); st = ZyanBitsetClear(&s.b);
        if ((ok = judge(s, what, st, b, 0, false, true))) s.m.clear();
        break;
    case RESERVE:
    {
        const size_t k = size_arg(t.a[1]);
        cx.begin(mask); st = ZyanBitsetReserve(&s.b, k);
        if ((ok = judge(s, what, st, b, std::max(bytes_of(k), bytes_of(n)), false, false)) && s.b.bits.capacity < bytes_of(k)) cx.fail(T_CAP, "capacity is %zu bytes after reserving %zu bits", (size_t)s.b.bits.capacity, k);
        break;
    }
    case SHRINK:
    {
        cx.begin(mask); st = ZyanBitsetShrinkToFit(&s.b);
        const int fired = cx.end(); cx.ev(st); cx.log("    shrink -> %08x (faults %d) cap %zu -> %zu", st, fired, b.cap, (size_t)s.b.bits.capacity);
        if (!ZYAN_SUCCESS(st))
        {
            if (!fired) cx.fail(T_REFUSE, "shrink_to_fit failed with %08x without a reason", st);
            else if (st != oom(s)) cx.fail(T_REFUSE, "shrink_to_fit failed with %08x for want of memory, expected %08x", st, oom(s));
            if (s.b.bits.capacity != b.cap) cx.fail(T_ATOMIC, "failed shrink_to_fit changed the capacity from %zu to %zu", b.cap, (size_t)s.b.bits.capacity);
            verify(s, T_ATOMIC, "after failed shrink_to_fit");
            return cx.injected > 0;
        }
        if (s.kind == K_BUFFER) { if (cx.requests != b.req) cx.fail(T_BUFFER, "shrink_to_fit allocated memory for a bitset on a fixed buffer"); }
        else if (s.b.bits.capacity != std::max<size_t>(bytes_of(n), 1)) cx.fail(T_CAP, "capacity is %zu bytes after shrinking a bitset of %zu bits", (size_t)s.b.bits.capacity, n);
        cx.mutation();
        return false;
    }
    }
    return !ok && cx.injected > 0 && s.kind != K_BUFFER;
}

void exec(const Plan& p)
{
    g_limit = (size_t)p.get("limit", 400);
    for (int i = 0; i < MAXSLOT; ++i) { g[i] = Slot(); sa_init(&g[i].al, i + 1); }
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& t = p.steps[k];
        cx.step = (int)k;
        cx.log("#%zu %s %lld %lld %lld %lld %lld f=%x", k, names[t.op], t.a[0], t.a[1], t.a[2], t.a[3], t.a[4], t.f);
        if (op(t, t.f) && t.retry)
        {
            cx.log("  again, without faults");
            probe("retry_after_fault");
            op(t, 0);
        }
        for (auto& s : g)
        {
            verify(s, T_CONTENT, "after the step");
            if (s.live)
            {
                u64 pad = 0;
                if (s.b.size % 8 && sane(s)) pad = ((const u8*)s.b.bits.data)[s.b.size / 8];
                if (pad & (0xffu >> (s.b.size % 8))) probe("nonzero_padding_bits");
                cx.ev(s.b.size * 1009 + s.b.bits.capacity);
                cx.state(mix64((u64)s.kind | pad << 8 | (u64)s.gf << 16 | (u64)s.thr << 24 | 2ull << 40) ^ mix64((u64)s.b.size << 32 ^ (u64)s.b.bits.capacity));
            }
        }
        leak_check("after the step");
        if (cx.take_muted()) for (auto& s : g) resync(s);
    }
    cx.step = (int)p.steps.size();
    cx.begin(0);
    for (auto& s : g) destroy(s);
    cx.end();
    leak_check("after destroying everything");
}

bool g_big;     // generating a run with thousands of bits
ll idx(Rng& r) { return r.chance(1, 10) ? -1 - (ll)r.below(10) : (ll)r.below(g_big ? 1 << 20 : 128); }
ll szarg(Rng& r) { return r.chance(1, 16) ? -1 - (ll)r.below(8) : g_big && r.chance(1, 2) ? (ll)r.below(5000) : r.chance(1, 3) ? (ll)r.below(200) : (ll)r.below(30); }

void gen(Rng& r, Plan& p)
{
    const std::string& id = p.prop;
    p.cfg["move"] = r.pick({100, 100, 50, 0});
    p.cfg["faultkind"] = r.pick({0, 0, 0, 1, 2});
    p.cfg["oom_status"] = r.chance(1, 4);
    g_big = r.chance(1, 16);
    const bool vast = g_big && r.chance(1, 30);     // more than 16 bits can count
    const bool colossal = vast && r.chance(1, 4);   // more than 16 bits can count bytes
    if (g_big) p.cfg["limit"] = colossal ? 540000 : vast ? 70000 : 5000;
    auto large = [&]() { return colossal && r.chance(1, 2) ? r.range(524280, 524300 + (ll)r.below(2) * 9000) : vast && r.chance(1, 2) ? r.range(65530, 65540 + (ll)r.below(2) * 2000) : szarg(r); };
    if (r.chance(1, 8)) p.cfg["mem"] = g_big ? r.pick({64, 128, 300, 600}) : r.pick({2, 4, 8, 32});
    int kw[3] = {6, 2, 3};
    int cls = (int)r.below(5);
    if (cls == 4 && r.chance(1, 2)) cls = 2;
    if (id == "C11") cls = r.pick({0, 1, 1, 2, 3});
    if (id == "C12") cls = r.pick({1, 2, 2, 3, 4});
    if (id == "C05") { kw[0] = 0; kw[1] = 0; kw[2] = 1; }
    if (id == "C15") { kw[0] = 0; kw[1] = 1; kw[2] = 0; }
    if (id == "C14") { kw[1] = 1; kw[2] = 1; cls = r.pick({0, 1, 2, 4}); }
    if (zsim_nolibc) { kw[1] = 0; if (!kw[0] && !kw[2]) kw[0] = 1; }
    const int nslots = r.chance(1, 2) ? 1 : MAXSLOT;
    auto add = [&](int op, ll a, ll b = 0, ll c = 0, ll d = 0, ll e = 0) { Step s; s.op = op; s.a[0] = a; s.a[1] = b; s.a[2] = c; s.a[3] = d; s.a[4] = e; p.steps.push_back(s); };
    auto init = [&](int slot)
    {
        u64 x = r.below((u64)(kw[0] + kw[1] + kw[2]));
        const int kind = x < (u64)kw[0] ? 0 : x < (u64)(kw[0] + kw[1]) ? 1 : 2;
        const ll gf = r.pick({1, 1, 2, 2, 3, 255}), thr = r.pick({0, 0, 1, 2, 2, 4, 255});
        add(INIT, slot, kind, large(), (ll)r.range(1, g_big ? 600 : r.chance(1, 3) ? 64 : 8), gf | thr << 8);
    };
    for (int i = 0; i < nslots; ++i) init(i);
    const ll mara = marathon(r);
    const int n = (int)(g_big ? r.range(4, 16) : mara ? mara : r.chance(1, 8) ? r.range(40, 140) : r.range(4, 40));
    int w[NOPS];
    for (int i = 0; i < NOPS; ++i) w[i] = (int)r.below(4);
    w[PUSH] += 2; w[POP] += 1; w[INIT] = r.chance(1, 3); w[DESTROY] = r.chance(1, 4); w[CLEAR] = r.chance(1, 2); w[TEST] = r.chance(1, 2);
    if (nslots == 1) w[LOGIC] = 0;
    if (id == "C12" || id == "C14") { w[PUSHN] += 2; w[RESERVE] += 2; w[POPN] += 1; for (int o : {SET, RESET, ASSIGN, TOGGLE}) w[o] = r.chance(1, 2); }
    if (mara) favour(r, w, NOPS, {PUSH, PUSHN}, {POP, POPN});
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < n; ++i)
    {
        int x = (int)r.below((u64)tot), op = 0;
        while (x >= w[op]) x -= w[op++];
        const ll s = (ll)r.below((u64)nslots), v = (ll)r.below(1000);
        switch (op)
        {
        case INIT: init((int)s); break;
        case SET: case RESET: case ASSIGN: case TOGGLE: case TEST: add(op, s, idx(r), v); break;
        case PUSHN: case POPN: add(op, s, v, op == PUSHN && r.chance(1, g_big ? 3 : 8) ? -1 - (ll)r.below(2) : g_big && r.chance(1, 2) ? (ll)r.range(2, 800) : r.chance(1, 3) ? (ll)r.range(2, 40) : (ll)r.range(2, 12)); break;
        case RESERVE: add(op, s, large()); break;
        default: add(op, s, v); break;
        }
    }
    gen_faults(r, p, cls, 4);
}

}   // namespace
extern const Scenario scen_bits;
const Scenario scen_bits = {"bitset", names, NOPS, gen, exec};
