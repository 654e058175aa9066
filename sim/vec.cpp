// Vectors: histories of operations under allocation faults, against a sequence model.
#include "core.hpp"
#include <Zycore/Comparison.h>
#include <Zycore/Vector.h>
#include <algorithm>

extern "C" void zsim_walk_mutable(ZyanVector* v, void (*f)(void*, ZyanUSize, void*), void* arg);

namespace {

enum Op
{
    INIT, DESTROY, DUP, PUSH, BURST, INSERT, INSRANGE, EMPLACE, EMPLACEEX, SET, SWAP, DEL, DELRANGE, POP, CLEAR,
    RESIZE, RESIZEEX, RESERVE, SHRINK, GET, FIND, FINDEX, BSEARCH, BSEARCHEX, BINSERT, SORT, WALK, NOPS
};
const char* const names[NOPS] = {
    "init", "destroy", "duplicate", "push_back", "push_burst", "insert", "insert_range", "emplace", "emplace_ex", "set",
    "swap", "delete", "delete_range", "pop_back", "clear", "resize", "resize_ex", "reserve", "shrink_to_fit", "get",
    "find", "find_ex", "binary_search", "binary_search_ex", "sorted_insert", "sort", "walk" };

enum Kind { K_SIM, K_DEFAULT, K_BUFFER };

struct Slot
{
    bool live = false;
    ZyanVector v;
    int kind = K_SIM, gf = 2, thr = 4;
    size_t es = 1, bufcap = 0;
    bool dtor = false;
    std::vector<std::string> m;
    SimAlloc al;
};
const int MAXSLOT = 3;
Slot g[MAXSLOT];
std::vector<std::string> g_dlog;
size_t g_es;
size_t g_limit;     // elements
std::string g_ctor_bytes;
ZyanStatus g_ctor_status;
int g_ctor_calls;

void dtor_cb(void* p) { g_dlog.push_back(std::string((const char*)p, g_es)); cx.ev(0xD7); }
ZyanStatus ctor_cb(void* p)
{
    ++g_ctor_calls;
    if (!ZYAN_SUCCESS(g_ctor_status))
    {
        if (g_es > 1) memset(p, 0xEE, g_es / 2);
        cx.fault(F_CTOR_FAIL);
        return g_ctor_status;
    }
    memcpy(p, g_ctor_bytes.data(), g_es);
    return ZYAN_STATUS_SUCCESS;
}
int g_order;        // how elements compare: 0 by their first byte, 1 as numbers if they have the size of one, with the library's functions
ZyanBool eq_cb(const void* a, const void* b) { return *(const u8*)a == *(const u8*)b ? ZYAN_TRUE : ZYAN_FALSE; }
// comparison functions may answer any negative or positive number
ZyanI32 cmp_cb(const void* a, const void* b) { return (ZyanI32)*(const u8*)a - (ZyanI32)*(const u8*)b; }
ZyanI32 cmp_cb8(const void* a, const void* b) { return cmp_cb(a, b) * 256; }
ZyanI32 cmp_cb24(const void* a, const void* b) { return cmp_cb(a, b) * (1 << 24); }
ZyanI32 cmp_cbmax(const void* a, const void* b) { const ZyanI32 c = cmp_cb(a, b); return c < 0 ? INT32_MIN : c > 0 ? INT32_MAX : 0; }
bool numeric(size_t es) { return g_order && (es == 1 || es == 2 || es == 4 || es == 8); }
u64 key(const std::string& e)
{
    if (!numeric(e.size())) return (u8)e[0];
    u64 v = 0; memcpy(&v, e.data(), e.size()); return v;
}
bool less(const std::string& a, const std::string& b) { return key(a) < key(b); }
ZyanEqualityComparison eq_of(size_t es)
{
    if (!numeric(es)) return eq_cb;
    return es == 1 ? (ZyanEqualityComparison)ZyanEqualsNumeric8 : es == 2 ? (ZyanEqualityComparison)ZyanEqualsNumeric16
        : es == 4 ? (ZyanEqualityComparison)ZyanEqualsNumeric32 : (ZyanEqualityComparison)ZyanEqualsNumeric64;
}
ZyanComparison cmp_of(size_t es, ll how)
{
    if (!numeric(es)) return how % 4 == 0 ? cmp_cb : how % 4 == 1 ? cmp_cb8 : how % 4 == 2 ? cmp_cb24 : cmp_cbmax;
    return es == 1 ? (ZyanComparison)ZyanCompareNumeric8 : es == 2 ? (ZyanComparison)ZyanCompareNumeric16
        : es == 4 ? (ZyanComparison)ZyanCompareNumeric32 : (ZyanComparison)ZyanCompareNumeric64;
}

// element for a value: the first byte is the key (few different ones), the others identify it
std::string elem(size_t es, ll v)
{
    std::string s(es, 0);
    u64 h = mix64((u64)v);
    for (size_t i = 0; i < es; ++i) { if (i % 8 == 0) h = mix64(h + i); s[i] = (char)(h >> (8 * (i % 8))); }
    s[0] = (char)(((u64)v) % 7);
    return s;
}
const size_t MAXSZ = ~(size_t)0;
const size_t MEM = 16u << 20;
size_t index_arg(ll c, size_t n, size_t es)
{
    if (c >= 0) return n ? (size_t)c % n : 0;
    switch (c)
    {
    case -1: return MAXSZ;
    case -2: return n;
    case -3: return n + 1;
    case -4: return MAXSZ / es + 1;
    case -5: return MAXSZ - 1;
    case -6: return MAXSZ / 2 + 1;
    // values that a narrower type would cut off
    case -7: return (1ull << 32) + n / 2;
    case -8: return (1ull << 32) + (n ? n - 1 : 0);
    case -9: return n + 0x10000;
    default: return n + 0x100;
    }
}
size_t size_arg(ll c, size_t es)
{
    if (c >= 0) return (size_t)c;
    switch (c)
    {
    case -1: return MAXSZ;
    case -2: return es > 1 ? MAXSZ / es + 1 : MAXSZ - 1;
    case -3: return MAXSZ / 2 + 1;
    case -4: return MEM / es + 1;
    case -5: return es > 1 ? MAXSZ / es + 4 : MAXSZ - 3;
    case -6: return MAXSZ / 3;
    case -7: return (1ull << 32) + 3;
    case -8: return (1ull << 32) / es + 2;
    case -9: return (1ull << 31) / es + 2;
    default: return 1ull << 63;
    }
}
bool absurd(size_t n, size_t es) { size_t b; return __builtin_mul_overflow(n, es, &b) || b > MEM; }

ZyanStatus oom(const Slot& s) { return s.kind == K_DEFAULT ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : cx.fault_status; }

size_t vsize(const Slot& s) { ZyanUSize n = 0; if (!ZYAN_SUCCESS(ZyanVectorGetSize(&s.v, &n))) cx.fail(T_STATUS, "GetSize failed"); return n; }
size_t vcap(const Slot& s) { ZyanUSize n = 0; if (!ZYAN_SUCCESS(ZyanVectorGetCapacity(&s.v, &n))) cx.fail(T_STATUS, "GetCapacity failed"); return n; }

void expect_dtor(const char* what, std::vector<std::string> want)
{
    std::vector<std::string> got = g_dlog;
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if (got != want)
        cx.fail(T_DTOR, "%s passed %zu elements to the destructor, expected %zu%s%s", what, got.size(), want.size(),
            got.size() == want.size() ? ", different ones: got " : "", got.size() == want.size() && !got.empty() ? hex(got[0].data(), got[0].size()).c_str() : "");
    g_dlog.clear();
}

bool sane(const Slot& s)
{
    int ow; size_t gr;
    if (s.v.size > s.v.capacity || !s.v.data) return false;
    if (s.kind == K_BUFFER) return s.v.size <= s.bufcap;
    return sa_block(s.v.data, &ow, &gr) && !absurd(s.v.size, s.es) && s.v.size * s.es <= gr;
}

void verify(Slot& s, int tag, const char* when)
{
    if (!s.live) return;
    const size_t n = vsize(s), c = vcap(s);
    if (n != s.m.size()) { cx.fail(tag, "%s: size is %zu, expected %zu", when, n, s.m.size()); return; }
    if (c < n) { cx.fail(T_CAP, "%s: capacity %zu is less than the size %zu", when, c, n); if (!sane(s)) throw Abandon(); }
    if (s.kind == K_BUFFER)
    {
        if (c != s.bufcap) cx.fail(T_BUFFER, "%s: capacity %zu, the buffer holds %zu elements", when, c, s.bufcap);
    } else
    {
        int ow; size_t gr;
        if (!sa_block(s.v.data, &ow, &gr)) { cx.fail(T_ALLOC, "%s: the vector uses memory it does not own", when); throw Abandon(); }
        if (ow != (s.kind == K_SIM ? s.al.id : HEAP_OWNER)) cx.fail(T_ALLOC, "%s: the vector uses memory of another allocator", when);
        if (c * s.es > gr) cx.fail(T_ALLOC, "%s: capacity of %zu elements (%zu bytes each), but only %zu bytes were allocated", when, c, s.es, gr);
        if (c * s.es != gr) cx.fail(T_CAP, "%s: reported capacity of %zu elements (%zu bytes each), %zu bytes were granted", when, c, s.es, gr);
        if (n * s.es > gr) throw Abandon();
    }
    for (size_t i = 0; i < n; ++i)
    {
        const void* p = ZyanVectorGet(&s.v, i);
        if (!p) { cx.fail(T_STATUS, "%s: element %zu of %zu is not accessible", when, i, n); continue; }
        if (memcmp(p, s.m[i].data(), s.es))
        {
            cx.fail(tag, "%s: element %zu of %zu is %s, expected %s", when, i, n, hex(p, s.es).c_str(), hex(s.m[i].data(), s.es).c_str());
            break;
        }
    }
}
void resync(Slot& s)
{
    if (!s.live) return;
    if (!sane(s)) throw Abandon();
    s.m.clear();
    for (size_t i = 0; i < s.v.size; ++i) s.m.push_back(std::string((const char*)s.v.data + i * s.es, s.es));
}

void leak_check(const char* when)
{
    int heap = 0;
    for (auto& s : g)
    {
        const int want = s.live && s.kind == K_SIM;
        const int got = sa_live(s.al.id);
        if (got != want) cx.fail(T_LEAK, "%s: %d blocks of the vector's allocator are in use, expected %d", when, got, want);
        heap += s.live && s.kind == K_DEFAULT;
    }
    if (sa_live(HEAP_OWNER) != heap) cx.fail(T_LEAK, "%s: %d heap blocks are in use, expected %d", when, sa_live(HEAP_OWNER), heap);
}

void destroy(Slot& s)
{
    if (!s.live) return;
    g_es = s.es; g_dlog.clear();
    const ZyanStatus st = ZyanVectorDestroy(&s.v);
    s.live = false;
    cx.ev(st);
    if (!ZYAN_SUCCESS(st)) cx.fail(T_REFUSE, "destroy failed with %08x", st);
    expect_dtor("destroy", s.dtor ? s.m : std::vector<std::string>());
    s.m.clear();
}

struct Pre { size_t size, cap; const void* data; u64 req; };
Pre pre(const Slot& s) { return Pre{s.v.size, s.v.capacity, s.v.data, cx.requests}; }

// Common judgement of a mutating call. Returns true if the model has to be updated.
// need: elements the container has to hold; refusal: expected status of a refusal for range reasons (or 0)
bool judge(Slot& s, const char* what, ZyanStatus st, const Pre& b, size_t need, ZyanStatus refusal, bool removal)
{
    const int fired = cx.end();
    cx.ev(st);
    cx.log("    %s -> %08x (faults %d) size %zu->%zu cap %zu->%zu", what, st, fired, b.size, (size_t)s.v.size, b.cap, (size_t)s.v.capacity);
    const bool ok = ZYAN_SUCCESS(st);
    if (refusal)
    {
        cx.fault(F_OUT_OF_RANGE);
        if (ok) { cx.fail(T_STATUS, "%s accepted arguments outside the vector", what); resync(s); return false; }
        if (st != refusal) cx.fail(T_STATUS, "%s refused with %08x, expected %08x", what, st, refusal);
        if (cx.requests != b.req) cx.fail(T_ATOMIC, "%s allocated although it was refused", what);
    } else if (s.kind == K_BUFFER && need > s.bufcap)
    {
        cx.fault(F_BUFFER_FULL);
        if (ok) { cx.fail(T_BUFFER, "%s accepted %zu elements in a buffer of %zu", what, need, s.bufcap); throw Abandon(); }
        if (st != ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE) cx.fail(T_BUFFER, "%s failed with %08x on a full buffer", what, st);
    } else if (absurd(need, s.es))
    {
        cx.fault(F_ABSURD_SIZE);
        if (ok) { cx.fail(T_ALLOC, "%s claims to have memory for %zu elements of %zu bytes", what, need, s.es); throw Abandon(); }
        if (st != oom(s)) cx.fail(T_REFUSE, "%s failed with %08x for want of memory, expected %08x", what, st, oom(s));
    } else if (!ok)
    {
        if (removal) cx.fail(T_REFUSE, "%s failed with %08x although it needs no memory", what, st);
        else if (!fired) cx.fail(T_REFUSE, "%s failed with %08x without a reason (size %zu, capacity %zu, %zu needed)", what, st, b.size, b.cap, need);
        else if (cx.starved(65536 + 4 * need * s.es * (size_t)std::max(s.gf, 2))) cx.fail(T_REFUSE, "%s used up %zu bytes of memory for %zu elements", what, cx.room, need);
        else if (st != oom(s)) cx.fail(T_REFUSE, "%s failed with %08x for want of memory, expected %08x", what, st, oom(s));
    }
    if (s.kind == K_BUFFER && cx.requests != b.req) cx.fail(T_BUFFER, "%s allocated memory for a vector on a fixed buffer", what);
    if (!removal && need <= b.cap)
    {
        if (cx.requests != b.req) cx.fail(T_CAP, "%s used the allocator although the capacity %zu suffices for %zu", what, b.cap, need);
        if (s.v.data != b.data) cx.fail(T_CAP, "%s moved the elements although the capacity %zu suffices for %zu", what, b.cap, need);
        if (s.v.capacity != b.cap) cx.fail(T_CAP, "%s changed the capacity %zu to %zu although it suffices", what, b.cap, (size_t)s.v.capacity);
    }
    if (s.thr == 0 && s.v.capacity < b.cap) cx.fail(T_CAP, "%s gave back capacity (%zu to %zu) although shrinking is disabled", what, b.cap, (size_t)s.v.capacity);
    if (!ok)
    {
        if (s.v.capacity != b.cap) cx.fail(T_ATOMIC, "failed %s changed the capacity from %zu to %zu", what, b.cap, (size_t)s.v.capacity);
        verify(s, T_ATOMIC, (std::string("after failed ") + what).c_str());
        expect_dtor(what, {});
    } else if (!refusal) cx.mutation();
    return ok;
}

// Executes one operation; returns true if it failed because of an injected fault
bool op(const Plan& p, const Step& t, u32 mask)
{
    Slot& s = g[(size_t)t.a[0] % MAXSLOT];
    cx.begin(0); g_dlog.clear(); g_ctor_calls = 0; g_ctor_status = ZYAN_STATUS_SUCCESS;
    ZyanStatus st;
    if (t.op == INIT)
    {
        destroy(s);
        s.kind = (int)(t.a[1] % 3); s.es = (size_t)t.a[2]; s.gf = (int)(t.a[4] & 0xff); s.thr = (int)((t.a[4] >> 8) & 0xff); s.dtor = (t.a[4] >> 16) & 1;
        if (s.kind == K_DEFAULT) { s.gf = 2; s.thr = 4; }
        if (s.kind == K_BUFFER) { s.gf = 1; s.thr = 0; }
        g_es = s.es;
        size_t cap = size_arg(t.a[3], s.es);
        memset(&s.v, 0xCC, sizeof s.v);
        const u64 rq = cx.requests;
        cx.begin(mask);
        if (s.kind == K_BUFFER)
        {
            s.bufcap = t.a[3] > 0 ? (size_t)t.a[3] : 1; cap = s.bufcap;
            st = ZyanVectorInitCustomBuffer(&s.v, s.es, sim_buffer(s.bufcap * s.es), s.bufcap, s.dtor ? dtor_cb : nullptr);
        } else if (s.kind == K_DEFAULT) st = ZyanVectorInit(&s.v, s.es, cap, s.dtor ? dtor_cb : nullptr);
        else st = ZyanVectorInitEx(&s.v, s.es, cap, s.dtor ? dtor_cb : nullptr, &s.al.a, (ZyanU8)s.gf, (ZyanU8)s.thr);
        const int fired = cx.end();
        cx.ev(st); cx.log("    init kind %d es %zu cap %zu gf %d thr %d -> %08x", s.kind, s.es, cap, s.gf, s.thr, st);
        if (s.kind == K_BUFFER && cx.requests != rq) cx.fail(T_BUFFER, "init on a buffer allocated memory");
        if (ZYAN_SUCCESS(st))
        {
            s.live = true; cx.mutation();
            if (absurd(cap, s.es)) { cx.fail(T_ALLOC, "init claims to have memory for %zu elements of %zu bytes", cap, s.es); throw Abandon(); }
            if (vcap(s) < cap) cx.fail(T_CAP, "init with capacity %zu provides only %zu", cap, vcap(s));
            return false;
        }
        if (absurd(cap, s.es)) cx.fault(F_ABSURD_SIZE);
        else if (!fired) cx.fail(T_REFUSE, "init failed with %08x without a reason", st);
        if (s.kind == K_BUFFER) cx.fail(T_REFUSE, "init on a buffer failed with %08x", st);
        else if (st != oom(s)) cx.fail(T_REFUSE, "init failed with %08x for want of memory, expected %08x", st, oom(s));
        return cx.injected > 0 && !absurd(cap, s.es);
    }
    if (t.op == DUP)
    {
        Slot& d = g[(size_t)(t.a[0] + 1 + t.a[1] % (MAXSLOT - 1)) % MAXSLOT];
        if (!s.live) return false;
        destroy(d);
        g_dlog.clear();
        d.kind = (int)(t.a[2] % 3); d.es = s.es; d.dtor = s.dtor; d.gf = (int)(t.a[4] & 0xff); d.thr = (int)((t.a[4] >> 8) & 0xff);
        if (d.kind == K_DEFAULT) { d.gf = 2; d.thr = 4; }
        if (d.kind == K_BUFFER) { d.gf = 1; d.thr = 0; }
        memset(&d.v, 0xCC, sizeof d.v);
        size_t cap = size_arg(t.a[3], s.es);
        const u64 rq = cx.requests;
        bool small = false;
        cx.begin(mask);
        if (d.kind == K_BUFFER)
        {
            d.bufcap = t.a[3] > 0 ? (size_t)t.a[3] : 1; cap = d.bufcap; small = cap < s.m.size();
            st = ZyanVectorDuplicateCustomBuffer(&d.v, &s.v, sim_buffer(cap * s.es), cap);
        } else if (d.kind == K_DEFAULT) st = ZyanVectorDuplicate(&d.v, &s.v, cap);
        else st = ZyanVectorDuplicateEx(&d.v, &s.v, cap, &d.al.a, (ZyanU8)d.gf, (ZyanU8)d.thr);
        const int fired = cx.end();
        cx.ev(st); cx.log("    duplicate kind %d cap %zu -> %08x", d.kind, cap, st);
        if (d.kind == K_BUFFER && cx.requests != rq) cx.fail(T_BUFFER, "duplicate to a buffer allocated memory");
        expect_dtor("duplicate", {});
        if (ZYAN_SUCCESS(st))
        {
            if (small) { cx.fail(T_BUFFER, "duplicate accepted a buffer of %zu for %zu elements", cap, s.m.size()); throw Abandon(); }
            if (absurd(cap, s.es)) { cx.fail(T_ALLOC, "duplicate claims to have memory for %zu elements of %zu bytes", cap, s.es); throw Abandon(); }
            d.live = true; d.m = s.m; cx.mutation();
            if (vcap(d) < cap) cx.fail(T_CAP, "duplicate with capacity %zu provides only %zu", cap, vcap(d));
            if (d.v.data == s.v.data) cx.fail(T_CONTENT, "the duplicate shares the storage of its source");
            return false;
        }
        if (small)
        {
            cx.fault(F_BUFFER_FULL);
            if (st != ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE) cx.fail(T_BUFFER, "duplicate to a small buffer failed with %08x", st);
            return false;
        }
        if (d.kind == K_BUFFER) { cx.fail(T_REFUSE, "duplicate to a buffer failed with %08x", st); return false; }
        if (absurd(cap, s.es)) cx.fault(F_ABSURD_SIZE);
        else if (!fired) cx.fail(T_REFUSE, "duplicate failed with %08x without a reason", st);
        if (st != oom(d)) cx.fail(T_REFUSE, "duplicate failed with %08x for want of memory, expected %08x", st, oom(d));
        return cx.injected > 0 && !absurd(cap, s.es);
    }
    if (!s.live) return false;
    g_es = s.es;
    const size_t n = s.m.size(), es = s.es;
    const Pre b = pre(s);
    const char* what = names[t.op];
    bool ok = false;
    switch (t.op)
    {
    case DESTROY: destroy(s); return false;
    case PUSH:
    {
        const std::string e = elem(es, t.a[1]);
        cx.begin(mask); st = ZyanVectorPushBack(&s.v, e.data());
        if ((ok = judge(s, what, st, b, n + 1, 0, false))) s.m.push_back(e);
        break;
    }
    case BURST:
    {
        // several elements; stops at the first failure
        // negative: fill up to the reported capacity (-2: one more)
        if (n > g_limit) return false;
        const size_t k = t.a[2] >= 0 ? (size_t)t.a[2] : std::min(b.cap - n + (t.a[2] == -2), g_limit);
        if (t.a[2] < 0) probe("filled_to_capacity");
        if (n + k > 250) probe("hundreds_of_elements");
        for (size_t i = 0; i < k; ++i)
        {
            const std::string e = elem(es, t.a[1] + (ll)i);
            const Pre bb = pre(s);
            cx.begin(mask & (1u << (i % 4)) ? 1 : 0); st = ZyanVectorPushBack(&s.v, e.data());
            ok = judge(s, what, st, bb, s.m.size() + 1, 0, false);
            if (!ok) return false;
            s.m.push_back(e);
        }
        return false;
    }
    case INSERT:
    {
        const size_t i = index_arg(t.a[1], n + 1, es);
        const std::string e = elem(es, t.a[2]);
        if (n > g_limit) return false;
        cx.begin(mask); st = ZyanVectorInsert(&s.v, i, e.data());
        if ((ok = judge(s, what, st, b, n + 1, i > n ? ZYAN_STATUS_OUT_OF_RANGE : 0, false))) s.m.insert(s.m.begin() + (long)i, e);
        break;
    }
    case INSRANGE:
    {
        const size_t i = index_arg(t.a[1], n + 1, es), k = (size_t)t.a[3];
        if (n + k > g_limit) return false;
        std::string all; std::vector<std::string> v;
        for (size_t j = 0; j < k; ++j) { v.push_back(elem(es, t.a[2] + (ll)j)); all += v.back(); }
        u8* src = (u8*)malloc(all.size() ? all.size() : 1); memcpy(src, all.data(), all.size());
        cx.begin(mask); st = ZyanVectorInsertRange(&s.v, i, src, k);
        free(src);
        if (!k)
        {
            // inserting nothing may be refused, or be accepted if the position is valid
            cx.end(); cx.ev(st);
            if (ZYAN_SUCCESS(st) && i > n) cx.fail(T_STATUS, "insert_range accepted a position outside the vector");
            verify(s, ZYAN_SUCCESS(st) ? T_CONTENT : T_ATOMIC, "after inserting nothing");
            return false;
        }
        if ((ok = judge(s, what, st, b, n + k, i > n ? ZYAN_STATUS_OUT_OF_RANGE : 0, false))) s.m.insert(s.m.begin() + (long)i, v.begin(), v.end());
        break;
    }
    case EMPLACE: case EMPLACEEX:
    {
        const size_t i = t.op == EMPLACE ? n : index_arg(t.a[1], n + 1, es);
        const std::string e = elem(es, t.a[2]);
        const int mode = (int)(t.a[3] % 3);     // 0 no constructor, 1 constructor, 2 failing constructor
        if (n > g_limit) return false;
        g_ctor_bytes = e; g_ctor_status = mode == 2 ? ZYAN_STATUS_INVALID_OPERATION : ZYAN_STATUS_SUCCESS;
        void* el = nullptr;
        cx.begin(mask);
        st = t.op == EMPLACE ? ZyanVectorEmplace(&s.v, &el, mode ? ctor_cb : nullptr) : ZyanVectorEmplaceEx(&s.v, i, &el, mode ? ctor_cb : nullptr);
        if (mode == 2 && g_ctor_calls)
        {
            cx.end(); cx.ev(st); cx.log("    %s with failing constructor -> %08x", what, st);
            if (g_ctor_calls != 1) cx.fail(T_STATUS, "%s called the constructor %d times", what, g_ctor_calls);
            if (ZYAN_SUCCESS(st)) { cx.fail(T_REFUSE, "%s succeeded although the constructor failed", what); resync(s); return false; }
            if (st != g_ctor_status) cx.fail(T_REFUSE, "%s failed with %08x, the constructor with %08x", what, st, g_ctor_status);
            if (n + 1 <= b.cap && s.v.capacity != b.cap) cx.fail(T_CAP, "%s changed the capacity although it suffices", what);
            verify(s, T_ATOMIC, "after a failed constructor");
            expect_dtor(what, {});
            return false;
        }
        ok = judge(s, what, st, b, n + 1, i > n ? ZYAN_STATUS_OUT_OF_RANGE : 0, false);
        if (ok)
        {
            if (mode == 2) { cx.fail(T_STATUS, "%s did not call the constructor", what); resync(s); return false; }
            if (mode == 1 && g_ctor_calls != 1) cx.fail(T_STATUS, "%s called the constructor %d times", what, g_ctor_calls);
            const void* at = ZyanVectorGet(&s.v, i);
            if (el != at) cx.fail(T_CONTENT, "%s returned a pointer that is not element %zu", what, i);
            if (!at) throw Abandon();
            if (!mode) memcpy((void*)at, e.data(), es);
            s.m.insert(s.m.begin() + (long)i, e);
        }
        break;
    }
    case SET:
    {
        const size_t i = index_arg(t.a[1], n, es);
        const std::string e = elem(es, t.a[2]);
        cx.begin(mask); st = ZyanVectorSet(&s.v, i, e.data());
        if ((ok = judge(s, what, st, b, n, i >= n ? ZYAN_STATUS_OUT_OF_RANGE : 0, false)))
        {
            expect_dtor(what, s.dtor ? std::vector<std::string>{s.m[i]} : std::vector<std::string>());
            s.m[i] = e;
        }
        break;
    }
    case SWAP:
    {
        const size_t i = index_arg(t.a[1], n, es), j = index_arg(t.a[2], n, es);
        cx.begin(mask); st = ZyanVectorSwapElements(&s.v, i, j);
        if (st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE && i < n && j < n && n == b.cap)
        {
            // documented: needs room for one temporary element
            cx.end(); cx.ev(st); cx.fault(F_BUFFER_FULL); verify(s, T_ATOMIC, "after refused swap"); expect_dtor(what, {});
            return false;
        }
        if ((ok = judge(s, what, st, b, n, i >= n || j >= n ? ZYAN_STATUS_OUT_OF_RANGE : 0, false))) std::swap(s.m[i], s.m[j]);
        break;
    }
    case DEL: case DELRANGE: case POP: case CLEAR:
    {
        size_t i = 0, k = 0; ZyanStatus refuse = 0;
        if (t.op == DEL) { i = index_arg(t.a[1], n, es); k = 1; }
        else if (t.op == DELRANGE) { i = index_arg(t.a[1], n + 1, es); k = t.a[2] >= 0 ? (size_t)t.a[2] : index_arg(t.a[2], i <= n ? n - i : n, es); }
        else if (t.op == POP) { i = n ? n - 1 : 0; k = 1; }
        else { i = 0; k = n; }
        if (t.op != CLEAR && (i > n || k > n - i)) refuse = ZYAN_STATUS_OUT_OF_RANGE;
        cx.begin(mask);
        st = t.op == DEL ? ZyanVectorDelete(&s.v, i) : t.op == DELRANGE ? ZyanVectorDeleteRange(&s.v, i, k) : t.op == POP ? ZyanVectorPopBack(&s.v) : ZyanVectorClear(&s.v);
        if (t.op == DELRANGE && !k)
        {
            cx.end(); cx.ev(st);
            if (ZYAN_SUCCESS(st) && i > n) cx.fail(T_STATUS, "delete_range accepted a position outside the vector");
            verify(s, ZYAN_SUCCESS(st) ? T_CONTENT : T_ATOMIC, "after deleting nothing");
            expect_dtor(what, {});
            return false;
        }
        if ((ok = judge(s, what, st, b, n, refuse, true)))
        {
            expect_dtor(what, s.dtor ? std::vector<std::string>(s.m.begin() + (long)i, s.m.begin() + (long)(i + k)) : std::vector<std::string>());
            s.m.erase(s.m.begin() + (long)i, s.m.begin() + (long)(i + k));
        }
        break;
    }
    case RESIZE: case RESIZEEX:
    {
        size_t k = size_arg(t.a[1], es);
        if (t.a[4] && t.a[1] >= 0) { const ll d = (ll)n + (t.a[1] % 9) - 4; k = d < 0 ? 0 : (size_t)d; }   // close to the current size
        const std::string e = elem(es, t.a[2]);
        const bool init = t.op == RESIZEEX && t.a[3];
        cx.begin(mask);
        st = t.op == RESIZE ? ZyanVectorResize(&s.v, k) : ZyanVectorResizeEx(&s.v, k, init ? e.data() : nullptr);
        if ((ok = judge(s, what, st, b, std::max(k, k < n ? n : k), 0, k < n)))
        {
            if (k <= n)
            {
                expect_dtor(what, s.dtor ? std::vector<std::string>(s.m.begin() + (long)k, s.m.end()) : std::vector<std::string>());
                s.m.resize(k);
            } else
            {
                if (vsize(s) != k) { cx.fail(T_CONTENT, "size is %zu after resizing to %zu", vsize(s), k); break; }
                for (size_t i = n; i < k; ++i)
                {
                    std::string x = init ? e : elem(es, t.a[2] + (ll)i);
                    if (!init)
                    {
                        void* at = ZyanVectorGetMutable(&s.v, i);
                        if (!at) { cx.fail(T_STATUS, "element %zu of %zu is not accessible", i, k); throw Abandon(); }
                        memcpy(at, x.data(), es);
                    }
                    s.m.push_back(x);
                }
            }
        }
        break;
    }
    case RESERVE:
    {
        const size_t k = size_arg(t.a[1], es);
        cx.begin(mask); st = ZyanVectorReserve(&s.v, k);
        if ((ok = judge(s, what, st, b, k, 0, false)) && vcap(s) < k) cx.fail(T_CAP, "capacity is %zu after reserving %zu", vcap(s), k);
        break;
    }
    case SHRINK:
    {
        cx.begin(mask); st = ZyanVectorShrinkToFit(&s.v);
        const int fired = cx.end(); cx.ev(st); cx.log("    shrink -> %08x (faults %d) cap %zu -> %zu", st, fired, b.cap, (size_t)s.v.capacity);
        if (!ZYAN_SUCCESS(st))
        {
            if (!fired) cx.fail(T_REFUSE, "shrink_to_fit failed with %08x without a reason", st);
            else if (st != oom(s)) cx.fail(T_REFUSE, "shrink_to_fit failed with %08x for want of memory, expected %08x", st, oom(s));
            if (s.v.capacity != b.cap) cx.fail(T_ATOMIC, "failed shrink_to_fit changed the capacity from %zu to %zu", b.cap, (size_t)s.v.capacity);
            verify(s, T_ATOMIC, "after failed shrink_to_fit");
            expect_dtor(what, {});
            return cx.injected > 0;
        }
        if (s.kind == K_BUFFER) { if (cx.requests != b.req) cx.fail(T_BUFFER, "shrink_to_fit allocated memory for a vector on a fixed buffer"); }
        else if (vcap(s) != std::max<size_t>(n, 1)) cx.fail(T_CAP, "capacity is %zu after shrinking a vector with %zu elements", vcap(s), n);
        cx.mutation();
        break;
    }
    case GET:
    {
        const size_t i = index_arg(t.a[1], n, es);
        const void* c = &c; void* q = &q;
        const void* p0 = ZyanVectorGet(&s.v, i); void* p1 = ZyanVectorGetMutable(&s.v, i);
        const ZyanStatus s2 = ZyanVectorGetPointer(&s.v, i, &c), s3 = ZyanVectorGetPointerMutable(&s.v, i, &q);
        cx.ev(s2); cx.ev(s3);
        if (i >= n)
        {
            cx.fault(F_OUT_OF_RANGE);
            if (p0 || p1) cx.fail(T_STATUS, "access to element %zu of %zu is not refused", i, n);
            if (s2 != ZYAN_STATUS_OUT_OF_RANGE || s3 != ZYAN_STATUS_OUT_OF_RANGE) cx.fail(T_STATUS, "access to element %zu of %zu: %08x %08x", i, n, s2, s3);
        } else
        {
            if (!ZYAN_SUCCESS(s2) || !ZYAN_SUCCESS(s3) || !p0) { cx.fail(T_STATUS, "access to element %zu of %zu is refused", i, n); break; }
            if (p0 != p1 || p0 != c || p0 != q) cx.fail(T_CONTENT, "accessors disagree about element %zu", i);
            if (memcmp(p0, s.m[i].data(), es)) cx.fail(T_CONTENT, "element %zu is %s", i, hex(p0, es).c_str());
            if (t.a[2]) { const std::string e = elem(es, t.a[2]); memcpy(p1, e.data(), es); s.m[i] = e; }
        }
        break;
    }
    case FIND: case FINDEX:
    {
        const std::string e = elem(es, t.a[3]);
        size_t i = 0, k = n;
        if (t.op == FINDEX) { i = index_arg(t.a[1], n + 1, es); k = t.a[2] >= 0 ? (size_t)t.a[2] : index_arg(t.a[2], i <= n ? n - i : n, es); }
        ZyanISize at = 7777;
        st = t.op == FIND ? ZyanVectorFind(&s.v, e.data(), &at, eq_of(es)) : ZyanVectorFindEx(&s.v, e.data(), &at, eq_of(es), i, k);
        cx.ev(st); cx.log("    find in [%zu,+%zu) -> %08x %lld", i, k, st, (ll)at);
        if (i > n || k > n - i) { cx.fault(F_OUT_OF_RANGE); if (st != ZYAN_STATUS_OUT_OF_RANGE) cx.fail(T_STATUS, "find in [%zu,+%zu) of %zu answered %08x", i, k, n, st); break; }
        if (i == n && st == ZYAN_STATUS_OUT_OF_RANGE) break;    // nothing to search in
        ZyanISize want = -1;
        for (size_t j = i; j < i + k; ++j) if (key(s.m[j]) == key(e)) { want = (ZyanISize)j; break; }
        if (st != (want < 0 ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE)) cx.fail(T_STATUS, "find in [%zu,+%zu) of %zu answered %08x, expected index %lld", i, k, n, st, (ll)want);
        else if (at != want) cx.fail(T_STATUS, "find in [%zu,+%zu) found %lld, expected %lld", i, k, (ll)at, (ll)want);
        break;
    }
    case BSEARCH: case BSEARCHEX: case BINSERT:
    {
        const std::string e = elem(es, t.a[3]);
        size_t i = 0, k = n;
        if (t.op == BSEARCHEX) { i = index_arg(t.a[1], n + 1, es); k = t.a[2] >= 0 ? (size_t)t.a[2] : index_arg(t.a[2], i <= n ? n - i : n, es); }
        ZyanUSize at = 7777;
        st = t.op == BSEARCHEX ? ZyanVectorBinarySearchEx(&s.v, e.data(), &at, cmp_of(es, t.a[3] / 7), i, k) : ZyanVectorBinarySearch(&s.v, e.data(), &at, cmp_of(es, t.a[3] / 7));
        cx.ev(st); cx.log("    binary search in [%zu,+%zu) -> %08x %zu", i, k, st, (size_t)at);
        if (i > n || k > n - i) { cx.fault(F_OUT_OF_RANGE); if (st != ZYAN_STATUS_OUT_OF_RANGE) cx.fail(T_STATUS, "binary search in [%zu,+%zu) of %zu answered %08x", i, k, n, st); break; }
        bool sorted = true;
        for (size_t j = i; j + 1 < i + k; ++j) sorted &= !less(s.m[j + 1], s.m[j]);
        if (!sorted) { if (st != ZYAN_STATUS_TRUE && st != ZYAN_STATUS_FALSE) cx.fail(T_STATUS, "binary search answered %08x", st); break; }
        size_t lb = i; while (lb < i + k && less(s.m[lb], e)) ++lb;
        const bool hit = lb < i + k && key(s.m[lb]) == key(e);
        if (st != (hit ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE)) { cx.fail(T_STATUS, "binary search in [%zu,+%zu) of %zu answered %08x, element %s present", i, k, n, st, hit ? "is" : "is not"); break; }
        if (at != lb) { cx.fail(T_STATUS, "binary search in [%zu,+%zu) answered index %zu, lower bound is %zu", i, k, (size_t)at, lb); break; }
        if (t.op == BINSERT && n < g_limit)
        {
            cx.begin(mask); st = ZyanVectorInsert(&s.v, at, e.data());
            if ((ok = judge(s, what, st, b, n + 1, 0, false))) s.m.insert(s.m.begin() + (long)at, e);
            else return cx.injected > 0 && s.kind != K_BUFFER;
        }
        break;
    }
    case SORT:
        std::stable_sort(s.m.begin(), s.m.end(), less);
        for (size_t i = 0; i < n; ++i) { void* q = ZyanVectorGetMutable(&s.v, i); if (!q) { cx.fail(T_STATUS, "element %zu of %zu is not accessible", i, n); throw Abandon(); } memcpy(q, s.m[i].data(), es); }
        break;
    case WALK:
        if (es == 8)
        {
            size_t i = 0;
            ZYAN_VECTOR_FOREACH(u64, &s.v, item, { if (i < n && memcmp(&item, s.m[i].data(), 8)) cx.fail(T_CONTENT, "walking: element %zu differs", i); ++i; })
            if (i != n) cx.fail(T_CONTENT, "walking visited %zu of %zu elements", i, n);
            i = 0;
            struct Walk { Slot* s; ll v; size_t n; } w = { &s, t.a[3], 0 };
            zsim_walk_mutable(&s.v, [](void* q, ZyanUSize k, void* a)
            {
                Walk* w = (Walk*)a; ++w->n;
                if (!q || k >= w->s->m.size()) return;
                const std::string e = elem(8, w->v + (ll)k);
                memcpy(q, e.data(), 8); w->s->m[k] = e;
            }, &w);
            if (w.n != n) cx.fail(T_CONTENT, "walking visited %zu of %zu mutable elements", w.n, n);
            for (i = 0; i < n; ++i) { const u64 x = ZYAN_VECTOR_GET(u64, &s.v, i); if (memcmp(&x, s.m[i].data(), 8)) cx.fail(T_CONTENT, "walking: element %zu was changed to another value", i); }
        }
        break;
    }
    switch (t.op)
    {
    case GET: case FIND: case FINDEX: case BSEARCH: case BSEARCHEX: case SORT: case WALK:
        if (cx.requests != b.req || s.v.data != b.data || s.v.capacity != b.cap) cx.fail(T_CAP, "%s changed the storage", what);
        expect_dtor(what, {});
        return false;
    case PUSH: case INSERT: case INSRANGE: case EMPLACE: case EMPLACEEX: case SWAP: case RESERVE: case SHRINK:
        if (ok) expect_dtor(what, {});
        break;
    }
    return !ok && cx.injected > 0 && s.kind != K_BUFFER;
}

void exec(const Plan& p)
{
    g_limit = (size_t)p.get("limit", 300);
    g_order = (int)p.get("order", 0);
    for (int i = 0; i < MAXSLOT; ++i) { g[i] = Slot(); sa_init(&g[i].al, i + 1); }
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& t = p.steps[k];
        cx.step = (int)k;
        cx.log("#%zu %s %lld %lld %lld %lld %lld f=%x", k, names[t.op], t.a[0], t.a[1], t.a[2], t.a[3], t.a[4], t.f);
        const bool failed = op(p, t, t.f);
        if (failed && t.retry)
        {
            cx.log("  again, without faults");
            probe("retry_after_fault");
            if (op(p, t, 0) ) cx.fail(T_REFUSE, "%s fails again although nothing is wrong any more", names[t.op]);
        }
        for (auto& s : g)
        {
            verify(s, T_CONTENT, "after the step");
            if (s.live) { cx.ev(s.v.size * 1009 + s.v.capacity); cx.state(mix64((u64)s.kind | s.es << 2 | (u64)s.gf << 16 | (u64)s.thr << 24 | (u64)s.dtor << 32) ^ mix64((u64)s.v.size << 32 ^ (u64)s.v.capacity)); }
        }
        leak_check("after the step");
        if (cx.take_muted()) for (auto& s : g) resync(s);
    }
    cx.step = (int)p.steps.size();
    cx.begin(0);
    for (auto& s : g) destroy(s);
    cx.end();
    leak_check("after destroying everything");
}

bool g_big;     // generating a run with hundreds or thousands of elements
ll idx(Rng& r) { return r.chance(1, 14) ? -1 - (ll)r.below(10) : (ll)r.below(g_big ? 1 << 20 : 64); }
ll szarg(Rng& r) { return r.chance(1, 16) ? -1 - (ll)r.below(10) : g_big && r.chance(1, 2) ? (ll)r.below(2500) : r.chance(1, 3) ? (ll)r.below(64) : (ll)r.below(16); }

void gen(Rng& r, Plan& p)
{
    const std::string& id = p.prop;
    p.cfg["move"] = r.pick({100, 100, 50, 0});
    p.cfg["faultkind"] = r.pick({0, 0, 0, 1, 2});
    p.cfg["oom_status"] = r.chance(1, 4);
    const bool order = r.chance(1, 5);
    if (order) p.cfg["order"] = 1;
    g_big = r.chance(1, 14);
    const bool vast = g_big && r.chance(1, 30);     // more than 16 bits can count
    if (g_big) p.cfg["limit"] = vast ? 70000 : 3000;
    auto large = [&](ll n) { return vast && r.chance(1, 2) ? r.range(65530, 65540 + (ll)r.below(2) * 2000) : (ll)r.below((u64)n); };
    if (r.chance(1, 10)) p.cfg["mem"] = g_big ? r.pick({1024, 4096, 8192, 20000}) : r.pick({64, 256, 1024, 8192});
    int kw[3] = {6, 2, 2};
    int cls = (int)r.below(5);
    if (cls == 4 && r.chance(1, 2)) cls = 2;
    if (id == "C01") { kw[0] = 6; kw[1] = 1; kw[2] = 2; cls = r.pick({0, 1, 1, 2, 3}); }
    if (id == "C02") { cls = r.pick({1, 2, 2, 3, 4}); }
    if (id == "C05") { kw[0] = 1; kw[1] = 1; kw[2] = 12; }
    if (id == "C14") { kw[0] = 6; kw[1] = 1; kw[2] = 1; cls = r.pick({0, 1, 2, 4}); }
    if (id == "C15") { kw[0] = 0; kw[1] = 1; kw[2] = 0; }
    if (zsim_nolibc) { kw[1] = 0; if (!kw[0] && !kw[2]) kw[0] = 1; }
    const int nslots = r.chance(1, 2) ? 1 : (int)r.range(2, MAXSLOT);
    const bool wide = !order && !g_big && r.chance(1, 12);      // elements whose size does not fit into 8 bits, or not into 16
    const bool wider = wide && r.chance(1, 5);
    if (wide) p.cfg["limit"] = wider ? 20 : 150;
    const size_t es0 = wider ? r.pick({32767, 32768, 65535, 65536, 65537, 70000}) : wide ? r.pick({127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 4096}) : order ? r.pick({1, 2, 4, 8}) : g_big ? r.pick({1, 1, 2, 3, 4, 8, 8, 12}) : r.pick({1, 2, 3, 4, 5, 7, 8, 8, 8, 12, 16, 24, 33, 40, 100});
    auto kind = [&]() { u64 x = r.below((u64)(kw[0] + kw[1] + kw[2])); return x < (u64)kw[0] ? 0 : x < (u64)(kw[0] + kw[1]) ? 1 : 2; };
    const bool dt = r.chance(id == "C03" ? 14 : 8, 16);
    auto policy = [&]() -> ll { ll gf = r.pick({1, 1, 2, 2, 2, 3, 4, 7, 16, 128, 255}); ll thr = r.pick({0, 0, 1, 2, 3, 4, 4, 8, 16, 128, 255}); return gf | thr << 8 | (dt ? 1ll << 16 : 0); };
    auto add = [&](int op, ll a, ll b = 0, ll c = 0, ll d = 0, ll e = 0) { Step s; s.op = op; s.a[0] = a; s.a[1] = b; s.a[2] = c; s.a[3] = d; s.a[4] = e; p.steps.push_back(s); };
    auto init = [&](int slot) { add(INIT, slot, kind(), (ll)(r.chance(1, 4) ? (size_t)r.range(1, 40) : es0), r.chance(1, 12) ? -1 - (ll)r.below(10) : g_big && r.chance(2, 3) ? large(1500) : r.chance(1, 3) ? (ll)r.below(24) : (ll)r.below(6), policy()); };
    for (int i = 0; i < nslots; ++i) init(i);
    const ll mara = marathon(r);
    const int n = (int)(vast ? r.range(3, 8) : g_big ? r.range(4, 16) : mara ? (wide ? mara / 8 : mara) : r.chance(1, 8) ? r.range(40, 140) : r.range(4, 36));
    // per-run operation weights
    int w[NOPS];
    for (int i = 0; i < NOPS; ++i) w[i] = (int)r.below(4);
    w[PUSH] += 2; w[INIT] = r.chance(1, 3); w[DESTROY] = r.chance(1, 4); w[DUP] = (int)r.below(2); w[CLEAR] = r.chance(1, 2);
    if (r.chance(1, 3)) { w[BSEARCH] += 3; w[BSEARCHEX] += 4; w[BINSERT] += 6; w[SORT] += 3; }
    if (id == "C14") { w[RESERVE] += 4; w[SHRINK] += 2; w[RESIZE] += 3; w[RESIZEEX] += 2; }
    if (id == "C02") { for (int o : {FIND, FINDEX, BSEARCH, BSEARCHEX, GET, WALK, SORT}) w[o] = 0; }
    if (id == "C03") { for (int o : {FIND, FINDEX, BSEARCH, BSEARCHEX, GET, WALK}) w[o] = 0; }
    if (g_big) w[BURST] += 8;
    if (vast)
    {
        for (int o : {DUP, INSRANGE, EMPLACEEX, DELRANGE}) w[o] += 3;
        if (w[BSEARCH] || w[FIND]) { w[BSEARCH] += 4; w[BSEARCHEX] += 4; w[BINSERT] += 4; w[FIND] += 3; w[FINDEX] += 3; }
        add(RESIZEEX, 0, r.range(65530, 70000), (ll)r.below(1000), 1, 0);
        if (r.chance(1, 2)) add(DUP, 0, (ll)r.below(2), kind(), (ll)r.below(2500), policy());
    }
    if (mara) favour(r, w, NOPS, {PUSH, INSERT, INSRANGE, EMPLACE, EMPLACEEX}, {DEL, DELRANGE, POP});
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < n; ++i)
    {
        int x = (int)r.below((u64)tot), op = 0;
        while (x >= w[op]) x -= w[op++];
        const ll s = (ll)r.below((u64)nslots);
        const ll v = (ll)r.below(order ? 16 : 1000);
        switch (op)
        {
        case INIT: init((int)s); break;
        case DUP: add(op, s, (ll)r.below(2), kind(), r.chance(1, 12) ? -1 - (ll)r.below(10) : (ll)r.below(g_big ? 2500 : 20), policy()); break;
        case BURST: add(op, s, v, r.chance(1, g_big ? 2 : 5) ? -1 - (ll)r.below(2) : r.range(2, g_big ? 700 : 12)); break;
        case INSERT: case SET: add(op, s, idx(r), v); break;
        case INSRANGE: add(op, s, idx(r), v, r.chance(1, 20) ? 0 : r.range(1, g_big ? 300 : 9)); break;
        case EMPLACE: case EMPLACEEX: add(op, s, idx(r), v, (ll)r.below(3)); break;
        case SWAP: add(op, s, idx(r), idx(r)); break;
        case DEL: add(op, s, idx(r)); break;
        case DELRANGE: case FINDEX: case BSEARCHEX: add(op, s, idx(r), r.chance(1, 12) ? -1 - (ll)r.below(10) : r.chance(1, 2) ? (ll)r.below(5) : r.chance(1, 2) ? -2 : (ll)r.below(g_big ? 1000 : 16), v); break;
        case RESIZE: case RESIZEEX: add(op, s, vast ? large(70000) : szarg(r), v, r.chance(1, 2), r.chance(1, 2)); break;
        case RESERVE: add(op, s, vast ? large(70000) : szarg(r)); break;
        case GET: add(op, s, idx(r), r.chance(1, 3) ? v : 0); break;
        case FIND: case BSEARCH: case BINSERT: add(op, s, 0, 0, v); break;
        default: add(op, s, v, v, v); break;
        }
    }
    gen_faults(r, p, cls, 4);
}

}   // namespace
extern const Scenario scen_vec;
const Scenario scen_vec = {"vector", names, NOPS, gen, exec};
