// Containers of containers, callbacks that use the library themselves, an allocator that keeps its books in a library bitset:
// histories of operations under allocation and constructor faults, against a model of the whole tree.
#include "core.hpp"
#include <Zycore/Bitset.h>
#include <Zycore/Format.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <Zycore/Vector.h>
#include <algorithm>

namespace {

enum Op { INIT, DESTROY, EMPB, EMPF, EMPAT, PUSHB, PUSHF, INSERT, DEL, POPB, POPF, CLEAR, CUT, RESERVE, SHRINK, SET, INNER, SWAP, FIND, BSEARCH, NOPS };
const char* const names[NOPS] = { "init", "destroy", "emplace_back", "emplace_front", "emplace_at", "push_back", "push_front", "insert", "delete",
    "pop_back", "pop_front", "clear", "cut", "reserve", "shrink", "set", "change_inner", "swap", "find", "binary_search" };

enum { K_STR, K_VEC, K_LIST, K_BITS, K_SUB, K_LISTSUB };
enum { A_SIM, A_POOL, A_HEAP, A_INLINE };
const u64 MAGIC = 0xE1E3E17AC0DEull, KEY = 0x6B65795F6F6E6C79ull;

struct Elem
{
    u64 magic; u32 id; u8 kind, al;
    union { ZyanString s; ZyanVector v; ZyanList l; ZyanBitset b; };
    char room[40];
};
struct M
{
    u32 id = 0; int kind = 0, al = 0;
    std::string text; std::vector<u32> nums; std::vector<bool> bits; std::vector<M> sub;
};
struct Spec { int kind, al, count, seed, depth; bool inplace, refuse; };

struct Outer
{
    bool live = false, list = false; int kind = 0; size_t bufcap = 0;
    ZyanVector v; ZyanList l; SimAlloc al; std::vector<M> m; u8* buf = nullptr;
};
const int MAXOUT = 3, INNER_OWNER = 9;
Outer g[MAXOUT];
SimAlloc g_inner;
u32 g_id;
std::vector<u32> g_dead;        // destroyed during the current call
int g_calls;                    // callbacks run during the current call

// ---- what callbacks do besides their work

ZyanI32 cmp_u32(const void* a, const void* b) { const u32 x = *(const u32*)a, y = *(const u32*)b; return x < y ? -1 : x > y; }
ZyanBool eq_u32(const void* a, const void* b) { return *(const u32*)a == *(const u32*)b; }

int g_chatter;
void chatter(u32 seed)
{
    ++g_calls;
    if (g_chatter == 0) return;
    char text[48]; u32 cells[9]; u8 bits[4];
    ZyanString s; ZyanVector v; ZyanBitset b;
    const u64 h = mix64(seed);
    bool ok = true;
    if (h & 1)
    {
        ok = ok && ZYAN_SUCCESS(ZyanStringInitCustomBuffer(&s, text, sizeof text)) && ZYAN_SUCCESS(ZyanStringAppendDecU(&s, h >> 8, 3)) && ZYAN_SUCCESS(ZyanStringAppendHexU(&s, h >> 20, 2, ZYAN_TRUE));
        char want[64]; snprintf(want, sizeof want, "%03llu%02llX", (unsigned long long)(h >> 8), (unsigned long long)(h >> 20));
        const char* d = nullptr;
        if (!ok || !ZYAN_SUCCESS(ZyanStringGetData(&s, &d)) || strcmp(d, want)) cx.fail_later(T_CONTENT, "formatting inside a callback yields \"%.60s\" instead of \"%s\"", d ? d : "(nothing)", want);
        if (ok) ZyanStringDestroy(&s);
    }
    if (h & 2)
    {
        u32 want[8]; const u32 n = 2 + (u32)(h >> 4) % 6;
        ok = ZYAN_SUCCESS(ZyanVectorInitCustomBuffer(&v, 4, cells, 9, nullptr));
        for (u32 i = 0; i < n && ok; ++i)
        {
            const u32 x = (u32)(mix64(h + i) % 50); want[i] = x; ZyanUSize at = 77;
            ZyanVectorBinarySearch(&v, &x, &at, cmp_u32);
            ok = at <= i && ZYAN_SUCCESS(ZyanVectorInsert(&v, at, &x));
        }
        std::sort(want, want + n);
        for (u32 i = 0; i < n && ok; ++i) { const u32* p = (const u32*)ZyanVectorGet(&v, i); ok = p && *p == want[i]; }
        ZyanISize f = -2;
        const u32 q = want[n / 2], none = 1000;
        ok = ok && ZyanVectorFind(&v, &q, &f, eq_u32) == ZYAN_STATUS_TRUE && f >= 0 && want[f] == q && ZyanVectorFind(&v, &none, &f, eq_u32) == ZYAN_STATUS_FALSE && f == -1;
        if (!ok) cx.fail_later(T_CONTENT, "sorting and searching inside a callback goes wrong");
        ZyanVectorDestroy(&v);
    }
    if (h & 4)
    {
        ZyanUSize c = 0; u32 want = 0;
        ok = ZYAN_SUCCESS(ZyanBitsetInitBuffer(&b, 21, bits, 4));
        for (u32 i = 0; i < 21 && ok; ++i) { const bool on = h >> (i + 8) & 1; want += on; ok = ZYAN_SUCCESS(ZyanBitsetAssign(&b, i, on)); }
        if (!ok || !ZYAN_SUCCESS(ZyanBitsetCount(&b, &c)) || c != want) cx.fail_later(T_CONTENT, "counting bits inside a callback yields %zu instead of %u", (size_t)c, want);
        ZyanBitsetDestroy(&b);
    }
}

// ---- an allocator on top of the library: fixed slots, a bitset tells which are in use

const int SLOTS = 48, SLOTSZ = 512;
struct Pool { ZyanAllocator a; ZyanBitset used; u8* bits; u8* mem; size_t es[SLOTS], n[SLOTS]; int live; } pool;

ZyanStatus pool_full() { ++cx.fired; cx.fault(F_EXHAUSTED); return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
int pool_slot(void* p)
{
    const size_t off = (size_t)((u8*)p - pool.mem);
    return (u8*)p >= pool.mem && off < (size_t)SLOTS * SLOTSZ && off % SLOTSZ == 0 && pool.n[off / SLOTSZ] ? (int)(off / SLOTSZ) : -1;
}
ZyanStatus pool_alloc(ZyanAllocator*, void** p, ZyanUSize es, ZyanUSize n)
{
    ++cx.requests; ++cx.decisions;
    const int i = cx.reqno++;
    if (i < 16 && (cx.mask >> i & 1)) { ++cx.fired; ++cx.injected; cx.fault(F_ALLOC_FAIL); return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
    size_t bytes;
    if (__builtin_mul_overflow(es, n, &bytes) || bytes > SLOTSZ) return pool_full();
    chatter((u32)(es * 31 + n));
    for (ZyanUSize k = 0; k < SLOTS; ++k)
        if (ZyanBitsetTest(&pool.used, k) == ZYAN_STATUS_FALSE)
        {
            if (pool.n[k]) { cx.fail_later(T_CONTENT, "the bitset of the caller's allocator lost a bit"); return pool_full(); }
            if (!ZYAN_SUCCESS(ZyanBitsetSet(&pool.used, k))) cx.fail_later(T_STATUS, "setting a bit inside a callback failed");
            pool.es[k] = es; pool.n[k] = n; ++pool.live;
            *p = pool.mem + k * SLOTSZ; sim_fill(*p, SLOTSZ);
            return ZYAN_STATUS_SUCCESS;
        }
    return pool_full();
}
ZyanStatus pool_realloc(ZyanAllocator*, void** p, ZyanUSize es, ZyanUSize n)
{
    const int k = pool_slot(*p);
    if (k < 0) { cx.fail_later(T_ALLOC, "reallocate of a block the caller's allocator does not know"); return ZYAN_STATUS_FAILED; }
    ++cx.requests; ++cx.decisions;
    const int i = cx.reqno++;
    if (i < 16 && (cx.mask >> i & 1)) { ++cx.fired; ++cx.injected; cx.fault(F_REALLOC_FAIL); return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
    size_t bytes;
    if (__builtin_mul_overflow(es, n, &bytes) || bytes > SLOTSZ) return pool_full();
    chatter((u32)(es * 31 + n + 7));
    const size_t was = pool.es[k] * pool.n[k];
    if (bytes > was) sim_fill(pool.mem + k * SLOTSZ + was, bytes - was);
    pool.es[k] = es; pool.n[k] = n;
    return ZYAN_STATUS_SUCCESS;
}
ZyanStatus pool_free(ZyanAllocator*, void* p, ZyanUSize es, ZyanUSize n)
{
    const int k = pool_slot(p);
    if (k < 0) { cx.fail_later(T_ALLOC, "deallocate of a block the caller's allocator does not know"); return ZYAN_STATUS_SUCCESS; }
    if (pool.es[k] != es || pool.n[k] != n) cx.fail_later(T_ALLOC, "deallocate with %zu x %zu, granted were %zu x %zu", (size_t)es, (size_t)n, pool.es[k], pool.n[k]);
    if (ZyanBitsetTest(&pool.used, (ZyanUSize)k) != ZYAN_STATUS_TRUE) cx.fail_later(T_CONTENT, "the bitset of the caller's allocator lost a bit");
    if (!ZYAN_SUCCESS(ZyanBitsetReset(&pool.used, (ZyanUSize)k))) cx.fail_later(T_STATUS, "resetting a bit inside a callback failed");
    pool.n[k] = 0; --pool.live; sim_fill(p, SLOTSZ);
    return ZYAN_STATUS_SUCCESS;
}

// ---- elements

ZyanStatus ctor_elem(void* p);
void dtor_elem(void* p);
ZyanAllocator* alloc_of(int al) { return al == A_POOL ? &pool.a : &g_inner.a; }
char letter(int seed, size_t i) { return (char)('a' + mix64((u64)seed * 131 + i) % 26); }
u32 number(int seed, size_t i) { return (u32)mix64((u64)seed * 257 + i); }

Spec g_spec; M g_built; bool g_have; ZyanStatus g_ctor_status;

ZyanStatus vec_init(ZyanVector* v, int al, size_t es, size_t cap, ZyanMemberProcedure d)
{
    return al == A_HEAP ? ZyanVectorInit(v, es, cap, d) : ZyanVectorInitEx(v, es, cap, d, alloc_of(al), 2, 4);
}
ZyanStatus list_init(ZyanList* l, int al, size_t es, ZyanMemberProcedure d) { return al == A_HEAP ? ZyanListInit(l, es, d) : ZyanListInitEx(l, es, d, alloc_of(al)); }

// what a child of an element looks like
Spec child(const Spec& s, int i)
{
    Spec c = s; const u64 h = mix64((u64)s.seed * 31 + (u64)i);
    c.seed = (int)(h % 100000); c.depth = s.depth + 1; c.kind = (int)((h >> 20) % (s.depth >= 2 ? 4 : 6)); c.al = s.al == A_INLINE ? A_SIM : s.al == A_HEAP || (h >> 30) % 2 == 0 ? s.al : A_SIM;
    c.count = (int)((h >> 40) % 3); c.refuse = false; c.inplace = s.kind == K_LISTSUB;
    return c;
}

// makes an element; nothing is left behind if it fails
ZyanStatus build(Elem* e, const Spec& sp, M& m)
{
    memset(e, 0xCC, sizeof *e);
    m = M(); m.kind = sp.kind; m.al = sp.al;
    if (m.al == A_INLINE && (!sp.inplace || m.kind == K_SUB || m.kind == K_LIST || m.kind == K_LISTSUB)) m.al = A_SIM;
    const size_t n = (size_t)sp.count;
    ZyanStatus st = ZYAN_STATUS_SUCCESS;
    switch (m.kind)
    {
    case K_STR:
    {
        st = m.al == A_INLINE ? ZyanStringInitCustomBuffer(&e->s, e->room, sizeof e->room) : m.al == A_HEAP ? ZyanStringInit(&e->s, n / 2) : ZyanStringInitEx(&e->s, n / 2, alloc_of(m.al), 2, 4);
        if (!ZYAN_SUCCESS(st)) return st;
        st = ZyanStringAppendDecU(&e->s, (ZyanU64)sp.seed, 0);
        m.text = std::to_string(sp.seed);
        for (size_t i = 0; i < n && ZYAN_SUCCESS(st); ++i)
        {
            const char c = letter(sp.seed, i); ZyanStringView v;
            ZyanStringViewInsideBufferEx(&v, &c, 1);
            st = ZyanStringAppend(&e->s, &v); m.text += c;
        }
        if (!ZYAN_SUCCESS(st)) ZyanStringDestroy(&e->s);
        break;
    }
    case K_VEC:
        st = m.al == A_INLINE ? ZyanVectorInitCustomBuffer(&e->v, 4, e->room, sizeof e->room / 4, nullptr) : vec_init(&e->v, m.al, 4, n / 2, nullptr);
        if (!ZYAN_SUCCESS(st)) return st;
        for (size_t i = 0; i < n && ZYAN_SUCCESS(st); ++i) { const u32 x = number(sp.seed, i); st = ZyanVectorPushBack(&e->v, &x); m.nums.push_back(x); }
        if (!ZYAN_SUCCESS(st)) ZyanVectorDestroy(&e->v);
        break;
    case K_LIST:
        st = list_init(&e->l, m.al, 4, nullptr);
        if (!ZYAN_SUCCESS(st)) return st;
        for (size_t i = 0; i < n && ZYAN_SUCCESS(st); ++i) { const u32 x = number(sp.seed, i); st = ZyanListPushBack(&e->l, &x); m.nums.push_back(x); }
        if (!ZYAN_SUCCESS(st)) ZyanListDestroy(&e->l);
        break;
    case K_BITS:
        st = m.al == A_INLINE ? ZyanBitsetInitBuffer(&e->b, n + 3, e->room, sizeof e->room) : m.al == A_HEAP ? ZyanBitsetInit(&e->b, n + 3) : ZyanBitsetInitEx(&e->b, n + 3, alloc_of(m.al), 2, 4);
        if (!ZYAN_SUCCESS(st)) return st;
        for (size_t i = 0; i < n + 3 && ZYAN_SUCCESS(st); ++i) { m.bits.push_back(number(sp.seed, i) & 1); st = ZyanBitsetAssign(&e->b, i, m.bits.back()); }
        if (!ZYAN_SUCCESS(st)) ZyanBitsetDestroy(&e->b);
        break;
    default:
        st = m.kind == K_SUB ? vec_init(&e->v, m.al, sizeof(Elem), n / 2, dtor_elem) : list_init(&e->l, m.al, sizeof(Elem), dtor_elem);
        if (!ZYAN_SUCCESS(st)) return st;
        for (size_t i = 0; i < n && ZYAN_SUCCESS(st); ++i)
        {
            const Spec keep = g_spec; void* at = nullptr;
            g_spec = child(sp, (int)i); g_have = false;
            st = m.kind == K_SUB ? ZyanVectorEmplace(&e->v, &at, ctor_elem) : ZyanListEmplaceBack(&e->l, &at, ctor_elem);
            if (ZYAN_SUCCESS(st) && (!g_have || !at)) { cx.fail_later(T_STATUS, "an element was added inside a constructor without constructing it"); st = ZYAN_STATUS_FAILED; }
            if (ZYAN_SUCCESS(st)) m.sub.push_back(g_built);
            g_have = false; g_spec = keep;
        }
        if (!ZYAN_SUCCESS(st)) { if (m.kind == K_SUB) ZyanVectorDestroy(&e->v); else ZyanListDestroy(&e->l); }
    }
    if (!ZYAN_SUCCESS(st)) { g_dead.clear(); return st; }      // its children came and went within this call
    m.id = ++g_id;
    e->magic = MAGIC ^ m.id; e->id = m.id; e->kind = (u8)m.kind; e->al = (u8)m.al;
    return st;
}
ZyanStatus ctor_elem(void* p)
{
    const Spec sp = g_spec;
    const std::vector<u32> dead = g_dead;
    chatter((u32)sp.seed);
    M m;
    ZyanStatus st;
    if (sp.refuse) { cx.fault(F_CTOR_FAIL); memset(p, 0xEE, sizeof(Elem)); st = ZYAN_STATUS_INVALID_OPERATION; }
    else st = build((Elem*)p, sp, m);
    g_dead = dead;
    g_have = ZYAN_SUCCESS(st); g_built = m;
    g_ctor_status = st;
    return st;
}
void dtor_elem(void* p)
{
    Elem* e = (Elem*)p;
    if (e->magic != (MAGIC ^ e->id)) { cx.fail_later(T_DTOR, "something that is not a living element is passed to the destructor"); return; }
    const u32 id = e->id;
    e->magic = 0;
    chatter(id * 7);
    ZyanStatus st = ZYAN_STATUS_SUCCESS;
    switch (e->kind)
    {
    case K_STR: st = ZyanStringDestroy(&e->s); break;
    case K_VEC: case K_SUB: st = ZyanVectorDestroy(&e->v); break;
    case K_LIST: case K_LISTSUB: st = ZyanListDestroy(&e->l); break;
    default: st = ZyanBitsetDestroy(&e->b);
    }
    if (!ZYAN_SUCCESS(st)) cx.fail_later(T_REFUSE, "destroying a container inside a destructor failed with %08x", st);
    g_dead.push_back(id);
    memset(e, 0xDD, sizeof *e);
}

void ids(const M& m, std::vector<u32>& out) { for (auto& s : m.sub) ids(s, out); out.push_back(m.id); }
struct Blocks { size_t sim = 0, heap = 0, pool = 0; void add(int al, size_t n) { if (al == A_SIM) sim += n; else if (al == A_HEAP) heap += n; else if (al == A_POOL) pool += n; } };
void count(const M& m, Blocks& b)
{
    b.add(m.al, m.kind == K_LIST ? m.nums.size() : m.kind == K_LISTSUB ? m.sub.size() : 1);
    for (auto& s : m.sub) count(s, b);
}

// compares an element with the model; the reason if it differs
const char* differs(const Elem* e, const M& m)
{
    if (e->magic != (MAGIC ^ m.id) || e->id != m.id || e->kind != m.kind) { cx.log("    magic %llx id %u kind %d, expected %u %d", (unsigned long long)e->magic, e->id, e->kind, m.id, m.kind); return "another element"; }
    ZyanUSize n = 0;
    switch (m.kind)
    {
    case K_STR:
    {
        const char* d = nullptr;
        if (!ZYAN_SUCCESS(ZyanStringGetData(&e->s, &d)) || !ZYAN_SUCCESS(ZyanStringGetSize(&e->s, &n)) || n != m.text.size() || memcmp(d, m.text.c_str(), n + 1)) return "another text";
        break;
    }
    case K_VEC:
        if (!ZYAN_SUCCESS(ZyanVectorGetSize(&e->v, &n)) || n != m.nums.size()) return "a vector of another size";
        for (size_t i = 0; i < n; ++i) { const u32* p = (const u32*)ZyanVectorGet(&e->v, i); if (!p || *p != m.nums[i]) return "a vector of other numbers"; }
        break;
    case K_LIST: case K_LISTSUB:
    {
        const size_t want = m.kind == K_LIST ? m.nums.size() : m.sub.size();
        if (!ZYAN_SUCCESS(ZyanListGetSize(&e->l, &n)) || n != want) return "a list of another size";
        const ZyanListNode* p = nullptr;
        if (!ZYAN_SUCCESS(ZyanListGetHeadNode(&e->l, &p))) return "a list without head";
        for (size_t i = 0; i < n; ++i, ZyanListGetNextNode(&p))
        {
            if (!p) return "a shorter list";
            const void* d = ZyanListGetNodeData(p);
            if (m.kind == K_LIST) { if (*(const u32*)d != m.nums[i]) return "a list of other numbers"; }
            else if (const char* r = differs((const Elem*)d, m.sub[i])) return r;
        }
        if (p) return "a longer list";
        break;
    }
    case K_BITS:
        if (!ZYAN_SUCCESS(ZyanBitsetGetSize(&e->b, &n)) || n != m.bits.size()) return "a bitset of another size";
        for (size_t i = 0; i < n; ++i) if (ZyanBitsetTest((ZyanBitset*)&e->b, i) != (m.bits[i] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE)) return "other bits";
        break;
    default:
        if (!ZYAN_SUCCESS(ZyanVectorGetSize(&e->v, &n)) || n != m.sub.size()) return "a vector of another size";
        for (size_t i = 0; i < n; ++i)
        {
            const Elem* p = (const Elem*)ZyanVectorGet(&e->v, i);
            if (!p) return "an element that is not accessible";
            if (const char* r = differs(p, m.sub[i])) return r;
        }
    }
    return nullptr;
}

size_t size_of(const Outer& o) { ZyanUSize n = 0; return ZYAN_SUCCESS(o.list ? ZyanListGetSize(&o.l, &n) : ZyanVectorGetSize(&o.v, &n)) ? n : ~(size_t)0; }
Elem* at(const Outer& o, size_t i)
{
    if (!o.list) return (Elem*)ZyanVectorGet(&o.v, i);
    const ZyanListNode* n = nullptr; ZyanListGetHeadNode(&o.l, &n);
    while (n && i--) ZyanListGetNextNode(&n);
    return n ? (Elem*)ZyanListGetNodeData(n) : nullptr;
}
ZyanListNode* node(const Outer& o, size_t i) { Elem* e = at(o, i); return (ZyanListNode*)((u8*)e - sizeof(ZyanListNode)); }
void verify(const Outer& o, int tag, const char* when)
{
    if (!o.live) return;
    if (size_of(o) != o.m.size()) { cx.fail(tag, "%s: %zu elements, expected %zu", when, size_of(o), o.m.size()); throw Abandon(); }
    for (size_t i = 0; i < o.m.size(); ++i)
    {
        const Elem* e = at(o, i);
        if (!e) { cx.fail(tag, "%s: element %zu of %zu is missing", when, i, o.m.size()); throw Abandon(); }
        if (const char* r = differs(e, o.m[i])) { cx.fail(tag, "%s: element %zu of %zu is %s", when, i, o.m.size(), r); throw Abandon(); }
    }
}
void books(const char* when)
{
    Blocks b;
    for (auto& o : g)
    {
        size_t own = 0;
        if (o.live && o.kind == A_HEAP) b.heap += o.list ? o.m.size() : 1;
        else if (o.live && o.kind == A_POOL) b.pool += o.list ? o.m.size() : 1;
        else if (o.live && o.kind == A_SIM) own = o.list ? o.m.size() : 1;
        if ((size_t)sa_live(o.al.id) != own) cx.fail(T_LEAK, "%s: %d blocks of a container's allocator are in use, expected %zu", when, sa_live(o.al.id), own);
        for (auto& m : o.m) count(m, b);
    }
    if ((size_t)sa_live(INNER_OWNER) != b.sim) cx.fail(T_LEAK, "%s: %d blocks of the inner containers are in use, expected %zu", when, sa_live(INNER_OWNER), b.sim);
    if ((size_t)sa_live(HEAP_OWNER) != b.heap) cx.fail(T_LEAK, "%s: %d heap blocks are in use, expected %zu", when, sa_live(HEAP_OWNER), b.heap);
    if ((size_t)pool.live != b.pool) cx.fail(T_LEAK, "%s: %d blocks of the caller's allocator are in use, expected %zu", when, pool.live, b.pool);
    ZyanUSize c = 0;
    if (!ZYAN_SUCCESS(ZyanBitsetCount(&pool.used, &c)) || c != b.pool) cx.fail(T_CONTENT, "%s: the bitset of the caller's allocator has %zu bits set, expected %zu", when, (size_t)c, b.pool);
}
void expect_dead(const char* what, const std::vector<M>& gone)
{
    std::vector<u32> want, got = g_dead;
    for (auto& m : gone) ids(m, want);
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    g_dead.clear();
    if (got != want) { cx.fail(T_DTOR, "%s destroyed %zu elements, expected %zu%s", what, got.size(), want.size(), got.size() == want.size() ? ", others" : ""); throw Abandon(); }
}
void destroy(Outer& o)
{
    if (!o.live) return;
    g_dead.clear(); cx.begin(0);
    const ZyanStatus st = o.list ? ZyanListDestroy(&o.l) : ZyanVectorDestroy(&o.v);
    cx.end(); cx.ev(st);
    o.live = false;
    const auto gone = o.m; o.m.clear();
    if (!ZYAN_SUCCESS(st)) { cx.fail(T_REFUSE, "destroy failed with %08x", st); throw Abandon(); }
    expect_dead("destroy", gone);
}

// judges a call that needs room for `need` elements
bool judge(Outer& o, const char* what, ZyanStatus st, size_t need, bool grows, bool refused = false)
{
    const int fired = cx.end();
    cx.ev(st); cx.log("    %s -> %08x (faults %d)", what, st, fired);
    const bool ok = ZYAN_SUCCESS(st);
    if (grows && o.kind == A_INLINE && need > o.bufcap)
    {
        cx.fault(F_BUFFER_FULL);
        if (ok) { cx.fail(T_BUFFER, "%s accepted %zu elements in a buffer of %zu", what, need, o.bufcap); throw Abandon(); }
    } else if (refused)
    {
        if (ok) { cx.fail(T_STATUS, "%s succeeded although the constructor failed", what); throw Abandon(); }
    } else if (!ok && !fired) cx.fail(T_REFUSE, "%s failed with %08x without a reason", what, st);
    else if (!ok && !grows) cx.fail(T_REFUSE, "%s failed with %08x although it needs no memory", what, st);
    if (!ok) { verify(o, T_ATOMIC, "after the failure"); expect_dead(what, {}); }
    else cx.mutation();
    return ok;
}

u32 key_of(const Elem* e) { return e->id; }
ZyanBool eq_elem(const void* a, const void* b)
{
    const Elem *x = (const Elem*)a, *y = (const Elem*)b;
    if ((x->magic != KEY && x->magic != (MAGIC ^ x->id)) || (y->magic != KEY && y->magic != (MAGIC ^ y->id))) { cx.fail_later(T_CONTENT, "something that is not an element is compared"); return ZYAN_FALSE; }
    chatter(x->id * 3 + y->id);
    // compares what the library prints
    char bx[16], by[16]; ZyanString sx, sy;
    if (!ZYAN_SUCCESS(ZyanStringInitCustomBuffer(&sx, bx, sizeof bx)) || !ZYAN_SUCCESS(ZyanStringInitCustomBuffer(&sy, by, sizeof by)) ||
        !ZYAN_SUCCESS(ZyanStringAppendDecU(&sx, key_of(x), 5)) || !ZYAN_SUCCESS(ZyanStringAppendDecU(&sy, key_of(y), 5))) cx.fail_later(T_STATUS, "formatting inside a comparison failed");
    ZyanI32 r = 7;
    if (!ZYAN_SUCCESS(ZyanStringCompare(ZYAN_STRING_TO_VIEW(&sx), ZYAN_STRING_TO_VIEW(&sy), &r))) cx.fail_later(T_STATUS, "comparing strings inside a comparison failed");
    for (const Elem* e : {x, y})
        if (e->magic != KEY && e->kind == K_VEC && e->v.size)
        {
            // a search within the search
            const u32* last = (const u32*)ZyanVectorGet(&e->v, e->v.size - 1); ZyanISize f = -2;
            if (ZyanVectorFind(&e->v, last, &f, eq_u32) != ZYAN_STATUS_TRUE || f < 0 || *(const u32*)ZyanVectorGet(&e->v, (ZyanUSize)f) != *last) cx.fail_later(T_CONTENT, "a search inside a comparison goes wrong");
        }
    if ((r == 0) != (x->id == y->id)) cx.fail_later(T_CONTENT, "comparing printed numbers inside a comparison goes wrong");
    return r == 0;
}
ZyanI32 cmp_elem(const void* a, const void* b)
{
    const Elem *x = (const Elem*)a, *y = (const Elem*)b;
    if (eq_elem(a, b)) return 0;
    return x->id < y->id ? -1 : 1;
}

bool op(const Step& t, u32 mask)
{
    Outer& o = g[(size_t)t.a[0] % MAXOUT];
    const char* what = names[t.op];
    cx.begin(0); g_dead.clear(); g_calls = 0; g_have = false; g_ctor_status = ZYAN_STATUS_SUCCESS;
    const Spec sp = { (int)(t.a[2] % 6), (int)(t.a[2] / 6 % 4), (int)(t.a[3] % 12), (int)(t.a[4] % 100000), 0, true, t.a[5] == 1 };
    ZyanStatus st;
    if (t.op == INIT)
    {
        destroy(o);
        o.list = t.a[1] & 1; o.kind = (int)(t.a[1] / 2 % 4); o.bufcap = 1 + (size_t)t.a[3] % 12;
        const size_t cap = (size_t)t.a[3] % 6; const ZyanU8 gf = (ZyanU8)(1 + t.a[4] % 3), thr = (ZyanU8)(t.a[4] / 3 % 5);
        memset(&o.v, 0xCC, sizeof o.v); memset(&o.l, 0xCC, sizeof o.l);
        ZyanAllocator* const al = o.kind == A_POOL ? &pool.a : &o.al.a;
        if (o.kind == A_INLINE) o.buf = sim_buffer(o.bufcap * (sizeof(Elem) + (o.list ? sizeof(ZyanListNode) : 0)));
        cx.begin(mask);
        if (o.list) st = o.kind == A_HEAP ? ZyanListInit(&o.l, sizeof(Elem), dtor_elem) : o.kind == A_INLINE ? ZyanListInitCustomBuffer(&o.l, sizeof(Elem), dtor_elem, o.buf, o.bufcap * (sizeof(Elem) + sizeof(ZyanListNode))) : ZyanListInitEx(&o.l, sizeof(Elem), dtor_elem, al);
        else st = o.kind == A_HEAP ? ZyanVectorInit(&o.v, sizeof(Elem), cap, dtor_elem) : o.kind == A_INLINE ? ZyanVectorInitCustomBuffer(&o.v, sizeof(Elem), o.buf, o.bufcap, dtor_elem) : ZyanVectorInitEx(&o.v, sizeof(Elem), cap, dtor_elem, al, gf, thr);
        const int fired = cx.end(); cx.ev(st);
        cx.log("    init %s kind %d -> %08x", o.list ? "list" : "vector", o.kind, st);
        if (ZYAN_SUCCESS(st)) { o.live = true; cx.mutation(); return false; }
        if (!fired) cx.fail(T_REFUSE, "init failed with %08x without a reason", st);
        return cx.injected > 0;
    }
    if (!o.live) return false;
    const size_t n = o.m.size(), i = n ? (size_t)t.a[1] % n : 0;
    bool ok = false;
    switch (t.op)
    {
    case DESTROY: destroy(o); return false;
    case EMPB: case EMPF: case EMPAT:
    {
        if (n > 40) return false;
        g_spec = sp; g_spec.inplace = o.list;
        const size_t pos = t.op == EMPB ? n : t.op == EMPF ? 0 : (size_t)t.a[1] % (n + 1);
        void* p = nullptr;
        cx.begin(mask);
        if (o.list) st = pos == n || t.op == EMPAT ? ZyanListEmplaceBack(&o.l, &p, ctor_elem) : ZyanListEmplaceFront(&o.l, &p, ctor_elem);
        else st = t.op == EMPB ? ZyanVectorEmplace(&o.v, &p, ctor_elem) : ZyanVectorEmplaceEx(&o.v, pos, &p, ctor_elem);
        const size_t where = o.list && t.op == EMPAT ? n : pos;
        ok = judge(o, what, st, n + 1, true, !ZYAN_SUCCESS(g_ctor_status));
        if (ok)
        {
            if (!g_have) { cx.fail(T_STATUS, "%s did not construct the element", what); throw Abandon(); }
            o.m.insert(o.m.begin() + (long)where, g_built);
            if (p != at(o, where)) cx.fail(T_CONTENT, "%s returned a pointer that is not the new element", what);
            expect_dead(what, {});
        } else if (g_have) { cx.fail(T_LEAK, "%s failed and forgot the element it had constructed", what); throw Abandon(); }
        break;
    }
    case PUSHB: case PUSHF: case INSERT: case SET:
    {
        if (n > 40 || (t.op == SET && !n)) return false;
        // an element made by the caller: he keeps it if the call fails
        static Elem e; M m;
        Spec s2 = sp; s2.inplace = false;
        if (!ZYAN_SUCCESS(build(&e, s2, m))) return false;
        g_dead.clear();
        size_t pos = t.op == PUSHB ? n : t.op == PUSHF ? 0 : t.op == SET ? i : (size_t)t.a[1] % (n + 1);
        cx.begin(mask);
        if (t.op == SET) st = o.list ? ZyanListSetNodeData(&o.l, node(o, i), &e) : ZyanVectorSet(&o.v, i, &e);
        else if (o.list) { if (t.op == INSERT) pos = n; st = t.op == PUSHF ? ZyanListPushFront(&o.l, &e) : ZyanListPushBack(&o.l, &e); }
        else st = t.op == PUSHB ? ZyanVectorPushBack(&o.v, &e) : ZyanVectorInsert(&o.v, pos, &e);
        if (t.op == SET)
        {
            ok = judge(o, what, st, n, false);
            if (ok) { const M old = o.m[i]; o.m[i] = m; expect_dead(what, {old}); }
        } else if ((ok = judge(o, what, st, n + 1, true))) { o.m.insert(o.m.begin() + (long)pos, m); expect_dead(what, {}); }
        if (!ok) { dtor_elem(&e); expect_dead("the caller", {m}); }
        break;
    }
    case DEL: case POPB: case POPF: case CLEAR: case CUT:
    {
        if (!n && t.op != CLEAR && t.op != CUT) return false;
        size_t from = i, k = 1;
        if (t.op == DEL) k = 1 + (size_t)t.a[2] % (n - i);
        else if (t.op == POPB || (t.op == POPF && !o.list)) from = n - 1;
        else if (t.op == POPF) from = 0;
        else { from = t.op == CLEAR ? 0 : (size_t)t.a[1] % (n + 1); k = n - from; }
        cx.begin(mask);
        switch (t.op)
        {
        case DEL: st = o.list ? (k == 1 && t.a[3] & 1 ? ZyanListRemove(&o.l, node(o, from)) : ZyanListRemoveRange(&o.l, node(o, from), node(o, from + k - 1))) : k == 1 && t.a[3] & 1 ? ZyanVectorDelete(&o.v, from) : ZyanVectorDeleteRange(&o.v, from, k); break;
        case POPB: st = o.list ? ZyanListPopBack(&o.l) : ZyanVectorPopBack(&o.v); break;
        case POPF: st = o.list ? ZyanListPopFront(&o.l) : ZyanVectorPopBack(&o.v); break;
        case CLEAR: st = o.list ? ZyanListClear(&o.l) : ZyanVectorClear(&o.v); break;
        default: st = o.list ? ZyanListResize(&o.l, from) : ZyanVectorResize(&o.v, from);
        }
        if ((ok = judge(o, what, st, n, false)))
        {
            const std::vector<M> gone(o.m.begin() + (long)from, o.m.begin() + (long)(from + k));
            o.m.erase(o.m.begin() + (long)from, o.m.begin() + (long)(from + k));
            expect_dead(what, gone);
        }
        break;
    }
    case RESERVE: case SHRINK:
    {
        if (o.list) return false;
        const size_t want = (size_t)t.a[1] % 24;
        cx.begin(mask);
        st = t.op == RESERVE ? ZyanVectorReserve(&o.v, want) : ZyanVectorShrinkToFit(&o.v);
        ok = judge(o, what, st, t.op == RESERVE ? want : 0, true);
        expect_dead(what, {});
        break;
    }
    case INNER:
    {
        // changes a container inside of the container
        if (!n) return false;
        M* m = &o.m[i]; Elem* e = at(o, i);
        if (!e) throw Abandon();
        for (int d = 0; d < 3 && (m->kind == K_SUB || m->kind == K_LISTSUB) && !m->sub.empty() && (t.a[3] >> d & 1); ++d)
        {
            const size_t k = (size_t)t.a[4] % m->sub.size();
            if (m->kind == K_SUB) e = (Elem*)ZyanVectorGet(&e->v, k);
            else { const ZyanListNode* q = nullptr; ZyanListGetHeadNode(&e->l, &q); for (size_t j = 0; j < k && q; ++j) ZyanListGetNextNode(&q); e = q ? (Elem*)ZyanListGetNodeData(q) : nullptr; }
            m = &m->sub[k];
            if (!e) throw Abandon();
        }
        const bool shrink = t.a[2] % 3 == 0; const u32 x = (u32)t.a[4];
        const M old = *m; std::vector<M> gone;
        bool full = false, done = true;
        cx.begin(mask);
        switch (m->kind)
        {
        case K_STR:
        {
            ZyanStringView v; const char c[2] = {letter((int)x, 1), letter((int)x, 2)};
            ZyanStringViewInsideBufferEx(&v, c, 2);
            if (m->text.size() > 300 || (shrink && m->text.empty())) { done = false; break; }
            if (shrink) { st = ZyanStringTruncate(&e->s, m->text.size() / 2); m->text.resize(m->text.size() / 2); }
            else if (t.a[2] % 3 == 1 || m->text.size() > 24)
            {
                // the storage may have to grow for a number, or for formatted text
                const u64 big = mix64(x) >> (x % 60); const ZyanU8 pad = (ZyanU8)(x % 4 ? 0 : x / 4 % 30); char num[64];
                const int how = (int)(x / 8 % 3);
                snprintf(num, sizeof num, how == 1 ? "%0*llX" : "%0*llu", (int)pad, (unsigned long long)big);
                if (how == 2 && !zsim_nolibc) snprintf(num, sizeof num, "<%llu>", (unsigned long long)big);
                full = m->al == A_INLINE && m->text.size() + strlen(num) + 1 > sizeof e->room;
                st = how == 1 ? ZyanStringAppendHexU(&e->s, big, pad, ZYAN_TRUE) : how == 2 && !zsim_nolibc ? ZyanStringAppendFormat(&e->s, "<%llu>", (unsigned long long)big) : ZyanStringAppendDecU(&e->s, big, pad);
                m->text += num;
            } else { full = m->al == A_INLINE && m->text.size() + 3 > sizeof e->room; st = ZyanStringInsert(&e->s, m->text.size() / 2, &v); m->text.insert(m->text.size() / 2, c, 2); }
            break;
        }
        case K_VEC:
            if (m->nums.size() > 60) { done = false; break; }
            if (shrink) { if (m->nums.empty()) { done = false; break; } st = ZyanVectorDelete(&e->v, 0); m->nums.erase(m->nums.begin()); }
            else { full = m->al == A_INLINE && m->nums.size() + 1 > sizeof e->room / 4; st = ZyanVectorInsert(&e->v, 0, &x); m->nums.insert(m->nums.begin(), x); }
            break;
        case K_LIST:
            if (m->nums.size() > 60) { done = false; break; }
            if (shrink) { if (m->nums.empty()) { done = false; break; } st = ZyanListPopFront(&e->l); m->nums.erase(m->nums.begin()); }
            else { st = ZyanListPushFront(&e->l, &x); m->nums.insert(m->nums.begin(), x); }
            break;
        case K_BITS:
            if (m->bits.size() > 300) { done = false; break; }
            if (shrink) { if (m->bits.empty()) { done = false; break; } st = ZyanBitsetPop(&e->b); m->bits.pop_back(); }
            else { full = m->al == A_INLINE && m->bits.size() + 1 > sizeof e->room * 8; st = ZyanBitsetPush(&e->b, x & 1); m->bits.push_back(x & 1); }
            break;
        default:
            if (shrink)
            {
                if (m->sub.empty()) { done = false; break; }
                if (m->kind == K_SUB) { gone = {m->sub[0]}; m->sub.erase(m->sub.begin()); st = ZyanVectorDelete(&e->v, 0); }
                else { gone = {m->sub.back()}; m->sub.pop_back(); st = ZyanListPopBack(&e->l); }
            } else
            {
                if (m->sub.size() > 8) { done = false; break; }
                g_spec = sp; g_spec.depth = 2; g_spec.kind = sp.kind % 4; g_spec.inplace = m->kind == K_LISTSUB; void* p = nullptr;
                st = m->kind == K_SUB ? ZyanVectorEmplaceEx(&e->v, 0, &p, ctor_elem) : ZyanListEmplaceFront(&e->l, &p, ctor_elem);
                if (ZYAN_SUCCESS(st)) { if (!g_have) { cx.end(); cx.fail(T_STATUS, "an element was not constructed"); throw Abandon(); } m->sub.insert(m->sub.begin(), g_built); }
            }
        }
        if (!done) { cx.end(); *m = old; return false; }
        if (!ZYAN_SUCCESS(st)) *m = old;
        const int fired = cx.end();
        cx.ev(st); cx.log("    changing an inner container of kind %d -> %08x (faults %d)", m->kind, st, fired);
        ok = ZYAN_SUCCESS(st);
        if (full) { cx.fault(F_BUFFER_FULL); if (ok) { cx.fail(T_BUFFER, "an inner container took more than its buffer holds"); throw Abandon(); } }
        else if (!ok && !fired && ZYAN_SUCCESS(g_ctor_status)) cx.fail(T_REFUSE, "changing an inner container failed with %08x without a reason", st);
        else if (!ok && shrink) cx.fail(T_REFUSE, "removing from an inner container failed with %08x", st);
        if (ok) cx.mutation();
        expect_dead(what, ok ? gone : std::vector<M>());
        verify(o, ok ? T_CONTENT : T_ATOMIC, "after changing an inner container");
        break;
    }
    case SWAP:
    {
        if (o.list || n < 2 || o.v.size == o.v.capacity) return false;
        const size_t j = (size_t)t.a[2] % n;
        cx.begin(mask); st = ZyanVectorSwapElements(&o.v, i, j);
        if ((ok = judge(o, what, st, n, false))) std::swap(o.m[i], o.m[j]);
        expect_dead(what, {});
        break;
    }
    case FIND: case BSEARCH:
    {
        if (o.list || !n) return false;
        static Elem k; memset(&k, 0, sizeof k); k.magic = KEY;
        k.id = t.a[3] % 3 ? o.m[i].id : g_id + 1 + (u32)(t.a[3] % 50);
        if (t.op == FIND)
        {
            ZyanISize f = -7; cx.begin(mask); st = ZyanVectorFind(&o.v, &k, &f, eq_elem); cx.end(); cx.ev(st); cx.ev((u64)f);
            ZyanISize want = -1; for (size_t j = 0; j < n; ++j) if (o.m[j].id == k.id) { want = (ZyanISize)j; break; }
            if (st != (want >= 0 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) || f != want) cx.fail(T_CONTENT, "find answers %08x, position %lld, expected position %lld", st, (ll)f, (ll)want);
        } else
        {
            for (size_t j = 1; j < n; ++j) if (o.m[j - 1].id > o.m[j].id) return false;
            ZyanUSize f = 777; cx.begin(mask); st = ZyanVectorBinarySearch(&o.v, &k, &f, cmp_elem); cx.end(); cx.ev(st); cx.ev(f);
            size_t want = 0; while (want < n && o.m[want].id < k.id) ++want;
            if (st != (want < n && o.m[want].id == k.id ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) || f != want) cx.fail(T_CONTENT, "binary search answers %08x, position %zu, expected position %zu", st, (size_t)f, want);
            probe("nested_binary_search");
        }
        expect_dead(what, {});
        return false;
    }
    }
    return !ok && cx.injected > 0;
}

u64 shape(const M& m, int depth = 0)
{
    u64 h = mix64((u64)m.kind * 64 + (u64)m.al * 8 + (u64)depth + (m.kind == K_STR ? (m.text.size() > 6) * 512 : std::min<size_t>(m.nums.size() + m.bits.size() / 8, 7) * 512));
    for (auto& s : m.sub) h = mix64(h ^ shape(s, depth + 1));
    return h;
}
void exec(const Plan& p)
{
    for (int i = 0; i < MAXOUT; ++i) { g[i] = Outer(); sa_init(&g[i].al, i + 1); }
    sa_init(&g_inner, INNER_OWNER);
    g_id = 0; g_chatter = (int)p.get("chatter", 1);
    pool = Pool(); ZyanAllocatorInit(&pool.a, pool_alloc, pool_realloc, pool_free);
    pool.mem = sim_buffer(SLOTS * SLOTSZ); pool.bits = sim_buffer(SLOTS / 8);
    if (!ZYAN_SUCCESS(ZyanBitsetInitBuffer(&pool.used, SLOTS, pool.bits, SLOTS / 8))) throw Abandon();
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& t = p.steps[k];
        cx.step = (int)k;
        cx.log("#%zu %s %lld %lld %lld %lld %lld %lld f=%x", k, names[t.op], t.a[0], t.a[1], t.a[2], t.a[3], t.a[4], t.a[5], t.f);
        if (op(t, t.f) && t.retry) { cx.log("  again, without faults"); probe("retry_after_fault"); op(t, 0); }
        u64 sig = 0;
        for (auto& o : g)
        {
            verify(o, T_CONTENT, "after the step");
            if (o.live) { sig = mix64(sig ^ (u64)(o.list * 4 + o.kind)); for (auto& m : o.m) sig = mix64(sig ^ shape(m)); cx.ev(o.m.size()); if (o.m.size() && o.m[0].sub.size() && o.m[0].sub[0].sub.size()) probe("three_levels"); }
        }
        cx.state(sig);
        books("after the step");
        if (cx.take_muted()) throw Abandon();
    }
    cx.step = (int)p.steps.size();
    for (auto& o : g) destroy(o);
    books("after destroying everything");
}

void gen(Rng& r, Plan& p)
{
    p.cfg["move"] = r.pick({100, 100, 50, 0});
    p.cfg["faultkind"] = r.pick({0, 0, 0, 1, 2});
    p.cfg["chatter"] = r.chance(3, 4);
    if (r.chance(1, 12)) p.cfg["mem"] = r.pick({1500, 5000, 20000});
    int cls = (int)r.below(5);
    if (cls == 4 && r.chance(2, 3)) cls = 2;
    const int nout = r.chance(1, 2) ? 1 : (int)r.range(2, MAXOUT);
    auto alloc = [&]() -> ll { ll a = (ll)r.pick({A_SIM, A_SIM, A_POOL, A_HEAP, A_INLINE}); return zsim_nolibc && a == A_HEAP ? A_SIM : a; };
    auto add = [&](int op, ll a, ll b = 0, ll c = 0, ll d = 0, ll e = 0, ll f = 0) { Step s; s.op = op; s.a[0] = a; s.a[1] = b; s.a[2] = c; s.a[3] = d; s.a[4] = e; s.a[5] = f; p.steps.push_back(s); };
    auto init = [&](ll slot) { add(INIT, slot, (ll)r.below(2) + 2 * alloc(), 0, (ll)r.below(60), (ll)r.below(60)); };
    for (int i = 0; i < nout; ++i) init(i);
    const ll mara = std::min<ll>(marathon(r), 24000);
    int w[NOPS];
    for (int i = 0; i < NOPS; ++i) w[i] = (int)r.below(4);
    w[INIT] = w[DESTROY] = r.chance(1, 4); w[CLEAR] = r.chance(1, 2); w[CUT] = r.chance(1, 2); w[EMPB] += 4; w[PUSHB] += 1; w[INNER] += 3;
    const int kinds = (int)r.below(3);      // all kinds, mostly flat ones, mostly nested ones
    if (mara) favour(r, w, NOPS, {EMPB, EMPF, EMPAT, PUSHB}, {DEL, POPB, POPF});
    int tot = 0; for (int x : w) tot += x;
    const int n = (int)(mara ? mara / 4 : r.chance(1, 10) ? r.range(30, 80) : r.range(4, 26));
    for (int i = 0; i < n; ++i)
    {
        int x = (int)r.below((u64)tot), op = 0;
        while (x >= w[op]) x -= w[op++];
        const ll s = (ll)r.below((u64)nout);
        if (op == INIT) { init(s); continue; }
        const ll kind = kinds == 0 ? (ll)r.below(6) : kinds == 1 ? (ll)r.below(r.chance(1, 5) ? 6 : 4) : r.chance(2, 3) ? (ll)r.pick({K_SUB, K_LISTSUB}) : (ll)r.below(6);
        add(op, s, (ll)r.below(64), op == DEL ? (ll)r.below(4) : kind + 6 * alloc(), kind >= K_SUB ? (ll)r.below(5) : (ll)r.below(12), (ll)r.below(100000), r.chance(1, 14));
    }
    gen_faults(r, p, cls, 16);
}

}   // namespace
extern const Scenario scen_nest;
const Scenario scen_nest = {"nested", names, NOPS, gen, exec};
