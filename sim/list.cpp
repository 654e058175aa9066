// Lists: histories of operations under allocation and constructor faults, against a double-ended sequence.
#include "core.hpp"
#include <Zycore/List.h>
#include <algorithm>

namespace {

enum Op { INIT, DESTROY, PUSHB, PUSHF, EMPB, EMPF, POPB, POPF, REMOVE, REMRANGE, SET, CLEAR, RESIZE, RESIZEEX, WALK, NOPS };
const char* const names[NOPS] = {
    "init", "destroy", "push_back", "push_front", "emplace_back", "emplace_front", "pop_back", "pop_front", "remove",
    "remove_range", "set", "clear", "resize", "resize_ex", "walk" };

enum Kind { K_SIM, K_DEFAULT, K_BUFFER };
struct Item { std::string bytes; const ZyanListNode* node; };
struct Slot
{
    bool live = false;
    ZyanList l;
    int kind = K_SIM;
    size_t es = 1, bufbytes = 0, bufcap = 0;
    u8* buf = nullptr;
    bool dtor = false, huge = false;
    std::vector<Item> m;
    SimAlloc al;
};
const int MAXSLOT = 2;
Slot g[MAXSLOT];
size_t g_limit;     // items
std::vector<std::string> g_dlog;
size_t g_es;
std::string g_ctor_bytes;
ZyanStatus g_ctor_status;
int g_ctor_calls;

void dtor_cb(void* p) { g_dlog.push_back(std::string((const char*)p, g_es)); cx.ev(0xD7); }
ZyanStatus ctor_cb(void* p)
{
    ++g_ctor_calls;
    if (!ZYAN_SUCCESS(g_ctor_status)) { memset(p, 0xEE, g_es); cx.fault(F_CTOR_FAIL); return g_ctor_status; }
    memcpy(p, g_ctor_bytes.data(), g_es);
    return ZYAN_STATUS_SUCCESS;
}
std::string elem(size_t es, ll v)
{
    std::string s(es, 0);
    u64 h = mix64((u64)v);
    for (size_t i = 0; i < es; ++i) { if (i % 8 == 0) h = mix64(h + i); s[i] = (char)(h >> (8 * (i % 8))); }
    return s;
}
ZyanStatus oom(const Slot& s) { return s.kind == K_DEFAULT ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : cx.fault_status; }

void expect_dtor(const char* what, const std::vector<Item>& items, bool any)
{
    std::vector<std::string> want, got = g_dlog;
    if (any) for (auto& i : items) want.push_back(i.bytes);
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if (got != want) cx.fail(T_DTOR, "%s passed %zu items to the destructor, expected %zu%s", what, got.size(), want.size(), got.size() == want.size() ? ", different ones" : "");
    g_dlog.clear();
}

// the recycled nodes of a list on a fixed buffer; only to describe states
template <class L> auto recycled(const L& l, int) -> decltype((const ZyanListNode*)l.first_unused) { return (const ZyanListNode*)l.first_unused; }
template <class L> const ZyanListNode* recycled(const L&, long) { return nullptr; }
bool valid(const Slot& s, const ZyanListNode* n)
{
    if (s.kind == K_BUFFER)
    {
        const u8* p = (const u8*)n;
        return p >= s.buf && p < s.buf + s.bufbytes && sizeof(ZyanListNode) + s.es <= (size_t)(s.buf + s.bufbytes - p);
    }
    int ow; size_t gr;
    return sa_block(n, &ow, &gr) && ow == (s.kind == K_SIM ? s.al.id : HEAP_OWNER) && gr >= sizeof(ZyanListNode) + s.es;
}
// the nodes in forward order, as the accessors report them
std::vector<const ZyanListNode*> walk(Slot& s, int tag, const char* when, size_t limit)
{
    std::vector<const ZyanListNode*> f, b;
    for (int back = 0; back < 2; ++back)
    {
        const ZyanListNode* n = (const ZyanListNode*)&s;
        ZyanStatus st = back ? ZyanListGetTailNode(&s.l, &n) : ZyanListGetHeadNode(&s.l, &n);
        if (!ZYAN_SUCCESS(st)) { cx.fail(T_STATUS, "%s: access to the %s failed", when, back ? "tail" : "head"); throw Abandon(); }
        auto& v = back ? b : f;
        while (n)
        {
            if (!valid(s, n)) { cx.fail(tag, "%s: walking %s leads to memory that is not a node of the list", when, back ? "backward" : "forward"); throw Abandon(); }
            if (v.size() > limit) { cx.fail(tag, "%s: walking %s does not end after %zu items", when, back ? "backward" : "forward", limit); throw Abandon(); }
            v.push_back(n);
            st = back ? ZyanListGetPrevNode(&n) : ZyanListGetNextNode(&n);
            if (!ZYAN_SUCCESS(st)) { cx.fail(T_STATUS, "%s: access to a neighbour failed", when); throw Abandon(); }
        }
    }
    std::reverse(b.begin(), b.end());
    if (f != b) { cx.fail(tag, "%s: walking forward yields %zu items, backward %zu%s", when, f.size(), b.size(), f.size() == b.size() ? ", different ones" : ""); throw Abandon(); }
    auto d = f; std::sort(d.begin(), d.end());
    if (std::adjacent_find(d.begin(), d.end()) != d.end()) { cx.fail(tag, "%s: a node appears twice", when); throw Abandon(); }
    return f;
}
void verify(Slot& s, int tag, const char* when)
{
    if (!s.live) return;
    ZyanUSize n = 0;
    if (!ZYAN_SUCCESS(ZyanListGetSize(&s.l, &n))) cx.fail(T_STATUS, "GetSize failed");
    if (n != s.m.size()) { cx.fail(tag, "%s: size is %zu, expected %zu", when, (size_t)n, s.m.size()); return; }
    const auto v = walk(s, tag, when, s.m.size());
    if (v.size() != n) { cx.fail(tag, "%s: %zu items are linked, size is %zu", when, v.size(), (size_t)n); return; }
    for (size_t i = 0; i < v.size(); ++i)
    {
        const void* d = ZyanListGetNodeData(v[i]); const void* d2 = nullptr; void* d4 = nullptr;
        const void* d3 = ZyanListGetNodeDataMutable(v[i]);
        if (!ZYAN_SUCCESS(ZyanListGetNodeDataEx(v[i], &d2)) || !ZYAN_SUCCESS(ZyanListGetNodeDataMutableEx(v[i], &d4)) || !d || (const void*)&ZYAN_LIST_GET(u8, v[i]) != d || d != d2 || d != d3 || d != d4)
        {
            cx.fail(T_STATUS, "%s: accessors disagree about item %zu", when, i); throw Abandon();
        }
        if (s.m[i].node && s.m[i].node != v[i]) { cx.fail(tag, "%s: the node of item %zu of %zu was replaced by another", when, i, (size_t)n); }
        s.m[i].node = v[i];
        if (memcmp(d, s.m[i].bytes.data(), s.es)) { cx.fail(tag, "%s: item %zu of %zu is %s, expected %s", when, i, (size_t)n, hex(d, s.es).c_str(), hex(s.m[i].bytes.data(), s.es).c_str()); break; }
    }
}
void resync(Slot& s)
{
    if (!s.live) return;
    if (s.l.size > 200000) throw Abandon();
    const auto v = walk(s, 0, "resync", s.l.size);
    if (v.size() != s.l.size) throw Abandon();
    s.m.clear();
    for (auto* n : v) s.m.push_back(Item{std::string((const char*)ZyanListGetNodeData(n), s.es), n});
}
void leak_check(const char* when)
{
    size_t heap = 0;
    for (auto& s : g)
    {
        const size_t want = s.live && s.kind == K_SIM ? s.m.size() : 0, got = (size_t)sa_live(s.al.id);
        if (got != want) cx.fail(T_LEAK, "%s: %zu blocks of the list's allocator are in use, expected %zu", when, got, want);
        heap += s.live && s.kind == K_DEFAULT ? s.m.size() : 0;
    }
    if ((size_t)sa_live(HEAP_OWNER) != heap) cx.fail(T_LEAK, "%s: %d heap blocks are in use, expected %zu", when, sa_live(HEAP_OWNER), heap);
}
void destroy(Slot& s)
{
    if (!s.live) return;
    g_es = s.es; g_dlog.clear();
    const ZyanStatus st = ZyanListDestroy(&s.l);
    s.live = false;
    cx.ev(st);
    if (!ZYAN_SUCCESS(st)) cx.fail(T_REFUSE, "destroy failed with %08x", st);
    expect_dtor("destroy", s.m, s.dtor);
    s.m.clear();
}
// how many items a new list on such a buffer holds
size_t measure(const Slot& s)
{
    ZyanList l; size_t n = 0;
    const std::string e = elem(s.es, 1);
    if (!ZYAN_SUCCESS(ZyanListInitCustomBuffer(&l, s.es, nullptr, sim_buffer(s.bufbytes), s.bufbytes))) { cx.fail(T_REFUSE, "init on a buffer failed"); throw Abandon(); }
    while (n < 200000 && ZYAN_SUCCESS(ZyanListPushBack(&l, e.data()))) ++n;
    const size_t fit = s.bufbytes / (sizeof(ZyanListNode) + s.es);
    if (n != fit) cx.fail(T_BUFFER, "a new list accepts %zu items in a buffer with room for %zu", n, fit);
    return n;
}

struct Pre { size_t size; u64 req; };

bool judge(Slot& s, const char* what, ZyanStatus st, const Pre& b, size_t need, bool refuse, bool removal)
{
    const int fired = cx.end();
    cx.ev(st);
    cx.log("    %s -> %08x (faults %d) size %zu->%zu", what, st, fired, b.size, (size_t)s.l.size);
    const bool ok = ZYAN_SUCCESS(st);
    if (refuse)
    {
        cx.fault(F_OUT_OF_RANGE);
        if (ok) { cx.fail(T_STATUS, "%s accepted on an empty list", what); resync(s); return false; }
    } else if (s.kind == K_BUFFER && need > s.bufcap)
    {
        cx.fault(F_BUFFER_FULL);
        if (ok) { cx.fail(T_BUFFER, "%s accepted %zu items in a buffer for %zu", what, need, s.bufcap); throw Abandon(); }
        if (st != ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE) cx.fail(T_BUFFER, "%s failed with %08x on a full buffer", what, st);
    } else if (!ok)
    {
        if (removal) cx.fail(T_REFUSE, "%s failed with %08x although it needs no memory", what, st);
        else if (!fired) cx.fail(T_REFUSE, "%s failed with %08x without a reason (size %zu)", what, st, b.size);
        else if (cx.starved(65536 + 4 * (need + 1) * (s.es + 64))) cx.fail(T_REFUSE, "%s used up %zu bytes of memory for %zu items", what, cx.room, need);
        else if (st != oom(s)) cx.fail(T_REFUSE, "%s failed with %08x for want of memory, expected %08x", what, st, oom(s));
    }
    if (s.kind == K_BUFFER && cx.requests != b.req) cx.fail(T_BUFFER, "%s allocated memory for a list on a fixed buffer", what);
    if (!ok)
    {
        verify(s, T_ATOMIC, (std::string("after failed ") + what).c_str());
        expect_dtor(what, {}, false);
    } else if (!refuse) cx.mutation();
    return ok;
}

bool op(const Step& t, u32 mask)
{
    Slot& s = g[(size_t)t.a[0] % MAXSLOT];
    cx.begin(0); g_dlog.clear(); g_ctor_calls = 0; g_ctor_status = ZYAN_STATUS_SUCCESS;
    ZyanStatus st;
    if (t.op == INIT)
    {
        destroy(s);
        s.kind = (int)(t.a[1] % 3); s.es = (size_t)t.a[2]; s.dtor = t.a[4] & 1; s.huge = false;
        memset(&s.l, 0xCC, sizeof s.l);
        const u64 rq = cx.requests;
        if (t.a[4] & 2)
        {
            // items whose size can not be represented together with the node header
            // (or only without bits that a narrower type would cut off)
            const size_t es = (t.a[4] & 8 ? 1ull << 32 : ~(size_t)0) - (size_t)t.a[3] % sizeof(ZyanListNode);
            ZyanList l; void* p = nullptr;
            u8* b = sim_buffer(64);
            cx.begin(0);
            st = s.kind == K_BUFFER ? ZyanListInitCustomBuffer(&l, es, nullptr, b, 64) : s.kind == K_DEFAULT ? ZyanListInit(&l, es, nullptr) : ZyanListInitEx(&l, es, nullptr, &s.al.a);
            if (ZYAN_SUCCESS(st))
            {
                st = (t.a[4] & 4) ? ZyanListEmplaceBack(&l, &p, nullptr) : ZyanListResize(&l, 1);
                if (ZYAN_SUCCESS(st)) { cx.fail(T_ALLOC, "a list claims to have memory for an item of %zu bytes", es); throw Abandon(); }
            }
            cx.fault(F_ABSURD_SIZE);
            cx.end(); cx.ev(st);
            return false;
        }
        if (s.kind == K_BUFFER)
        {
            const size_t node = sizeof(ZyanListNode) + s.es;
            s.bufbytes = (size_t)(t.a[3] < 0 ? -t.a[3] : t.a[3]) % 200000 * node + (size_t)t.a[5] % node;
            if (!s.bufbytes) s.bufbytes = node;
            s.bufcap = measure(s);
            s.buf = sim_buffer(s.bufbytes);
            cx.begin(mask);
            st = ZyanListInitCustomBuffer(&s.l, s.es, s.dtor ? dtor_cb : nullptr, s.buf, s.bufbytes);
        } else { cx.begin(mask); st = s.kind == K_DEFAULT ? ZyanListInit(&s.l, s.es, s.dtor ? dtor_cb : nullptr) : ZyanListInitEx(&s.l, s.es, s.dtor ? dtor_cb : nullptr, &s.al.a); }
        const int fired = cx.end(); cx.ev(st);
        cx.log("    init kind %d es %zu room for %zu -> %08x", s.kind, s.es, s.bufcap, st);
        if (s.kind == K_BUFFER && cx.requests != rq) cx.fail(T_BUFFER, "init on a buffer allocated memory");
        if (ZYAN_SUCCESS(st)) { s.live = true; cx.mutation(); return false; }
        if (!fired || s.kind == K_BUFFER) cx.fail(T_REFUSE, "init failed with %08x without a reason", st);
        return cx.injected > 0;
    }
    if (!s.live) return false;
    g_es = s.es;
    const size_t n = s.m.size(), es = s.es;
    const Pre b = {n, cx.requests};
    const char* what = names[t.op];
    bool ok = false;
    if (n > g_limit && t.op != DESTROY && t.op != CLEAR) return false;
    switch (t.op)
    {
    case DESTROY: destroy(s); return false;
    case PUSHB: case PUSHF:
    {
        const std::string e = elem(es, t.a[1]);
        char* src = (char*)malloc(es); memcpy(src, e.data(), es);
        cx.begin(mask); st = t.op == PUSHB ? ZyanListPushBack(&s.l, src) : ZyanListPushFront(&s.l, src);
        free(src);
        if ((ok = judge(s, what, st, b, n + 1, false, false))) { s.m.insert(t.op == PUSHB ? s.m.end() : s.m.begin(), Item{e, nullptr}); expect_dtor(what, {}, false); }
        break;
    }
    case EMPB: case EMPF:
    {
        const std::string e = elem(es, t.a[1]);
        const int mode = (int)(t.a[2] % 3);
        g_ctor_bytes = e; g_ctor_status = mode == 2 ? ZYAN_STATUS_INVALID_OPERATION : ZYAN_STATUS_SUCCESS;
        void* el = nullptr;
        cx.begin(mask);
        st = t.op == EMPB ? ZyanListEmplaceBack(&s.l, &el, mode ? ctor_cb : nullptr) : ZyanListEmplaceFront(&s.l, &el, mode ? ctor_cb : nullptr);
        if (mode == 2 && g_ctor_calls)
        {
            cx.end(); cx.ev(st); cx.log("    %s with failing constructor -> %08x", what, st);
            if (g_ctor_calls != 1) cx.fail(T_STATUS, "%s called the constructor %d times", what, g_ctor_calls);
            if (ZYAN_SUCCESS(st)) { cx.fail(T_REFUSE, "%s succeeded although the constructor failed", what); resync(s); return false; }
            if (st != g_ctor_status) cx.fail(T_REFUSE, "%s failed with %08x, the constructor with %08x", what, st, g_ctor_status);
            verify(s, T_ATOMIC, "after a failed constructor");
            expect_dtor(what, {}, false);
            return false;
        }
        if ((ok = judge(s, what, st, b, n + 1, false, false)))
        {
            if (mode == 2) { cx.fail(T_STATUS, "%s did not call the constructor", what); resync(s); return false; }
            if (mode == 1 && g_ctor_calls != 1) cx.fail(T_STATUS, "%s called the constructor %d times", what, g_ctor_calls);
            const ZyanListNode* nn = nullptr;
            st = t.op == EMPB ? ZyanListGetTailNode(&s.l, &nn) : ZyanListGetHeadNode(&s.l, &nn);
            if (!ZYAN_SUCCESS(st) || !nn || !valid(s, nn)) { cx.fail(T_CONTENT, "%s left no node at the end", what); throw Abandon(); }
            if (ZyanListGetNodeData(nn) != el) { cx.fail(T_CONTENT, "%s returned a pointer that is not the new item", what); throw Abandon(); }
            if (!mode) memcpy(el, e.data(), es);
            s.m.insert(t.op == EMPB ? s.m.end() : s.m.begin(), Item{e, nullptr});
            expect_dtor(what, {}, false);
        }
        break;
    }
    case POPB: case POPF: case REMOVE: case REMRANGE: case CLEAR:
    {
        size_t i = 0, k = n;
        if (t.op == POPB) { i = n ? n - 1 : 0; k = n ? 1 : 0; }
        else if (t.op == POPF) k = n ? 1 : 0;
        else if (t.op == REMOVE || t.op == REMRANGE)
        {
            if (!n) return false;
            i = (size_t)t.a[1] % n; k = t.op == REMOVE ? 1 : 1 + (size_t)t.a[2] % (n - i);
            if (t.op == REMRANGE && t.a[3]) k = n - i;
            if (!s.m[i].node || !s.m[i + k - 1].node) return false;
        }
        cx.begin(mask);
        switch (t.op)
        {
        case POPB: st = ZyanListPopBack(&s.l); break;
        case POPF: st = ZyanListPopFront(&s.l); break;
        case REMOVE: st = ZyanListRemove(&s.l, s.m[i].node); break;
        case REMRANGE: st = ZyanListRemoveRange(&s.l, s.m[i].node, s.m[i + k - 1].node); break;
        default: st = ZyanListClear(&s.l); break;
        }
        if ((ok = judge(s, what, st, b, n, (t.op == POPB || t.op == POPF) && !n, true)))
        {
            std::vector<Item> gone(s.m.begin() + (long)i, s.m.begin() + (long)(i + k));
            s.m.erase(s.m.begin() + (long)i, s.m.begin() + (long)(i + k));
            expect_dtor(what, gone, s.dtor);
        }
        break;
    }
    case SET:
    {
        if (!n) return false;
        const size_t i = (size_t)t.a[1] % n;
        if (!s.m[i].node) return false;
        const std::string e = elem(es, t.a[2]);
        cx.begin(mask); st = ZyanListSetNodeData(&s.l, s.m[i].node, e.data());
        if ((ok = judge(s, what, st, b, n, false, true))) { const Item old = s.m[i]; s.m[i].bytes = e; expect_dtor(what, {old}, s.dtor); }
        break;
    }
    case RESIZE: case RESIZEEX:
    {
        size_t k = t.a[5] ? (size_t)t.a[5] : (size_t)t.a[1] % 40;
        if (t.a[4]) { const ll d = (ll)n + (t.a[1] % 9) - 4; k = d < 0 ? 0 : (size_t)d; }
        if (t.a[1] > 1000 && s.kind == K_BUFFER) k = t.a[1] == 1001 ? ~(size_t)0 : ~(size_t)0 / 2;
        const std::string e = elem(es, t.a[2]);
        const bool init = t.op == RESIZEEX && t.a[3];
        cx.begin(mask);
        st = t.op == RESIZE ? ZyanListResize(&s.l, k) : ZyanListResizeEx(&s.l, k, init ? e.data() : nullptr);
        if ((ok = judge(s, what, st, b, std::max(k, n), false, k <= n)))
        {
            std::vector<Item> gone;
            while (s.m.size() > k) { gone.push_back(s.m.back()); s.m.pop_back(); }
            if (k > n)
            {
                const auto v = walk(s, T_CONTENT, "after growing", k);
                if (v.size() != k) { cx.fail(T_CONTENT, "%zu items are linked after resizing to %zu", v.size(), k); break; }
                for (size_t i = n; i < k; ++i)
                {
                    if (!init) memcpy(ZyanListGetNodeDataMutable(v[i]), elem(es, t.a[2] + (ll)i).data(), es);
                    s.m.push_back(Item{init ? e : elem(es, t.a[2] + (ll)i), nullptr});
                }
            }
            expect_dtor(what, gone, s.dtor);
        }
        break;
    }
    case WALK:
    {
        // changes an item in place
        const auto v = walk(s, T_CONTENT, "walking", n);
        if (v.size() == n && n)
        {
            const size_t i = (size_t)t.a[1] % n; const std::string e = elem(es, t.a[2]);
            memcpy(ZyanListGetNodeDataMutable(v[i]), e.data(), es); s.m[i].bytes = e;
        }
        const ZyanListNode* nul = nullptr;
        if (ZYAN_SUCCESS(ZyanListGetNextNode(&nul)) || ZYAN_SUCCESS(ZyanListGetPrevNode(&nul))) cx.fail(T_STATUS, "walking beyond the end is accepted");
        if (cx.requests != b.req) cx.fail(T_ALLOC, "walking allocated memory");
        return false;
    }
    }
    return !ok && cx.injected > 0 && s.kind != K_BUFFER;
}

void exec(const Plan& p)
{
    g_limit = (size_t)p.get("limit", 300);
    for (int i = 0; i < MAXSLOT; ++i) { g[i] = Slot(); sa_init(&g[i].al, i + 1); }
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& t = p.steps[k];
        cx.step = (int)k;
        cx.log("#%zu %s %lld %lld %lld %lld %lld f=%x", k, names[t.op], t.a[0], t.a[1], t.a[2], t.a[3], t.a[4], t.f);
        if (op(t, t.f) && t.retry)
        {
            cx.log("  again, without faults");
            probe("retry_after_fault");
            op(t, 0);
        }
        for (auto& s : g)
        {
            verify(s, T_CONTENT, "after the step");
            if (s.live)
            {
                // the order of the nodes in the buffer and of the recycled ones is part of the state
                u64 sig = (u64)s.kind | s.es << 2 | (u64)s.dtor << 9 | (u64)s.bufcap << 10;
                for (auto& i : s.m) sig = mix64(sig ^ (s.kind == K_BUFFER && i.node ? (u64)((const u8*)i.node - s.buf) : 1));
                if (s.kind == K_BUFFER)
                {
                    size_t guard = 0;
                    for (const ZyanListNode* u = recycled(s.l, 0); u && valid(s, u) && guard++ < 64; u = u->next) sig = mix64(sig ^ (u64)((const u8*)u - s.buf) ^ 0xF0000);
                    if (recycled(s.l, 0)) probe("recycled_nodes_present");
                }
                cx.state(sig); cx.ev(s.m.size());
            }
        }
        leak_check("after the step");
        if (cx.take_muted()) for (auto& s : g) resync(s);
    }
    cx.step = (int)p.steps.size();
    // a list on a buffer still holds as many items as it could when it was new
    for (auto& s : g)
        if (s.live && s.kind == K_BUFFER && p.get("fill"))
            while (s.m.size() <= s.bufcap)
            {
                const Pre b = {s.m.size(), cx.requests};
                const std::string e = elem(s.es, (ll)s.m.size());
                g_es = s.es; g_dlog.clear();
                cx.begin(0);
                const ZyanStatus st = (p.get("fill") & 1) ? ZyanListPushBack(&s.l, e.data()) : ZyanListPushFront(&s.l, e.data());
                if (!judge(s, "final push", st, b, s.m.size() + 1, false, false)) break;
                s.m.insert((p.get("fill") & 1) ? s.m.end() : s.m.begin(), Item{e, nullptr});
                verify(s, T_CONTENT, "after the final push");
            }
    cx.begin(0);
    for (auto& s : g) destroy(s);
    cx.end();
    leak_check("after destroying everything");
}

void gen(Rng& r, Plan& p)
{
    const std::string& id = p.prop;
    p.cfg["faultkind"] = 0;
    p.cfg["oom_status"] = r.chance(1, 4);
    p.cfg["fill"] = (ll)r.below(3);
    const bool big = r.chance(1, 40);       // hundreds of items
    const bool vast = big && id != "C15" && r.chance(1, 24);     // more than 16 bits can count; in one buffer
    if (big) p.cfg["limit"] = vast ? 80000 : 900;
    if (vast) p.cfg["fill"] = 0;
    if (r.chance(1, 6)) p.cfg["mem"] = big ? r.pick({2000, 5000, 20000}) : r.pick({100, 300, 1000});
    int kw[3] = {6, 2, 4};
    int cls = (int)r.below(5);
    if (cls == 4 && r.chance(1, 2)) cls = 2;
    if (id == "C09") { kw[0] = 6; kw[1] = 1; kw[2] = 4; cls = r.pick({0, 1, 1, 2, 3}); }
    if (id == "C10") { kw[2] = 7; cls = r.pick({1, 2, 2, 3, 4}); }
    if (id == "C05") { kw[0] = 0; kw[1] = 0; kw[2] = 1; }
    if (id == "C15") { kw[0] = 0; kw[1] = 1; kw[2] = 0; }
    if (zsim_nolibc) { kw[1] = 0; if (!kw[0] && !kw[2]) kw[0] = 1; }
    if (vast) { kw[0] = kw[1] = 0; kw[2] = 1; }
    const int nslots = vast || r.chance(2, 3) ? 1 : MAXSLOT;
    const bool wide = !big && r.chance(1, 12);      // items whose size does not fit into 8 bits, or not into 16
    const bool wider = wide && r.chance(1, 5);
    if (wide) p.cfg["limit"] = wider ? 20 : 150;
    const size_t es0 = wider ? r.pick({32767, 32768, 65495, 65496, 65535, 65536, 65537, 70000}) : wide ? r.pick({127, 128, 129, 215, 216, 255, 256, 257, 300, 511, 512, 1000, 4096}) : vast ? r.pick({1, 2, 4}) : r.pick({1, 2, 3, 4, 8, 8, 8, 12, 16, 24, 40});
    const bool dt = r.chance(id == "C03" ? 14 : 8, 16);
    auto add = [&](int op, ll a, ll b = 0, ll c = 0, ll d = 0, ll e = 0, ll f = 0) { Step s; s.op = op; s.a[0] = a; s.a[1] = b; s.a[2] = c; s.a[3] = d; s.a[4] = e; s.a[5] = f; p.steps.push_back(s); };
    auto init = [&](int slot)
    {
        u64 x = r.below((u64)(kw[0] + kw[1] + kw[2]));
        const int kind = x < (u64)kw[0] ? 0 : x < (u64)(kw[0] + kw[1]) ? 1 : 2;
        const bool huge = (id == "C15" || id == "C04") && r.chance(1, 12);
        add(INIT, slot, kind, (ll)(!vast && r.chance(1, 4) ? (size_t)r.range(1, 40) : es0), vast ? r.range(65530, 70000) : (ll)r.range(1, big ? 600 : r.chance(1, 4) ? 19 : 6), dt | (huge ? 2 : 0) | (ll)(r.below(4) << 2), r.chance(1, 2) ? 0 : (ll)r.below(56));
    };
    for (int i = 0; i < nslots; ++i) init(i);
    if (vast) add(RESIZEEX, 0, 0, (ll)r.below(1000), 1, 0, r.range(65500, 70000));
    const ll mara = marathon(r);
    const int n = (int)(vast ? r.range(3, 9) : big ? r.range(4, 16) : mara ? (wide ? mara / 8 : mara) : r.chance(1, 8) ? r.range(40, 140) : r.range(4, 40));
    int w[NOPS];
    for (int i = 0; i < NOPS; ++i) w[i] = (int)r.below(4);
    w[PUSHB] += 2; w[PUSHF] += 1; w[INIT] = r.chance(1, 3); w[DESTROY] = r.chance(1, 4); w[CLEAR] = r.chance(1, 2);
    w[RESIZE] = (int)r.below(3); w[RESIZEEX] = (int)r.below(2); w[WALK] = r.chance(1, 2);
    if (big) { w[RESIZE] += 3; w[RESIZEEX] += 3; w[REMRANGE] += 3; }
    if (mara) favour(r, w, NOPS, {PUSHB, PUSHF, EMPB, EMPF}, {POPB, POPF, REMOVE, REMRANGE});
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < n; ++i)
    {
        int x = (int)r.below((u64)tot), op = 0;
        while (x >= w[op]) x -= w[op++];
        const ll s = (ll)r.below((u64)nslots), v = (ll)r.below(1000);
        switch (op)
        {
        case INIT: init((int)s); break;
        case EMPB: case EMPF: add(op, s, v, (ll)r.below(3)); break;
        case REMOVE: case WALK: case SET: add(op, s, (ll)r.below(big ? 1 << 16 : 64), v); break;
        case REMRANGE: add(op, s, (ll)r.below(big ? 1 << 16 : 64), (ll)r.below(vast ? 70000 : big ? 400 : 8), r.chance(1, 5)); break;
        case RESIZE: case RESIZEEX: add(op, s, r.chance(1, 16) ? 1001 + (ll)r.below(2) : (ll)r.below(r.chance(1, 2) ? 40 : 12), v, r.chance(1, 2), big ? 0 : r.chance(1, 2), vast ? (r.chance(1, 2) ? r.range(65500, 66000) : r.range(1, 70000)) : big && r.chance(2, 3) ? (ll)r.range(1, 700) : 0); break;
        default: add(op, s, v); break;
        }
    }
    gen_faults(r, p, cls, 8);
}

}   // namespace
extern const Scenario scen_list;
const Scenario scen_list = {"list", names, NOPS, gen, exec};
