// Strings, views and formatting: histories of operations under allocation and formatter faults, against std::string.
#include "core.hpp"
#include <Zycore/Format.h>
#include <Zycore/String.h>
#include <algorithm>
#include <climits>

extern "C" const ZyanStringView zsim_views[4];

namespace {

enum Op
{
    INIT, DESTROY, DUP, CONCAT, SETC, GETC, INSERT, INSERTEX, APPEND, APPENDEX, DEL, TRUNC, CLEAR, LPOS, RPOS, COMPARE,
    CASE, RESIZE, RESERVE, SHRINK, VIEW, FILL, FORMAT, DECU, DECS, HEXU, HEXS, NOPS
};
const char* const names[NOPS] = {
    "init", "destroy", "duplicate", "concat", "set_char", "get_char", "insert", "insert_ex", "append", "append_ex",
    "delete", "truncate", "clear", "search_forward", "search_backward", "compare", "change_case", "resize", "reserve",
    "shrink_to_fit", "view", "fill", "append_format", "append_dec_u", "append_dec_s", "append_hex_u", "append_hex_s" };

enum Kind { K_SIM, K_DEFAULT, K_BUFFER };
struct Slot
{
    bool live = false;
    ZyanString s;
    int kind = K_SIM, gf = 2, thr = 4;
    size_t bufcap = 0;
    std::string m;
    SimAlloc al;
};
const int MAXSLOT = 3;
Slot g[MAXSLOT];
size_t g_limit;     // characters

const size_t MAXSZ = ~(size_t)0, MEM = 16u << 20;
size_t index_arg(ll c, size_t n)
{
    if (c >= 0) return n ? (size_t)c % n : 0;
    switch (c)
    {
    case -1: return MAXSZ;
    case -2: return n;
    case -3: return n + 1;
    case -4: return n + 2;
    case -5: return MAXSZ - 1;
    case -6: return MAXSZ / 2 + 1;
    // values that a narrower type would cut off
    case -7: return (1ull << 32) + n / 2;
    case -8: return (1ull << 32) + (n ? n - 1 : 0);
    case -9: return n + 0x10000;
    default: return n + 0x100;
    }
}
size_t size_arg(ll c)
{
    if (c >= 0) return (size_t)c;
    switch (c)
    {
    case -1: return MAXSZ;
    case -2: return MAXSZ - 1;
    case -3: return MAXSZ / 2 + 1;
    case -4: return MEM + 1;
    case -5: return MAXSZ - 3;
    case -6: return MAXSZ / 3;
    case -7: return (1ull << 32) + 3;
    case -8: return (1ull << 32) - 1;
    case -9: return (1ull << 31) + 2;
    default: return 1ull << 63;
    }
}
bool absurd(size_t n) { return n > MEM; }
ZyanStatus oom(const Slot& s) { return s.kind == K_DEFAULT ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : cx.fault_status; }

// text for a value; the alphabet is small, so that searches hit, and straddles the letter ranges
std::string text(ll v)
{
    static const char* const alpha[4] = { "aAbB", "ab", "azAZ@[`{09", "aA\x80\xC1\xE1\xFF kK" };
    u64 h = mix64((u64)v * 3 + 1);
    // values from 4000 on: long texts, from 8000 on: longer than 16 bits can count
    const size_t len = v >= 8000 ? 65530 + (h >> 16) % 2200 : v >= 4000 ? (h >> 16) % 1500 : (h >> 8) % 8 == 0 ? 0 : (h >> 8) % 8 < 6 ? (h >> 16) % 6 + 1 : (h >> 16) % 48;
    const size_t kind = (h >> 40) % 10;
    const char* al = alpha[kind % 4];
    const size_t na = strlen(al);
    std::string s(len, 0);
    for (size_t i = 0; i < len; ++i)
    {
        h = mix64(h + i);
        s[i] = kind == 9 ? (char)(h >> 32)                                   // any byte
            : kind == 8 ? ("%sdna5\n\t\\\"x\0")[h % 13]                        // conversions, escapes, zero bytes
            : al[h % na];
    }
    return s;
}

size_t slen(const Slot& s) { ZyanUSize n = 0; if (!ZYAN_SUCCESS(ZyanStringGetSize(&s.s, &n))) cx.fail(T_STATUS, "GetSize failed"); return n; }
size_t scap(const Slot& s) { ZyanUSize n = 0; if (!ZYAN_SUCCESS(ZyanStringGetCapacity(&s.s, &n))) cx.fail(T_STATUS, "GetCapacity failed"); return n; }

bool sane(const Slot& s)
{
    int ow; size_t gr;
    const ZyanVector& v = s.s.vector;
    if (!v.size || v.size > v.capacity || !v.data) return false;
    if (s.kind == K_BUFFER) return v.size <= s.bufcap;
    return sa_block(v.data, &ow, &gr) && v.size <= gr;
}
std::string show(const std::string& s) { return "'" + (s.size() > 40 ? s.substr(0, 40) + ".." : s) + "'"; }

void verify(Slot& s, int tag, const char* when)
{
    if (!s.live) return;
    const ZyanVector& v = s.s.vector;
    if (!v.size) { cx.fail(tag, "%s: the string lost its terminator", when); throw Abandon(); }
    const size_t n = slen(s), c = scap(s);
    if (c < n) { cx.fail(T_CAP, "%s: capacity %zu is less than the length %zu", when, c, n); if (!sane(s)) throw Abandon(); }
    if (s.kind == K_BUFFER)
    {
        if (c + 1 != s.bufcap) cx.fail(T_BUFFER, "%s: capacity %zu, the buffer holds %zu characters", when, c, s.bufcap - 1);
        if (n >= s.bufcap) throw Abandon();
    } else
    {
        int ow; size_t gr;
        if (!sa_block(v.data, &ow, &gr)) { cx.fail(T_ALLOC, "%s: the string uses memory it does not own", when); throw Abandon(); }
        if (ow != (s.kind == K_SIM ? s.al.id : HEAP_OWNER)) cx.fail(T_ALLOC, "%s: the string uses memory of another allocator", when);
        if (c + 1 > gr) cx.fail(T_ALLOC, "%s: capacity of %zu characters, but only %zu bytes were allocated", when, c, gr);
        if (c + 1 != gr) cx.fail(T_CAP, "%s: reported capacity of %zu characters, %zu bytes were granted", when, c, gr);
        if (n + 1 > gr) throw Abandon();
    }
    if (n != s.m.size()) { cx.fail(tag, "%s: length is %zu, expected %zu", when, n, s.m.size()); return; }
    const char* d = nullptr;
    if (!ZYAN_SUCCESS(ZyanStringGetData(&s.s, &d)) || !d) { cx.fail(T_STATUS, "GetData failed"); throw Abandon(); }
    if (memcmp(d, s.m.data(), n)) cx.fail(tag, "%s: text is %s, expected %s", when, show(std::string(d, n)).c_str(), show(s.m).c_str());
    if (d[n]) cx.fail(tag, "%s: the text is not zero-terminated", when);
}
void resync(Slot& s)
{
    if (!s.live) return;
    if (!sane(s)) throw Abandon();
    ((char*)s.s.vector.data)[s.s.vector.size - 1] = 0;
    s.m.assign((const char*)s.s.vector.data, s.s.vector.size - 1);
}
void leak_check(const char* when)
{
    int heap = 0;
    for (auto& s : g)
    {
        const int want = s.live && s.kind == K_SIM, got = sa_live(s.al.id);
        if (got != want) cx.fail(T_LEAK, "%s: %d blocks of the string's allocator are in use, expected %d", when, got, want);
        heap += s.live && s.kind == K_DEFAULT;
    }
    if (sa_live(HEAP_OWNER) != heap) cx.fail(T_LEAK, "%s: %d heap blocks are in use, expected %d", when, sa_live(HEAP_OWNER), heap);
}
void destroy(Slot& s)
{
    if (!s.live) return;
    const ZyanStatus st = ZyanStringDestroy(&s.s);
    s.live = false; s.m.clear();
    cx.ev(st);
    if (!ZYAN_SUCCESS(st)) cx.fail(T_REFUSE, "destroy failed with %08x", st);
}

// A view that is the source of an operation
struct Src
{
    ZyanStringView a, b;
    const ZyanStringView* p = nullptr;
    std::string t;
    char* mem = nullptr;
    Src() { memset(&a, 0xCC, sizeof a); memset(&b, 0xCC, sizeof b); }
    ~Src() { free(mem); }
    Src(const Src&) = delete;
    void exact(const std::string& s, bool nul) { mem = (char*)malloc(s.size() + nul ? s.size() + nul : 1); memcpy(mem, s.data(), s.size()); if (nul) mem[s.size()] = 0; }
    void ck(ZyanStatus st, const char* what)
    {
        if (!ZYAN_SUCCESS(st)) { cx.fail(T_STATUS, "%s failed with %08x", what, st); throw Abandon(); }
    }
    void check()
    {
        ZyanUSize n = 777; const char* d = nullptr;
        ck(ZyanStringViewGetSize(p, &n), "ViewGetSize"); ck(ZyanStringViewGetData(p, &d), "ViewGetData");
        if (n != t.size() || (n && memcmp(d, t.data(), n))) { cx.fail(T_CONTENT, "a view covers %zu characters, expected %s", (size_t)n, show(t).c_str()); throw Abandon(); }
    }
    void make(ll mode, ll v, const Slot* not_this)
    {
        t = text(v);
        const u64 h = mix64((u64)v + 99);
        switch (mode % 6)
        {
        case 4:
        {
            // views defined with the macro
            static const char* const txt[] = { "", "a", "bA", "aAb@a[" };
            p = &zsim_views[h % 4]; t = txt[h % 4];
            break;
        }
        case 0: t = t.c_str(); exact(t, true); ck(ZyanStringViewInsideBuffer(&a, mem), "ViewInsideBuffer"); p = &a; break;
        case 2:
        {
            Slot& o = g[h % MAXSLOT];
            if (o.live && &o != not_this) { p = ZYAN_STRING_TO_VIEW(&o.s); t = o.m; break; }
        }   // fall through
        case 1: plain(); break;
        case 3:
        {
            // inside of a longer text, no zero byte around
            const size_t pre = h % 4, post = (h >> 8) % 4;
            const std::string full = std::string(pre, 'a') + t + std::string(post, 'A');
            if (full.empty()) { plain(); break; }
            exact(full, false);
            ck(ZyanStringViewInsideBufferEx(&b, mem, full.size()), "ViewInsideBufferEx");
            ck(ZyanStringViewInsideViewEx(&a, &b, pre, t.size()), "ViewInsideViewEx"); p = &a;
            break;
        }
        default: plain(); b = a; memset(&a, 0xCC, sizeof a); ck(ZyanStringViewInsideView(&a, &b), "ViewInsideView"); p = &a; break;
        }
        check();
    }
    void plain()
    {
        exact(t, t.empty());
        ck(t.empty() ? ZyanStringViewInsideBuffer(&a, mem) : ZyanStringViewInsideBufferEx(&a, mem, t.size()), "ViewInsideBufferEx"); p = &a;
    }
};

struct Pre { size_t size, cap; const void* data; u64 req; };
Pre pre(const Slot& s) { return Pre{s.s.vector.size, s.s.vector.capacity, s.s.vector.data, cx.requests}; }

// need: characters the string has to hold; refusal: expected status of a refusal for range reasons (or 0)
bool judge(Slot& s, const char* what, ZyanStatus st, const Pre& b, size_t need, ZyanStatus refusal, bool removal, bool compound)
{
    const int fired = cx.end();
    const ZyanVector& v = s.s.vector;
    const bool huge = absurd(need);
    const size_t bytes = need == MAXSZ ? need : need + 1;
    cx.ev(st);
    cx.log("    %s -> %08x (faults %d) length %zu->%zu cap %zu->%zu", what, st, fired, b.size - 1, (size_t)v.size - 1, b.cap, (size_t)v.capacity);
    const bool ok = ZYAN_SUCCESS(st);
    if (refusal)
    {
        cx.fault(F_OUT_OF_RANGE);
        if (ok) { cx.fail(T_STATUS, "%s accepted arguments outside the string", what); resync(s); return false; }
        if (st != refusal) cx.fail(T_STATUS, "%s refused with %08x, expected %08x", what, st, refusal);
        if (cx.requests != b.req) cx.fail(T_ATOMIC, "%s allocated although it was refused", what);
    } else if (s.kind == K_BUFFER && bytes > s.bufcap)
    {
        cx.fault(F_BUFFER_FULL);
        if (ok) { cx.fail(T_BUFFER, "%s accepted %zu characters in a buffer of %zu", what, need, s.bufcap); throw Abandon(); }
        if (st != ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE && !(huge && st == ZYAN_STATUS_NOT_ENOUGH_MEMORY)) cx.fail(T_BUFFER, "%s failed with %08x on a full buffer", what, st);
    } else if (huge)
    {
        cx.fault(F_ABSURD_SIZE);
        if (ok) { cx.fail(T_ALLOC, "%s claims to have memory for %zu characters", what, need); throw Abandon(); }
        if (st != oom(s) && st != ZYAN_STATUS_NOT_ENOUGH_MEMORY) cx.fail(T_REFUSE, "%s failed with %08x for want of memory, expected %08x", what, st, oom(s));
    } else if (!ok)
    {
        if (removal) cx.fail(T_REFUSE, "%s failed with %08x although it needs no memory", what, st);
        else if (!fired) cx.fail(T_REFUSE, "%s failed with %08x without a reason (length %zu, capacity %zu, %zu needed)", what, st, b.size - 1, b.cap, bytes);
        else if (cx.starved(65536 + 4 * bytes * (size_t)std::max(s.gf, 2))) cx.fail(T_REFUSE, "%s used up %zu bytes of memory for %zu characters", what, cx.room, need);
        else if (st != oom(s)) cx.fail(T_REFUSE, "%s failed with %08x for want of memory, expected %08x", what, st, oom(s));
    }
    if (s.kind == K_BUFFER && cx.requests != b.req) cx.fail(T_BUFFER, "%s allocated memory for a string on a fixed buffer", what);
    if (!removal && bytes <= b.cap)
    {
        if (cx.requests != b.req) cx.fail(T_CAP, "%s used the allocator although the capacity %zu suffices for %zu", what, b.cap, bytes);
        if (v.data != b.data) cx.fail(T_CAP, "%s moved the text although the capacity %zu suffices for %zu", what, b.cap, bytes);
        if (v.capacity != b.cap) cx.fail(T_CAP, "%s changed the capacity %zu to %zu although it suffices", what, b.cap, (size_t)v.capacity);
    }
    if (s.thr == 0 && v.capacity < b.cap) cx.fail(T_CAP, "%s gave back capacity (%zu to %zu) although shrinking is disabled", what, b.cap, (size_t)v.capacity);
    if (!ok)
    {
        if (!compound && v.capacity != b.cap) cx.fail(T_ATOMIC, "failed %s changed the capacity from %zu to %zu", what, b.cap, (size_t)v.capacity);
        verify(s, T_ATOMIC, (std::string("after failed ") + what).c_str());
    } else if (!refusal) cx.mutation();
    return ok;
}

// judges the creation of a string with the given text and at least the given capacity
bool created(Slot& d, const char* what, ZyanStatus st, size_t cap, const std::string& t, u64 rq, bool empty_ok)
{
    const int fired = cx.end();
    const bool huge = absurd(std::max(cap, t.size()));
    cx.ev(st); cx.log("    %s kind %d cap %zu gf %d thr %d -> %08x (faults %d)", what, d.kind, cap, d.gf, d.thr, st, fired);
    const bool small = d.kind == K_BUFFER && d.bufcap < t.size() + 1;
    (void)empty_ok;
    if (d.kind == K_BUFFER && cx.requests != rq) cx.fail(T_BUFFER, "%s on a buffer allocated memory", what);
    if (ZYAN_SUCCESS(st))
    {
        if (small) { cx.fail(T_BUFFER, "%s accepted a buffer of %zu for %zu characters", what, d.bufcap, t.size()); throw Abandon(); }
        if (huge && d.kind != K_BUFFER) { cx.fail(T_ALLOC, "%s claims to have memory for %zu characters", what, cap); throw Abandon(); }
        d.live = true; d.m = t; cx.mutation();
        if (d.kind != K_BUFFER && scap(d) < cap) cx.fail(T_CAP, "%s with capacity %zu provides only %zu", what, cap, scap(d));
        return false;
    }
    if (small)
    {
        cx.fault(F_BUFFER_FULL);
        if (st != ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE) cx.fail(T_BUFFER, "%s on a small buffer failed with %08x", what, st);
        return false;
    }
    if (d.kind == K_BUFFER) { cx.fail(T_REFUSE, "%s on a buffer failed with %08x", what, st); return false; }
    if (huge)
    {
        cx.fault(F_ABSURD_SIZE);
        if (st != oom(d) && st != ZYAN_STATUS_NOT_ENOUGH_MEMORY) cx.fail(T_REFUSE, "%s failed with %08x for want of memory, expected %08x", what, st, oom(d));
        return false;
    }
    if (!fired) cx.fail(T_REFUSE, "%s failed with %08x without a reason", what, st);
    else if (st != oom(d)) cx.fail(T_REFUSE, "%s failed with %08x for want of memory, expected %08x", what, st, oom(d));
    return cx.injected > 0;
}
void set_kind(Slot& d, ll kind, ll policy)
{
    d.kind = (int)(kind % 3); d.gf = (int)(policy & 0xff); d.thr = (int)((policy >> 8) & 0xff);
    if (d.kind == K_DEFAULT) { d.gf = 2; d.thr = 4; }
    if (d.kind == K_BUFFER) { d.gf = 1; d.thr = 0; }
    memset(&d.s, 0xCC, sizeof d.s);
}

char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
char up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
std::string lows(std::string s) { for (char& c : s) c = low(c); return s; }

void search(Slot& s, const Step& t)
{
    Src hay, nee;
    const bool fwd = t.op == LPOS, ci = t.a[4] & 1, ex = t.a[4] & 2, inside = t.a[4] & 4;
    const size_t n0 = s.m.size();
    if (inside)
    {
        hay.p = ZYAN_STRING_TO_VIEW(&s.s); hay.t = s.m;
    } else
    {
        // a view of a part of the string
        const size_t i = index_arg(t.a[5] & 63, n0 + 1), k = n0 - i;
        const size_t len = k ? (size_t)(t.a[5] >> 6) % (k + 1) : 0;
        if (!ZYAN_SUCCESS(ZyanStringViewInsideViewEx(&hay.a, ZYAN_STRING_TO_VIEW(&s.s), i, len))) { cx.fail(T_STATUS, "view of [%zu,+%zu) of %zu refused", i, len, n0); return; }
        hay.p = &hay.a; hay.t = s.m.substr(i, len); hay.check();
    }
    if (t.a[4] & 8)
    {
        // the needle is a part of the haystack
        nee.t = hay.t.substr(hay.t.size() ? (size_t)t.a[1] % hay.t.size() : 0, (size_t)(t.a[1] >> 6) % 5);
        if (ci && (t.a[4] & 16)) for (char& c : nee.t) c = up(c);
        nee.plain();
        nee.check();
    } else nee.make(t.a[1], t.a[1], nullptr);
    const size_t n = hay.t.size();
    size_t idx, cnt;
    if (ex) { idx = index_arg(t.a[2], n + 1); cnt = t.a[3] >= 0 ? (size_t)t.a[3] % (fwd ? (idx <= n ? n - idx + 1 : 5) : (idx <= n ? idx + 1 : 5)) : index_arg(t.a[3], fwd ? (idx <= n ? n - idx : 3) : idx); }
    else { idx = fwd ? 0 : n; cnt = n; }
    ZyanISize at = 7777;
    ZyanStatus st;
    if (fwd) st = ex ? (ci ? ZyanStringLPosIEx : ZyanStringLPosEx)(hay.p, nee.p, &at, idx, cnt) : (ci ? ZyanStringLPosI : ZyanStringLPos)(hay.p, nee.p, &at);
    else st = ex ? (ci ? ZyanStringRPosIEx : ZyanStringRPosEx)(hay.p, nee.p, &at, idx, cnt) : (ci ? ZyanStringRPosI : ZyanStringRPos)(hay.p, nee.p, &at);
    cx.ev(st); cx.ev((u64)at); cx.log("    %s of %s in %s%s [%zu,%zu) -> %08x %lld", names[t.op], show(nee.t).c_str(), show(hay.t).c_str(), ci ? " ignoring case" : "", idx, cnt, st, (ll)at);
    const bool bad = fwd ? idx > n || cnt > n - idx : idx > n || cnt > idx;
    if (bad)
    {
        cx.fault(F_OUT_OF_RANGE);
        if (st != ZYAN_STATUS_OUT_OF_RANGE) cx.fail(T_STATUS, "%s at %zu, %zu in %zu characters answered %08x", names[t.op], idx, cnt, n, st);
        return;
    }
    const size_t lo = fwd ? idx : idx - cnt;
    std::string h = hay.t.substr(lo, cnt), q = nee.t;
    if (ci) { h = lows(h); q = lows(q); }
    ZyanISize want = -1;
    if (!q.empty())
    {
        const size_t f = fwd ? h.find(q) : h.rfind(q);
        if (f != std::string::npos) want = (ZyanISize)(f + lo);
    }
    if (want >= 0) probe("search_hit");
    if (st != (want >= 0 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE)) cx.fail(T_STATUS, "%s of %s in %s, range %zu+%zu answered %08x, expected index %lld", names[t.op], show(nee.t).c_str(), show(hay.t).c_str(), lo, cnt, st, (ll)want);
    else if (at != want) cx.fail(T_STATUS, "%s of %s in %s, range %zu+%zu found %lld, expected %lld", names[t.op], show(nee.t).c_str(), show(hay.t).c_str(), lo, cnt, (ll)at, (ll)want);
}

u64 number(ll v)
{
    const u64 h = mix64((u64)v + 5);
    switch (v % 6)
    {
    case 0: return h >> (h & 63);
    case 1: { u64 p = 1; for (u64 k = h % 20; k; --k) p *= 10; return p - (h >> 32) % 2; }
    case 2: return (1ull << (4 * (h % 16))) - (h >> 32) % 2;
    case 3: { const u64 sp[] = {0, 1, 9, 10, 99, 100, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, ~0ull, 1ull << 63, (1ull << 63) - 1}; return sp[h % 13]; }
    case 4: return h % 1000;
    default: return h;
    }
}
std::string numtext(u64 v, bool hex, bool upper, size_t pad)
{
    char b[32]; snprintf(b, sizeof b, hex ? upper ? "%llX" : "%llx" : "%llu", (unsigned long long)v);
    std::string s = b;
    return s.size() < pad ? std::string(pad - s.size(), '0') + s : s;
}
bool mem_eq_after(const Slot& s, size_t from, const std::string& t) { return s.s.vector.size == from + t.size() + 1 && !memcmp((const char*)s.s.vector.data + from, t.data(), t.size()); }

bool op(const Step& t, u32 mask, bool faults)
{
    Slot& s = g[(size_t)t.a[0] % MAXSLOT];
    cx.begin(0);
    ZyanStatus st;
    const char* what = names[t.op];
    if (t.op == INIT)
    {
        destroy(s); set_kind(s, t.a[1], t.a[4]);
        size_t cap = size_arg(t.a[3]);
        const u64 rq = cx.requests;
        if (s.kind == K_BUFFER)
        {
            s.bufcap = t.a[3] > 0 ? (size_t)t.a[3] : 1; cap = s.bufcap - 1;
            char* b = (char*)sim_buffer(s.bufcap);
            cx.begin(mask); st = ZyanStringInitCustomBuffer(&s.s, b, s.bufcap);
        } else if (s.kind == K_DEFAULT) { cx.begin(mask); st = ZyanStringInit(&s.s, cap); }
        else { cx.begin(mask); st = ZyanStringInitEx(&s.s, cap, &s.al.a, (ZyanU8)s.gf, (ZyanU8)s.thr); }
        return created(s, what, st, cap, "", rq, true);
    }
    if (t.op == DUP || t.op == CONCAT)
    {
        Src a, b;
        destroy(s);
        a.make(t.a[2] & 7, t.a[5], &s);
        std::string all = a.t;
        if (t.op == CONCAT) { b.make(t.a[2] >> 3 & 7, t.a[5] + 17, &s); all += b.t; }
        set_kind(s, t.a[1], t.a[4]);
        size_t cap = size_arg(t.a[3]);
        const u64 rq = cx.requests;
        if (s.kind == K_BUFFER)
        {
            s.bufcap = t.a[3] > 0 ? (size_t)t.a[3] : 1;
            if (t.a[3] & 1) s.bufcap = all.size() + 1 + (size_t)(t.a[3] & 6) / 2;       // around what is needed
            if ((t.a[3] & 3) == 3 && all.size()) s.bufcap = all.size();
            cap = s.bufcap - 1;
            char* m = (char*)sim_buffer(s.bufcap);
            cx.begin(mask);
            st = t.op == DUP ? ZyanStringDuplicateCustomBuffer(&s.s, a.p, m, s.bufcap) : ZyanStringConcatCustomBuffer(&s.s, a.p, b.p, m, s.bufcap);
        } else if (s.kind == K_DEFAULT) { cx.begin(mask); st = t.op == DUP ? ZyanStringDuplicate(&s.s, a.p, cap) : ZyanStringConcat(&s.s, a.p, b.p, cap); }
        else
        {
            cx.begin(mask);
            st = t.op == DUP ? ZyanStringDuplicateEx(&s.s, a.p, cap, &s.al.a, (ZyanU8)s.gf, (ZyanU8)s.thr)
                : ZyanStringConcatEx(&s.s, a.p, b.p, cap, &s.al.a, (ZyanU8)s.gf, (ZyanU8)s.thr);
        }
        const bool again = created(s, what, st, cap, all, rq, true);
        if (s.live) for (auto& o : g) if (&o != &s && o.live && o.s.vector.data == s.s.vector.data) cx.fail(T_CONTENT, "%s shares the storage of its source", what);
        return again;
    }
    if (!s.live) return false;
    const size_t n = s.m.size();
    const Pre b = pre(s);
    bool ok = false;
    if (n > g_limit && t.op != DESTROY && t.op != CLEAR && t.op != TRUNC && t.op != DEL && t.op != SHRINK) return false;
    switch (t.op)
    {
    case DESTROY: destroy(s); return false;
    case SETC:
    {
        const size_t i = index_arg(t.a[1], n);
        const char c = "aAbBzZ@[`{\x80\xFF"[(size_t)t.a[2] % 12];
        if (t.a[3] % 2)
        {
            char* p = nullptr;
            cx.begin(mask); st = ZyanStringGetCharMutable(&s.s, i, &p);
            if ((ok = judge(s, "get_char_mutable", st, b, n, i >= n ? ZYAN_STATUS_OUT_OF_RANGE : 0, false, false)))
            {
                if (!p || *p != s.m[i]) { cx.fail(T_CONTENT, "mutable access does not lead to character %zu", i); throw Abandon(); }
                *p = c; s.m[i] = c;
            }
        } else
        {
            cx.begin(mask); st = ZyanStringSetChar(&s.s, i, c);
            if ((ok = judge(s, what, st, b, n, i >= n ? ZYAN_STATUS_OUT_OF_RANGE : 0, false, false))) s.m[i] = c;
        }
        break;
    }
    case GETC:
    {
        Src v;
        const bool on_view = t.a[2] & 1;
        if (on_view) v.make(t.a[3], t.a[3], nullptr); else { v.p = ZYAN_STRING_TO_VIEW(&s.s); v.t = s.m; }
        const size_t i = index_arg(t.a[1], v.t.size());
        char c = 'x';
        st = ZyanStringGetChar(v.p, i, &c);
        cx.ev(st);
        if (i >= v.t.size()) { cx.fault(F_OUT_OF_RANGE); if (st != ZYAN_STATUS_OUT_OF_RANGE) cx.fail(T_STATUS, "character %zu of %zu: %08x", i, v.t.size(), st); }
        else if (!ZYAN_SUCCESS(st)) cx.fail(T_STATUS, "character %zu of %zu is refused: %08x", i, v.t.size(), st);
        else if (c != v.t[i]) cx.fail(T_CONTENT, "character %zu is %02x, expected %02x", i, (u8)c, (u8)v.t[i]);
        return false;
    }
    case INSERT: case INSERTEX: case APPEND: case APPENDEX:
    {
        Src v; v.make(t.a[2], t.a[3], &s);
        const bool ins = t.op == INSERT || t.op == INSERTEX, ex = t.op == INSERTEX || t.op == APPENDEX;
        size_t i = ins ? index_arg(t.a[1], n + 1) : n, si = 0, sn = v.t.size();
        if (ex)
        {
            si = index_arg(t.a[4], v.t.size() + 1);
            const size_t left = si <= v.t.size() ? v.t.size() - si : 1;
            sn = t.a[5] >= 0 ? (size_t)t.a[5] % (left + 1) : index_arg(t.a[5], left);
        }
        cx.begin(mask);
        switch (t.op)
        {
        case INSERT: st = ZyanStringInsert(&s.s, i, v.p); break;
        case INSERTEX: st = ZyanStringInsertEx(&s.s, i, v.p, si, sn); break;
        case APPEND: st = ZyanStringAppend(&s.s, v.p); break;
        default: st = ZyanStringAppendEx(&s.s, v.p, si, sn); break;
        }
        const bool bad = si > v.t.size() || sn > v.t.size() - si;
        if (i == n + 1)
        {
            // one behind the end: may be refused or be taken as the end
            if (st == ZYAN_STATUS_OUT_OF_RANGE) { judge(s, what, st, b, n, st, false, false); return false; }
            i = n;
        }
        if (!bad && !sn && i <= n)
        {
            // inserting nothing may be refused, or does nothing
            cx.end(); cx.ev(st); verify(s, T_CONTENT, "after inserting nothing");
            return false;
        }
        if ((ok = judge(s, what, st, b, bad ? n : n + sn, bad || i > n ? ZYAN_STATUS_OUT_OF_RANGE : 0, false, false))) s.m.insert(i, v.t, si, sn);
        break;
    }
    case FILL:
    {
        // as many characters as the reported capacity promises, and sometimes one more, in one or two pieces
        const size_t room = std::min(scap(s) - std::min(n, scap(s)), g_limit) + (t.a[1] == 1);
        for (int part = 0; part < 2; ++part)
        {
            Src v;
            const size_t done = s.m.size() - n, len = t.a[2] && !part ? room / 2 : room - done;
            if (!len) continue;
            v.t.assign(len, "aB"[part]); v.plain();
            const Pre bb = pre(s);
            cx.begin(mask);
            const bool front = part && t.a[1] == 2;
            st = front ? ZyanStringInsert(&s.s, 0, v.p) : ZyanStringAppend(&s.s, v.p);
            if (!(ok = judge(s, what, st, bb, s.m.size() + len, 0, false, false))) break;
            s.m.insert(front ? 0 : s.m.size(), v.t);
        }
        probe("filled_to_capacity");
        return false;
    }
    case DEL: case TRUNC: case CLEAR:
    {
        size_t i = t.op == CLEAR ? 0 : index_arg(t.a[1], n + 1), k = 0;
        if (t.op == DEL) k = t.a[2] >= 0 ? (size_t)t.a[2] % (i <= n ? n - i + 2 : 3) : index_arg(t.a[2], i <= n ? n - i : 1);
        else if (i <= n) k = n - i;
        const bool bad = i > n || k > n - i;
        cx.begin(mask);
        st = t.op == DEL ? ZyanStringDelete(&s.s, i, k) : t.op == TRUNC ? ZyanStringTruncate(&s.s, i) : ZyanStringClear(&s.s);
        if (!bad && !k && t.op != CLEAR) { cx.end(); cx.ev(st); verify(s, T_CONTENT, "after deleting nothing"); return false; }
        if ((ok = judge(s, what, st, b, n, bad ? ZYAN_STATUS_OUT_OF_RANGE : 0, true, false))) s.m.erase(i, k);
        break;
    }
    case LPOS: case RPOS: search(s, t); break;
    case COMPARE:
    {
        Src x, y;
        x.make(t.a[1], t.a[2], nullptr);
        if (t.a[3] & 1) { y.p = ZYAN_STRING_TO_VIEW(&s.s); y.t = s.m; }
        else if (t.a[3] & 2)
        {
            // nearly the same text
            y.t = x.t;
            if (!y.t.empty()) { char& c = y.t[(size_t)(t.a[3] >> 4) % y.t.size()]; c = (t.a[3] & 4) ? up(c) : (char)(c ^ 32 ^ ((t.a[3] & 8) ? 1 : 0)); if (!c) c = 'q'; }
            y.plain(); y.check();
        } else y.make(t.a[4], t.a[5], nullptr);
        for (int ci = 0; ci < 2; ++ci)
        {
            const std::string a = ci ? lows(x.t) : x.t, c = ci ? lows(y.t) : y.t;
            ZyanI32 r1 = 77, r2 = 77;
            const ZyanStatus s1 = (ci ? ZyanStringCompareI : ZyanStringCompare)(x.p, y.p, &r1), s2 = (ci ? ZyanStringCompareI : ZyanStringCompare)(y.p, x.p, &r2);
            cx.ev(s1); cx.ev((u64)(r1 + 5));
            int want = a.size() < c.size() ? -1 : a.size() > c.size() ? 1 : 0; bool vague = false;
            if (!want) for (size_t i = 0; i < a.size() && !want; ++i) if (a[i] != c[i]) { want = a[i] < c[i] ? -1 : 1; vague = (a[i] | c[i]) & 0x80; }
            cx.log("    compare%s %s %s -> %08x %d, swapped %08x %d", ci ? "_i" : "", show(x.t).c_str(), show(y.t).c_str(), s1, r1, s2, r2);
            const ZyanStatus ws = want ? ZYAN_STATUS_FALSE : ZYAN_STATUS_TRUE;
            if (s1 != ws || s2 != ws) cx.fail(T_STATUS, "comparing %s and %s%s answers %08x and %08x", show(x.t).c_str(), show(y.t).c_str(), ci ? " ignoring case" : "", s1, s2);
            const int g1 = r1 < 0 ? -1 : r1 > 0, g2 = r2 < 0 ? -1 : r2 > 0;
            if (g1 != -g2 || (vague ? !g1 : g1 != want)) cx.fail(T_CONTENT, "comparing %s and %s%s yields %d, the other way round %d, expected %d", show(x.t).c_str(), show(y.t).c_str(), ci ? " ignoring case" : "", r1, r2, want);
        }
        break;
    }
    case CASE:
    {
        const bool lower = t.a[3] & 1, ex = t.a[3] & 2;
        size_t i = ex ? index_arg(t.a[1], n + 1) : 0, k = n;
        if (ex) k = t.a[2] >= 0 ? (size_t)t.a[2] % (i <= n ? n - i + 1 : 3) : index_arg(t.a[2], i <= n ? n - i : 1);
        cx.begin(mask);
        st = ex ? (lower ? ZyanStringToLowerCaseEx : ZyanStringToUpperCaseEx)(&s.s, i, k) : (lower ? ZyanStringToLowerCase : ZyanStringToUpperCase)(&s.s);
        if ((ok = judge(s, what, st, b, n, i > n || k > n - i ? ZYAN_STATUS_OUT_OF_RANGE : 0, false, false)))
            for (size_t j = i; j < i + k; ++j) s.m[j] = lower ? low(s.m[j]) : up(s.m[j]);
        break;
    }
    case RESIZE:
    {
        size_t k = size_arg(t.a[1]);
        if (t.a[4] && t.a[1] >= 0) { const ll d = (ll)n + (t.a[1] % 9) - 4; k = d < 0 ? 0 : (size_t)d; }
        cx.begin(mask); st = ZyanStringResize(&s.s, k);
        if ((ok = judge(s, what, st, b, std::max(k, n), 0, k < n, false)))
        {
            if (k <= n) s.m.resize(k);
            else
            {
                if (slen(s) != k) { cx.fail(T_CONTENT, "length is %zu after resizing to %zu", slen(s), k); break; }
                if (memcmp(s.s.vector.data, s.m.data(), n)) cx.fail(T_CONTENT, "resizing to %zu changed the text", k);
                for (size_t i = n; i < k; ++i)
                {
                    char* p = nullptr;
                    if (!ZYAN_SUCCESS(ZyanStringGetCharMutable(&s.s, i, &p)) || !p) { cx.fail(T_STATUS, "character %zu of %zu is not accessible", i, k); throw Abandon(); }
                    *p = "aB"[i & 1]; s.m.push_back("aB"[i & 1]);
                }
            }
        }
        break;
    }
    case RESERVE:
    {
        const size_t k = size_arg(t.a[1]);
        cx.begin(mask); st = ZyanStringReserve(&s.s, k);
        if ((ok = judge(s, what, st, b, std::max(k, n), 0, false, false)) && scap(s) < k) cx.fail(T_CAP, "capacity is %zu after reserving %zu", scap(s), k);
        break;
    }
    case SHRINK:
    {
        cx.begin(mask); st = ZyanStringShrinkToFit(&s.s);
        const int fired = cx.end(); cx.ev(st); cx.log("    shrink -> %08x (faults %d) cap %zu -> %zu", st, fired, b.cap, (size_t)s.s.vector.capacity);
        if (!ZYAN_SUCCESS(st))
        {
            if (!fired) cx.fail(T_REFUSE, "shrink_to_fit failed with %08x without a reason", st);
            else if (st != oom(s)) cx.fail(T_REFUSE, "shrink_to_fit failed with %08x for want of memory, expected %08x", st, oom(s));
            if (s.s.vector.capacity != b.cap) cx.fail(T_ATOMIC, "failed shrink_to_fit changed the capacity from %zu to %zu", b.cap, (size_t)s.s.vector.capacity);
            verify(s, T_ATOMIC, "after failed shrink_to_fit");
            return cx.injected > 0;
        }
        if (s.kind == K_BUFFER) { if (cx.requests != b.req) cx.fail(T_BUFFER, "shrink_to_fit allocated memory for a string on a fixed buffer"); }
        else if (scap(s) != n) cx.fail(T_CAP, "capacity is %zu after shrinking a string of %zu characters", scap(s), n);
        cx.mutation();
        return false;
    }
    case VIEW:
    {
        Src v, w;
        if (t.a[3] & 1) { v.p = ZYAN_STRING_TO_VIEW(&s.s); v.t = s.m; } else v.make(t.a[4], t.a[5], nullptr);
        const size_t len = v.t.size();
        const size_t i = index_arg(t.a[1], len + 1), k = t.a[2] >= 0 ? (size_t)t.a[2] % (i <= len ? len - i + 2 : 3) : index_arg(t.a[2], i <= len ? len - i : 1);
        st = ZyanStringViewInsideViewEx(&w.a, v.p, i, k);
        cx.ev(st);
        if (i > len || k > len - i) { cx.fault(F_OUT_OF_RANGE); if (st != ZYAN_STATUS_OUT_OF_RANGE) cx.fail(T_STATUS, "view of [%zu,+%zu) of %zu characters: %08x", i, k, len, st); return false; }
        if (!ZYAN_SUCCESS(st)) { cx.fail(T_STATUS, "view of [%zu,+%zu) of %zu characters refused: %08x", i, k, len, st); return false; }
        w.p = &w.a; w.t = v.t.substr(i, k); w.check();
        for (size_t j = 0; j <= k; ++j)
        {
            char c = 'x'; const ZyanStatus s2 = ZyanStringGetChar(w.p, j, &c);
            if (j == k ? s2 != ZYAN_STATUS_OUT_OF_RANGE : !ZYAN_SUCCESS(s2)) cx.fail(T_STATUS, "character %zu of a view of %zu: %08x", j, k, s2);
            else if (j < k && c != w.t[j]) cx.fail(T_CONTENT, "character %zu of a view is %02x, expected %02x", j, (u8)c, (u8)w.t[j]);
        }
        return false;
    }
    case FORMAT: case DECU: case DECS: case HEXU: case HEXS:
    {
        std::string want; int formatter = 0;
        Src pre_; const ZyanStringView* prefix = nullptr;
        const u64 val = number(t.a[1]);
        const size_t pad = (size_t)t.a[2];
        if (t.op == FORMAT)
        {
            const std::string x = text(t.a[1]), y = text(t.a[1] + 1);
            char* buf = nullptr;
            g_fmt_fail = faults && t.a[5] ? (int)t.a[5] - 1 : -1; formatter = g_fmt_fail >= 0;
            const int before = g_fmt_fail;
            switch (t.a[3] % 6)
            {
            #define F(...) { g_fmt_fail = before; cx.begin(mask); st = ZyanStringAppendFormat(&s.s, __VA_ARGS__); if (asprintf(&buf, __VA_ARGS__) < 0) abort(); break; }
            case 0: F("%s", x.c_str())
            case 1: F("%d-%lld|%s", (int)val, (long long)(val * 7), x.c_str())
            case 2: F("%*d%s%c", (int)(pad % 64), (int)val, x.c_str(), 'q')
            case 3: F("%%")
            case 4: F("%s%s%08x%llX", x.c_str(), y.c_str(), (unsigned)val, (unsigned long long)val)
            default: F("%.3f/%-*s|", (double)(int)val / 8, (int)(pad % 70), y.c_str())
            #undef F
            }
            want = buf; free(buf);
            formatter = formatter && g_fmt_fail < 0;     // it has failed
            g_fmt_fail = -1;
        } else
        {
            const bool hexa = t.op == HEXU || t.op == HEXS, sg = t.op == DECS || t.op == HEXS, upper = t.a[3] & 1, force = t.a[3] & 2;
            const ll sv = (ll)((t.a[3] & 8) ? 0 - val : val);
            if (sg && (t.a[3] & 4)) { pre_.make(t.a[4], t.a[4], &s); prefix = pre_.p; }
            if (sg) want = (sv < 0 ? "-" : force ? "+" : "") + (prefix ? pre_.t : std::string()) + numtext(sv < 0 ? 0 - (u64)sv : (u64)sv, hexa, upper, pad);
            else want = numtext(val, hexa, upper, pad);
            cx.begin(mask);
            switch (t.op)
            {
            case DECU: st = ZyanStringAppendDecU(&s.s, val, (ZyanU8)pad); break;
            case DECS: st = ZyanStringAppendDecS(&s.s, sv, (ZyanU8)pad, force ? ZYAN_TRUE : ZYAN_FALSE, prefix); break;
            case HEXU: st = ZyanStringAppendHexU(&s.s, val, (ZyanU8)pad, upper ? ZYAN_TRUE : ZYAN_FALSE); break;
            default: st = ZyanStringAppendHexS(&s.s, sv, (ZyanU8)pad, upper ? ZYAN_TRUE : ZYAN_FALSE, force ? ZYAN_TRUE : ZYAN_FALSE, prefix); break;
            }
        }
        if (formatter)
        {
            cx.end(); cx.ev(st); cx.log("    %s with failing formatter -> %08x", what, st);
            if (ZYAN_SUCCESS(st)) { cx.fail(T_REFUSE, "%s succeeded although the formatter failed", what); resync(s); return false; }
            if (s.kind == K_BUFFER && cx.requests != b.req) cx.fail(T_BUFFER, "%s allocated memory for a string on a fixed buffer", what);
            verify(s, T_ATOMIC, "after the formatter failed");
            return true;
        }
        if ((ok = judge(s, what, st, b, n + want.size(), 0, false, true)))
        {
            if (!mem_eq_after(s, n, want))
                cx.fail(T_CONTENT, "%s appended %s, expected %s", what, s.s.vector.size > n && sane(s) ? show(std::string((const char*)s.s.vector.data + n, s.s.vector.size - 1 - n)).c_str() : "nothing", show(want).c_str());
            s.m += want;
        }
        break;
    }
    }
    if (t.op == LPOS || t.op == RPOS || t.op == COMPARE)
    {
        if (cx.requests != b.req || s.s.vector.data != b.data || s.s.vector.capacity != b.cap) cx.fail(T_CAP, "%s changed the storage", what);
        return false;
    }
    return !ok && cx.injected > 0 && s.kind != K_BUFFER;
}

void exec(const Plan& p)
{
    g_limit = (size_t)p.get("limit", 400);
    for (int i = 0; i < MAXSLOT; ++i) { g[i] = Slot(); sa_init(&g[i].al, i + 1); }
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& t = p.steps[k];
        cx.step = (int)k;
        cx.log("#%zu %s %lld %lld %lld %lld %lld %lld f=%x", k, names[t.op], t.a[0], t.a[1], t.a[2], t.a[3], t.a[4], t.a[5], t.f);
        const bool failed = op(t, t.f, true);
        if (failed && t.retry)
        {
            cx.log("  again, without faults");
            probe("retry_after_fault");
            op(t, 0, false);
        }
        for (auto& s : g)
        {
            verify(s, T_CONTENT, "after the step");
            if (s.live)
            {
                cx.ev(s.s.vector.size * 1009 + s.s.vector.capacity);
                cx.state(mix64((u64)s.kind | (u64)s.gf << 16 | (u64)s.thr << 24 | 1ull << 40) ^ mix64((u64)s.s.vector.size << 32 ^ (u64)s.s.vector.capacity));
            }
        }
        leak_check("after the step");
        if (cx.take_muted()) for (auto& s : g) resync(s);
    }
    cx.step = (int)p.steps.size();
    cx.begin(0);
    for (auto& s : g) destroy(s);
    cx.end();
    leak_check("after destroying everything");
}

bool g_big;     // generating a run with hundreds or thousands of characters
ll idx(Rng& r) { return r.chance(1, 14) ? -1 - (ll)r.below(10) : r.chance(1, 8) ? -2 : (ll)r.below(g_big ? 1 << 20 : 64); }
ll szarg(Rng& r) { return g_big && r.chance(1, 2) ? (ll)r.below(3000) : r.chance(1, 16) ? -1 - (ll)r.below(10) : r.chance(1, 3) ? (ll)r.below(100) : (ll)r.below(40); }

void gen(Rng& r, Plan& p)
{
    const std::string& id = p.prop;
    p.cfg["move"] = r.pick({100, 100, 50, 0});
    p.cfg["faultkind"] = r.pick({0, 0, 0, 1, 2});
    p.cfg["oom_status"] = r.chance(1, 4);
    g_big = r.chance(1, 14);
    const bool vast = g_big && r.chance(1, 30);     // more than 16 bits can count
    if (g_big) p.cfg["limit"] = vast ? 210000 : 4000;
    auto large = [&](ll n) { return vast && r.chance(1, 2) ? r.range(65530, 65540 + (ll)r.below(2) * 2000) : (ll)r.below((u64)n); };
    if (r.chance(1, 10)) p.cfg["mem"] = g_big ? r.pick({512, 1024, 2048, 8192}) : r.pick({64, 256, 1024, 8192});
    int kw[3] = {6, 2, 2};
    int cls = (int)r.below(5);
    if (cls == 4 && r.chance(1, 2)) cls = 2;
    if (id == "C06") cls = r.pick({0, 1, 1, 2, 3});
    if (id == "C07" || id == "C08") { kw[2] = 4; cls = r.pick({0, 1, 2, 2, 3, 4}); }
    if (id == "C05") { kw[0] = 1; kw[1] = 1; kw[2] = 12; }
    if (id == "C14") { kw[0] = 6; kw[1] = 1; kw[2] = 1; cls = r.pick({0, 1, 2, 4}); }
    if (id == "C15") { kw[0] = 0; kw[1] = 1; kw[2] = 0; }
    if (zsim_nolibc) { kw[1] = 0; if (!kw[0] && !kw[2]) kw[0] = 1; }
    const int nslots = r.chance(1, 2) ? 1 : (int)r.range(2, MAXSLOT);
    auto kind = [&]() -> ll { u64 x = r.below((u64)(kw[0] + kw[1] + kw[2])); return x < (u64)kw[0] ? 0 : x < (u64)(kw[0] + kw[1]) ? 1 : 2; };
    auto policy = [&]() -> ll { ll gf = r.pick({1, 1, 1, 2, 2, 3, 4, 255}); ll thr = r.pick({0, 0, 1, 2, 3, 4, 4, 8, 255}); return gf | thr << 8; };
    auto add = [&](int op, ll a, ll b = 0, ll c = 0, ll d = 0, ll e = 0, ll f = 0) { Step s; s.op = op; s.a[0] = a; s.a[1] = b; s.a[2] = c; s.a[3] = d; s.a[4] = e; s.a[5] = f; p.steps.push_back(s); };
    auto cap = [&]() -> ll { return r.chance(1, 16) ? -1 - (ll)r.below(10) : g_big && r.chance(1, 2) ? large(3000) : r.chance(1, 3) ? (ll)r.below(64) : (ll)r.below(16); };
    auto val = [&]() -> ll { return (ll)r.below(4000) + (vast && r.chance(1, 4) ? 8000 : g_big && r.chance(1, 2) ? 4000 : 0); };
    auto init = [&](ll slot) { if (r.chance(1, 4)) add(r.chance(1, 2) ? DUP : CONCAT, slot, kind(), (ll)r.below(64), cap(), policy(), val()); else add(INIT, slot, kind(), 0, cap(), policy()); };
    for (int i = 0; i < nslots; ++i) init(i);
    const ll mara = marathon(r);
    const int n = (int)(g_big ? r.range(4, 20) : mara ? mara : r.chance(1, 8) ? r.range(40, 120) : r.range(4, 36));
    int w[NOPS];
    for (int i = 0; i < NOPS; ++i) w[i] = (int)r.below(4);
    w[APPEND] += 2; w[INIT] = r.chance(1, 3); w[DESTROY] = r.chance(1, 4); w[DUP] = (int)r.below(2); w[CONCAT] = (int)r.below(2); w[CLEAR] = r.chance(1, 2);
    w[SHRINK] = (int)r.below(3);
    const bool fmt = id != "C06" && id != "C07";
    if (!fmt) for (int o : {FORMAT, DECU, DECS, HEXU, HEXS}) w[o] = 0;
    if (id == "C08")
    {
        for (int i = 0; i < FORMAT; ++i) w[i] = w[i] > 2;
        for (int o : {LPOS, RPOS, COMPARE, VIEW, GETC}) w[o] = 0;
        for (int o : {FORMAT, DECU, DECS, HEXU, HEXS}) w[o] += 2;
        w[SHRINK] = 3; w[TRUNC] += 1; w[CLEAR] = 1; w[RESERVE] += 1;
    } else if (id == "C06") { if (r.chance(1, 3)) { w[LPOS] += 5; w[RPOS] += 5; w[COMPARE] += 4; } }
    else if (id == "C14") { w[RESERVE] += 4; w[SHRINK] += 2; w[RESIZE] += 3; }
    if (id != "C06") for (int o : {LPOS, RPOS, COMPARE, VIEW, GETC}) w[o] = (id == "C04" || id == "C05") ? w[o] > 1 : 0;
    if (zsim_nolibc) w[FORMAT] = 0;
    if (mara) favour(r, w, NOPS, {APPEND, APPENDEX, INSERT, INSERTEX, DECU}, {DEL, TRUNC, RESIZE});
    int tot = 0; for (int x : w) tot += x;
    for (int i = 0; i < n; ++i)
    {
        int x = (int)r.below((u64)tot), op = 0;
        while (x >= w[op]) x -= w[op++];
        const ll s = (ll)r.below((u64)nslots);
        const ll mode = (ll)r.below(6);
        switch (op)
        {
        case INIT: init(s); break;
        case DUP: case CONCAT: add(op, s, kind(), (ll)r.below(64), cap(), policy(), val()); break;
        case SETC: add(op, s, idx(r), (ll)r.below(12), (ll)r.below(2)); break;
        case GETC: add(op, s, idx(r), (ll)r.below(2), val()); break;
        case INSERT: case INSERTEX: case APPEND: case APPENDEX: add(op, s, idx(r), mode, val(), idx(r), r.chance(1, 3) ? -2 : idx(r)); break;
        case DEL: case VIEW: add(op, s, idx(r), r.chance(1, 3) ? -2 : idx(r), (ll)r.below(2), mode, val()); break;
        case TRUNC: add(op, s, idx(r)); break;
        case LPOS: case RPOS: add(op, s, val(), idx(r), r.chance(1, 3) ? -2 : idx(r), (ll)r.below(32), (ll)r.below(4096)); break;
        case COMPARE: add(op, s, mode, val(), (ll)r.below(256), (ll)r.below(5), val()); break;
        case CASE: add(op, s, idx(r), r.chance(1, 2) ? -2 : idx(r), (ll)r.below(4)); break;
        case RESIZE: add(op, s, vast ? large(70000) : szarg(r), 0, 0, r.chance(1, 2)); break;
        case RESERVE: add(op, s, vast ? large(70000) : szarg(r)); break;
        case FILL: add(op, s, (ll)r.below(3), (ll)r.below(2)); break;
        case FORMAT: add(op, s, val(), (ll)r.below(100), (ll)r.below(6), 0, cls && r.chance(1, 5) ? (ll)r.range(1, 2) : 0); break;
        case DECU: case DECS: case HEXU: case HEXS: add(op, s, val(), r.chance(1, 3) ? 0 : r.chance(1, 8) ? (ll)r.below(256) : (ll)r.below(24), (ll)r.below(16), val()); break;
        default: add(op, s); break;
        }
    }
    gen_faults(r, p, cls, 4);
}

}   // namespace
extern const Scenario scen_str;
const Scenario scen_str = {"string", names, NOPS, gen, exec};
