// Threads that work on objects of their own, and threads that read shared objects: every result must be the one the thread
// gets when it runs alone (first phase: each thread alone; second phase: all together under the scheduler), and no two threads
// may touch the same memory without synchronisation unless both only read.
#include "rt.hpp"
#include <Zycore/API/Synchronization.h>
#include <Zycore/ArgParse.h>
#include <Zycore/Bitset.h>
#include <Zycore/Format.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <Zycore/Vector.h>
#include <algorithm>

namespace {

struct El { u64 key; u32 tag; u32 pad; u8 rest[1008]; };
// "large" runs: elements of hundreds of bytes, hundreds of elements, long texts and command lines
ll large;              // 1..4: kind of large run, 0: none
size_t esz = 16;       // bytes of an element, at least those before `rest`
size_t big(size_t n, size_t m) { return large ? m : n; }
enum Op { SW,
    V_NEW, V_PUSH, V_INSERT, V_DELETE, V_POP, V_FIND, V_BSEARCH, V_RESIZE, V_RESERVE, V_EMPLACE, V_SWAP, V_SET, V_DUP, V_BAD,
    S_NEW, S_APPEND, S_INSERT, S_DELETE, S_NUMBER, S_FORMAT, S_SEARCH, S_COMPARE, S_CASE, S_SIZE, S_DUP, S_VIEW, S_BAD,
    L_NEW, L_PUSH, L_POP, L_EMPLACE, L_REMOVE, L_RESIZE, L_WALK,
    B_NEW, B_PUSH, B_POP, B_BIT, B_QUERY, B_LOGIC, B_SIZE, B_ALL,
    ARGS, NOPS };
const char* const names[NOPS] = { "switch",
    "vector_new", "vector_push", "vector_insert", "vector_delete", "vector_pop", "vector_find", "vector_bsearch", "vector_resize", "vector_reserve",
    "vector_emplace", "vector_swap", "vector_set", "vector_duplicate", "vector_bad_index",
    "string_new", "string_append", "string_insert", "string_delete", "string_number", "string_format", "string_search", "string_compare", "string_case",
    "string_size", "string_duplicate", "string_view", "string_bad_index",
    "list_new", "list_push", "list_pop", "list_emplace", "list_remove", "list_resize", "list_walk",
    "bitset_new", "bitset_push", "bitset_pop", "bitset_bit", "bitset_query", "bitset_logic", "bitset_size", "bitset_all",
    "argparse" };

struct Obj
{
    ZyanVector v, v2; ZyanString s[2]; ZyanList l; ZyanBitset b, b2;
    bool hv, hs[2], hl, hb, hb2;
    u8* vbuf; char* sbuf[2]; u8* lbuf; u8* bbuf;
    size_t nv, ns, nl, nb;      // elements, characters, bytes, bytes in the caller's buffers
};
Obj* ob[MAXT];
SimAlloc al[MAXT];
std::vector<std::pair<int, Step>> prog[MAXT];
std::vector<std::pair<u64, const char*>> solo[MAXT];
size_t pos[MAXT];
bool alone;
int nthr;

bool guarded = false;      // one shared object, used by all threads under a lock: the results are one sequence
void note(u64 v, const char* what)
{
    const int me = guarded ? 0 : rt_self();
    cx.ev(v);
    if (alone) { solo[me].push_back({v, what}); return; }
    if (pos[me] >= solo[me].size() || solo[me][pos[me]].first != v)
    {
        const u64 other = pos[me] < solo[me].size() ? solo[me][pos[me]].first : 0;
        if (guarded) cx.fail(T_CONTENT, "%s gives %llx in one thread, with the same operations in the same order in several threads it gave %llx", what, (unsigned long long)v, (unsigned long long)other);
        cx.fail(T_CONTENT, "thread %d: %s gives %llx, alone it gives %llx", me, what, (unsigned long long)v, (unsigned long long)other);
    }
    ++pos[me];
}
void note_bytes(const void* p, size_t n, const char* what)
{
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) h = (h ^ ((const u8*)p)[i]) * 1099511628211ull;
    note(h ^ n, what);
}

int cmp_el(const void* a, const void* b) { const u64 x = ((const El*)a)->key, y = ((const El*)b)->key; return x < y ? -1 : x > y; }
ZyanBool eq_el(const void* a, const void* b) { return ((const El*)a)->key == ((const El*)b)->key; }
u64 rest(const void* e)
{
    u64 h = 1;
    for (size_t i = 16; i < esz; ++i) h = (h ^ ((const u8*)e)[i]) * 1099511628211ull;
    return h;
}
void dtor(void* e) { note(((El*)e)->key, "destroyed element"); if (esz > 16) note(rest(e), "destroyed element"); }
ZyanStatus ctor(void* e) { El x; memset(&x, 42, esz); x.key = 42; x.tag = 7; x.pad = 0; memcpy(e, &x, esz); return cx.mask & 0x80 ? ZYAN_STATUS_FAILED : ZYAN_STATUS_SUCCESS; }
ZyanStatus op_nand(ZyanU8* a, const ZyanU8* b) { *a = (ZyanU8)~(*a & *b); return ZYAN_STATUS_SUCCESS; }
El el(ll x)
{
    El e; e.key = (u64)x % 97; e.tag = (u32)x; e.pad = 0;
    for (size_t i = 16; i < esz; ++i) ((u8*)&e)[i] = (u8)(x * 31 + (ll)i * 7 + (ll)(i >> 8));
    return e;
}

const char* const WORDS[] = { "alpha", "Beta", "", "x", "gamma ray", "ALPHA", "0123456789", "aab", "ab", "A-Z_a-z", "long text that needs more room than the others do" };
const int NWORDS = sizeof WORDS / sizeof *WORDS;
const size_t LENGTHS[] = { 63, 64, 70, 127, 130, 256, 300, 520, 1030 };
const char* long_word(ll i)
{
    static std::string w[sizeof LENGTHS / sizeof *LENGTHS];
    std::string& s = w[(size_t)i % (sizeof LENGTHS / sizeof *LENGTHS)];
    if (s.empty()) for (size_t k = 0; k < LENGTHS[&s - w]; ++k) s += (char)("abcAB xyz-09"[(k * 5 + k / 7 + k / 64) % 12]);
    return s.c_str();
}
const char* text(ll i) { return large && i % 3 == 0 ? long_word(i / 3) : WORDS[(size_t)i % NWORDS]; }
ZyanStringView word(ll i)
{
    ZyanStringView v;
    const char* w = text(i);
    memset(&v, 0, sizeof v);
    if (*w) ZyanStringViewInsideBufferEx(&v, w, strlen(w)); else ZyanStringViewInsideBuffer(&v, w);   // the former refuses length 0
    return v;
}

void show_v(ZyanVector& v, const char* what)
{
    ZyanUSize n = 0, c = 0;
    note(ZyanVectorGetSize(&v, &n), what); note(ZyanVectorGetCapacity(&v, &c), what);
    note(n, what); note(c, what);
    for (size_t i = 0; i < n && i < big(64, 500); ++i)
    {
        const El* e = nullptr;
        const ZyanStatus st = ZyanVectorGetPointer(&v, i, (const void**)&e);
        note(st, what);
        if (ZYAN_SUCCESS(st)) { note(e->key, what); note(e->tag, what); if (esz > 16) note(rest(e), what); }
    }
}
void show_s(ZyanString& s, const char* what)
{
    ZyanUSize n = 0, c = 0; const char* d = nullptr;
    note(ZyanStringGetSize(&s, &n), what); note(ZyanStringGetCapacity(&s, &c), what); note(ZyanStringGetData(&s, &d), what);
    note(n, what); note(c, what);
    if (d) note_bytes(d, n + 1, what);
}
void show_l(ZyanList& l, const char* what)
{
    ZyanUSize n = 0; const ZyanListNode* x = nullptr;
    note(ZyanListGetSize(&l, &n), what); note(n, what);
    note(ZyanListGetHeadNode(&l, &x), what);
    for (size_t i = 0; x && i < 64; ++i) { note(((const El*)ZyanListGetNodeData(x))->key, what); if (esz > 16) note(rest(ZyanListGetNodeData(x)), what); note(ZyanListGetNextNode(&x), what); }
    note(ZyanListGetTailNode(&l, &x), what);
    for (size_t i = 0; x && i < 64; ++i) { const El* e = nullptr; note(ZyanListGetNodeDataEx(x, (const void**)&e), what); note(e->key, what); note(ZyanListGetPrevNode(&x), what); }
}
void show_b(ZyanBitset& b, const char* what)
{
    ZyanUSize n = 0, k = 0, by = 0, c = 0;
    note(ZyanBitsetGetSize(&b, &n), what); note(n, what);
    note(ZyanBitsetCount(&b, &k), what); note(k, what);
    note(ZyanBitsetGetSizeBytes(&b, &by), what); note(by, what); note(ZyanBitsetGetCapacityBytes(&b, &c), what); note(c, what);
    for (size_t i = 0; i < n && i < big(100, 3000); i += 1 + n / 200) note(ZyanBitsetTest(&b, i), what);
    note(ZyanBitsetAll(&b), what); note(ZyanBitsetAny(&b), what); note(ZyanBitsetNone(&b), what);
}
void show_view(const ZyanStringView& w, const char* base, const char* what)
{
    ZyanUSize n = 0; const char* d = nullptr;
    note(ZyanStringViewGetSize(&w, &n), what); note(ZyanStringViewGetData(&w, &d), what);
    note(n, what); note((u64)(d - base), what);
}

void search(const ZyanStringView* h, const ZyanStringView* n, ll which, size_t index, size_t count)
{
    ZyanISize at = -7;
    ZyanStatus st = 0;
    switch (which % 8)
    {
    case 0: st = ZyanStringLPos(h, n, &at); break;
    case 1: st = ZyanStringLPosI(h, n, &at); break;
    case 2: st = ZyanStringRPos(h, n, &at); break;
    case 3: st = ZyanStringRPosI(h, n, &at); break;
    case 4: st = ZyanStringLPosEx(h, n, &at, index, count); break;
    case 5: st = ZyanStringLPosIEx(h, n, &at, index, count); break;
    case 6: st = ZyanStringRPosEx(h, n, &at, index, count); break;
    default: st = ZyanStringRPosIEx(h, n, &at, index, count); break;
    }
    note(st, names[S_SEARCH]); note((u64)at, names[S_SEARCH]);
}

void one(int me, const Step& t)
{
    Obj& o = *ob[me];
    const char* w = names[t.op];
    const ll a = t.a[1], b = t.a[2], c = t.a[3];
    const size_t k = (size_t)(a & 1);
    auto kind = [&](ll x) { return (int)((size_t)x % 3); };   // 0 allocator of the thread, 1 default, 2 buffer
    cx.begin(t.f);
    switch (t.op)
    {
    case V_NEW:
        if (o.hv) { note(ZyanVectorDestroy(&o.v), w); o.hv = false; }
    {
        ZyanStatus st;
        switch (kind(a))
        {
        case 0: st = ZyanVectorInitEx(&o.v, esz, (size_t)b % big(9, 70), c & 1 ? dtor : nullptr, &al[me].a, (ZyanU8)(1 + c % 3), (ZyanU8)((c / 3) % 4)); break;
        case 1: st = ZyanVectorInit(&o.v, esz, (size_t)b % big(9, 70), c & 1 ? dtor : nullptr); break;
        default: st = ZyanVectorInitCustomBuffer(&o.v, esz, o.vbuf, 1 + (size_t)b % o.nv, c & 1 ? dtor : nullptr); break;
        }
        note(st, w); o.hv = ZYAN_SUCCESS(st);
        break;
    }
    case V_PUSH: if (o.hv) { El e = el(a); note(ZyanVectorPushBack(&o.v, &e), w); } break;
    case V_INSERT:
        if (o.hv) {
            const size_t n = 1 + (size_t)c % big(3, 40);
            u8* const e = (u8*)__builtin_alloca(n * esz);
            for (size_t i = 0; i < n; ++i) { El x = el(b + (ll)i); memcpy(&e[i * esz], &x, esz); }
            note(c & 1 ? ZyanVectorInsert(&o.v, (size_t)a % (o.v.size + 1), e) : ZyanVectorInsertRange(&o.v, (size_t)a % (o.v.size + 1), e, n), w);
        }
        break;
    case V_DELETE: if (o.hv && o.v.size) { const size_t i = (size_t)a % o.v.size; note(c & 1 ? ZyanVectorDelete(&o.v, i) : ZyanVectorDeleteRange(&o.v, i, 1 + (size_t)b % (o.v.size - i)), w); } break;
    case V_POP: if (o.hv) note(c % 5 ? ZyanVectorPopBack(&o.v) : ZyanVectorClear(&o.v), w); break;
    case V_FIND:
        if (o.hv)
        {
            El e = el(a); ZyanISize at = -3;
            note(c & 1 || !o.v.size ? ZyanVectorFind(&o.v, &e, &at, eq_el) : ZyanVectorFindEx(&o.v, &e, &at, eq_el, (size_t)b % o.v.size, o.v.size - (size_t)b % o.v.size), w);
            note((u64)at, w);
        }
        break;
    case V_BSEARCH:
        if (o.hv)
        {
            El e = el(a); ZyanUSize at = 999; bool sorted = true;
            for (size_t i = 1; i < o.v.size; ++i) sorted &= cmp_el((u8*)o.v.data + (i - 1) * esz, (u8*)o.v.data + i * esz) <= 0;
            const ZyanStatus st = ZyanVectorBinarySearch(&o.v, &e, &at, cmp_el);
            note(st, w); note(at, w);
            if (sorted && (st == ZYAN_STATUS_TRUE || st == ZYAN_STATUS_FALSE) && at <= o.v.size && (c & 1)) note(ZyanVectorInsert(&o.v, at, &e), w);
        }
        break;
    case V_RESIZE: if (o.hv) { El e = el(b); note(ZyanVectorResizeEx(&o.v, (size_t)a % big(20, 160), &e), w); } break;
    case V_RESERVE: if (o.hv) note(b & 1 ? ZyanVectorReserve(&o.v, (size_t)a % big(40, 200)) : ZyanVectorShrinkToFit(&o.v), w); break;
    case V_EMPLACE:
        if (o.hv)
        {
            void* e = nullptr;
            const ZyanStatus st = b & 1 ? ZyanVectorEmplaceEx(&o.v, (size_t)a % (o.v.size + 1), &e, ctor) : ZyanVectorEmplace(&o.v, &e, ctor);
            note(st, w);
            if (ZYAN_SUCCESS(st)) { El x = el(a); memcpy(e, &x, esz); }
        }
        break;
    case V_SWAP: if (o.hv && o.v.size > 1 && o.v.size < o.v.capacity) note(ZyanVectorSwapElements(&o.v, (size_t)a % o.v.size, (size_t)b % o.v.size), w); break;
    case V_SET: if (o.hv && o.v.size) { El e = el(b); note(ZyanVectorSet(&o.v, (size_t)a % o.v.size, &e), w); } break;
    case V_DUP:
        if (o.hv)
        {
            ZyanVector d;
            const ZyanStatus st = a & 1 ? ZyanVectorDuplicate(&d, &o.v, (size_t)b % big(30, 150)) : ZyanVectorDuplicateEx(&d, &o.v, (size_t)b % big(30, 150), &al[me].a, 2, 2);
            note(st, w);
            if (ZYAN_SUCCESS(st)) { show_v(d, w); d.destructor = nullptr; note(ZyanVectorDestroy(&d), w); }
        }
        break;
    case V_BAD:
        if (o.hv)
        {
            El e = el(a); void* p = nullptr;
            note(ZyanVectorSet(&o.v, o.v.size + (size_t)a % 3, &e), w); note(ZyanVectorInsert(&o.v, o.v.size + 2, &e), w);
            note(ZyanVectorGetPointerMutable(&o.v, o.v.size, &p), w); note(ZyanVectorGet(&o.v, o.v.size + (size_t)a) == nullptr, w);
        }
        break;
    case S_NEW:
    {
        ZyanString& s = o.s[k];
        if (o.hs[k]) { note(ZyanStringDestroy(&s), w); o.hs[k] = false; }
        ZyanStatus st;
        switch (kind(b))
        {
        case 0: st = ZyanStringInitEx(&s, (size_t)c % big(20, 400), &al[me].a, (ZyanU8)(1 + c % 3), (ZyanU8)((c / 3) % 4)); break;
        case 1: st = ZyanStringInit(&s, (size_t)c % big(20, 400)); break;
        default: st = ZyanStringInitCustomBuffer(&s, o.sbuf[k], 1 + (size_t)(large ? b : c) % o.ns); break;
        }
        note(st, w); o.hs[k] = ZYAN_SUCCESS(st);
        break;
    }
    case S_APPEND:
        if (o.hs[k])
        {
            ZyanStringView v = word(b);
            const size_t i = v.string.vector.size > 1 ? (size_t)c % (v.string.vector.size - 1) : 0;
            note(c & 1 && v.string.vector.size > 2 ? ZyanStringAppendEx(&o.s[k], &v, i, v.string.vector.size - 1 - i) : ZyanStringAppend(&o.s[k], &v), w);
        }
        break;
    case S_INSERT: if (o.hs[k]) { ZyanStringView v = word(b); note(ZyanStringInsert(&o.s[k], (size_t)c % o.s[k].vector.size, &v), w); } break;
    case S_DELETE:
        if (o.hs[k] && o.s[k].vector.size > 1)
        {
            const size_t n = o.s[k].vector.size - 1, i = (size_t)b % n;
            note(c % 3 ? ZyanStringDelete(&o.s[k], i, (size_t)c % (n - i + 1)) : c % 2 ? ZyanStringTruncate(&o.s[k], i) : ZyanStringClear(&o.s[k]), w);
        }
        break;
    case S_NUMBER:
        if (o.hs[k])
        {
            const u64 x = mix64((u64)b) >> (b % 64);
            const ZyanU8 pad = (ZyanU8)(c % (ll)big(24, 256));
            ZyanStringView pre = word(c / 5);
            switch (c % 5)
            {
            case 0: note(ZyanStringAppendDecU(&o.s[k], x, pad), w); break;
            case 1: note(ZyanStringAppendDecS(&o.s[k], (ZyanI64)x * (b & 1 ? -1 : 1), pad, (ZyanBool)(b >> 1 & 1), b & 4 ? &pre : nullptr), w); break;
            case 2: note(ZyanStringAppendHexU(&o.s[k], x, pad, (ZyanBool)(b >> 1 & 1)), w); break;
            case 3: note(ZyanStringAppendHexS(&o.s[k], (ZyanI64)x * (b & 1 ? -1 : 1), pad, (ZyanBool)(b >> 1 & 1), (ZyanBool)(b >> 2 & 1), b & 8 ? &pre : nullptr), w); break;
            default: note(ZyanStringAppendDecS(&o.s[k], -(ZyanI64)(x % 1000), pad, ZYAN_FALSE, nullptr), w); break;
            }
        }
        break;
    case S_FORMAT: if (o.hs[k]) note(ZyanStringAppendFormat(&o.s[k], "<%d|%s|%5.1f|%-*d>", (int)b, text(c), (double)b / 8, (int)(c % (ll)big(9, 300)), (int)c), w); break;
    case S_SEARCH: if (o.hs[k]) { ZyanStringView n = word(b); const size_t z = o.s[k].vector.size - 1, i = z ? (size_t)c % z : 0; search((ZyanStringView*)&o.s[k], &n, c, i, z ? (size_t)(c / 3) % (z - i + 1) : 0); } break;
    case S_COMPARE:
        if (o.hs[k])
        {
            ZyanStringView n = word(b); ZyanI32 r = 9;
            note(c & 1 ? ZyanStringCompare((ZyanStringView*)&o.s[k], &n, &r) : ZyanStringCompareI((ZyanStringView*)&o.s[k], &n, &r), w);
            note((u64)((r > 0) - (r < 0)), w);
        }
        break;
    case S_CASE:
        if (o.hs[k])
        {
            const size_t z = o.s[k].vector.size - 1, i = z ? (size_t)b % z : 0, n = z ? (size_t)c % (z - i + 1) : 0;
            note(b & 1 ? (c & 1 ? ZyanStringToLowerCase(&o.s[k]) : ZyanStringToLowerCaseEx(&o.s[k], i, n)) : (c & 1 ? ZyanStringToUpperCase(&o.s[k]) : ZyanStringToUpperCaseEx(&o.s[k], i, n)), w);
        }
        break;
    case S_SIZE:
        if (o.hs[k])
        {
            const size_t z = o.s[k].vector.size - 1;
            switch (b % 3) { case 0: note(ZyanStringReserve(&o.s[k], (size_t)c % big(80, 900)), w); break; case 1: note(ZyanStringShrinkToFit(&o.s[k]), w); break; default: note(ZyanStringResize(&o.s[k], z ? (size_t)c % (z + 1) : 0), w); }
        }
        break;
    case S_DUP:
        if (o.hs[k])
        {
            ZyanString d; ZyanStatus st; ZyanStringView n = word(c);
            switch (b % 4)
            {
            case 0: st = ZyanStringDuplicate(&d, (ZyanStringView*)&o.s[k], (size_t)c % 40); break;
            case 1: st = ZyanStringDuplicateEx(&d, (ZyanStringView*)&o.s[k], (size_t)c % 40, &al[me].a, 2, 4); break;
            case 2: st = ZyanStringConcat(&d, (ZyanStringView*)&o.s[k], &n, (size_t)c % 40); break;
            default: st = ZyanStringConcatEx(&d, &n, (ZyanStringView*)&o.s[k], (size_t)c % 40, &al[me].a, 2, 4); break;
            }
            note(st, w);
            if (ZYAN_SUCCESS(st)) { show_s(d, w); note(ZyanStringDestroy(&d), w); }
        }
        break;
    case S_VIEW:
        if (o.hs[k])
        {
            ZyanStringView v, v2; const size_t z = o.s[k].vector.size - 1, i = z ? (size_t)b % z : 0; char ch = 0;
            note(ZyanStringViewInsideView(&v, (ZyanStringView*)&o.s[k]), w); show_view(v, (char*)o.s[k].vector.data, w);
            note(ZyanStringViewInsideViewEx(&v2, &v, i, z - i), w); show_view(v2, (char*)o.s[k].vector.data, w);
            if (z > i) { note(ZyanStringGetChar(&v2, 0, &ch), w); note((u64)(u8)ch, w); }
            note(ZyanStringViewInsideBuffer(&v, text(c)), w); show_view(v, text(c), w);
        }
        break;
    case S_BAD:
        if (o.hs[k]) { char ch; const size_t z = o.s[k].vector.size; note(ZyanStringDelete(&o.s[k], z + (size_t)b % 3, 1), w); note(ZyanStringSetChar(&o.s[k], z, 'x'), w); note(ZyanStringGetChar((ZyanStringView*)&o.s[k], z + 1, &ch), w); }
        break;
    case L_NEW:
    {
        if (o.hl) { note(ZyanListDestroy(&o.l), w); o.hl = false; }
        ZyanStatus st;
        switch (kind(a))
        {
        case 0: st = ZyanListInitEx(&o.l, esz, c & 1 ? dtor : nullptr, &al[me].a); break;
        case 1: st = ZyanListInit(&o.l, esz, c & 1 ? dtor : nullptr); break;
        default: st = ZyanListInitCustomBuffer(&o.l, esz, c & 1 ? dtor : nullptr, o.lbuf, 64 + (size_t)b % (o.nl - 64)); break;
        }
        note(st, w); o.hl = ZYAN_SUCCESS(st);
        break;
    }
    case L_PUSH: if (o.hl) { El e = el(a); note(b & 1 ? ZyanListPushBack(&o.l, &e) : ZyanListPushFront(&o.l, &e), w); } break;
    case L_POP: if (o.hl) note(b % 7 == 6 ? ZyanListClear(&o.l) : b & 1 ? ZyanListPopBack(&o.l) : ZyanListPopFront(&o.l), w); break;
    case L_EMPLACE:
        if (o.hl)
        {
            void* e = nullptr;
            const ZyanStatus st = b & 1 ? ZyanListEmplaceBack(&o.l, &e, ctor) : ZyanListEmplaceFront(&o.l, &e, ctor);
            note(st, w);
            if (ZYAN_SUCCESS(st)) { El x = el(a); memcpy(e, &x, esz); }
        }
        break;
    case L_REMOVE:
        if (o.hl && o.l.size)
        {
            const ZyanListNode* x = nullptr; note(ZyanListGetHeadNode(&o.l, &x), w);
            for (size_t i = 0; i < (size_t)a % o.l.size; ++i) note(ZyanListGetNextNode(&x), w);
            if (b & 1) { El e = el(c); note(ZyanListSetNodeData(&o.l, x, &e), w); }
            else if (b & 2) note(ZyanListRemove(&o.l, x), w);
            else { const ZyanListNode* y = nullptr; note(ZyanListGetTailNode(&o.l, &y), w); note(ZyanListRemoveRange(&o.l, x, y), w); }
        }
        break;
    case L_RESIZE: if (o.hl) { El e = el(b); note(ZyanListResizeEx(&o.l, (size_t)a % big(10, 60), &e), w); } break;
    case L_WALK: break;
    case B_NEW:
    {
        ZyanBitset& bs = k ? o.b2 : o.b; bool& h = k ? o.hb2 : o.hb;
        if (h) { note(ZyanBitsetDestroy(&bs), w); h = false; }
        ZyanStatus st;
        const int kd = k ? kind(b) % 2 : kind(b);
        switch (kd)
        {
        case 0: st = ZyanBitsetInitEx(&bs, (size_t)c % big(40, 700), &al[me].a, 2, 2); break;
        case 1: st = ZyanBitsetInit(&bs, (size_t)c % big(40, 700)); break;
        default: st = ZyanBitsetInitBuffer(&bs, (size_t)(large ? b : c) % (o.nb * 8 - 4), o.bbuf, o.nb); break;
        }
        note(st, w); h = ZYAN_SUCCESS(st);
        if (h) note(ZyanBitsetResetAll(&bs), w);
        break;
    }
    case B_PUSH: if (o.hb) note(ZyanBitsetPush(&o.b, (ZyanBool)(a & 1)), w); break;
    case B_POP: if (o.hb) note(a % 9 == 8 ? ZyanBitsetClear(&o.b) : ZyanBitsetPop(&o.b), w); break;
    case B_BIT:
        if (o.hb)
        {
            const size_t i = o.b.size ? (size_t)a % (o.b.size + (b % 8 == 0)) : (size_t)a;
            switch (c % 4) { case 0: note(ZyanBitsetSet(&o.b, i), w); break; case 1: note(ZyanBitsetReset(&o.b, i), w); break; case 2: note(ZyanBitsetToggle(&o.b, i), w); break; default: note(ZyanBitsetAssign(&o.b, i, (ZyanBool)(b & 1)), w); }
        }
        break;
    case B_QUERY: if (o.hb) { note(ZyanBitsetTestMSB(&o.b), w); note(ZyanBitsetTestLSB(&o.b), w); } break;
    case B_LOGIC:
        if (o.hb && o.hb2 && o.b2.size >= o.b.size)
            switch (a % 5) { case 0: note(ZyanBitsetAND(&o.b, &o.b2), w); break; case 1: note(ZyanBitsetOR(&o.b, &o.b2), w); break; case 2: note(ZyanBitsetXOR(&o.b, &o.b2), w); break; case 3: note(ZyanBitsetPerformByteOperation(&o.b, &o.b2, op_nand), w); break; default: note(ZyanBitsetFlip(&o.b2), w); }
        break;
    case B_SIZE: if (o.hb) note(a & 1 ? ZyanBitsetReserve(&o.b, (size_t)b % big(90, 3000)) : ZyanBitsetShrinkToFit(&o.b), w); break;
    case B_ALL: if (o.hb) note(a & 1 ? ZyanBitsetSetAll(&o.b) : a & 2 ? ZyanBitsetResetAll(&o.b) : ZyanBitsetFlip(&o.b), w); break;
    case ARGS:
    {
        static ZyanArgParseDefinition defs[] = { {"--help", ZYAN_TRUE, ZYAN_FALSE}, {"-n", ZYAN_FALSE, ZYAN_FALSE}, {"-v", ZYAN_TRUE, ZYAN_FALSE}, {"--out", ZYAN_FALSE, ZYAN_FALSE}, {nullptr, 0, 0} };
        static const char* const toks[] = { "--help", "-n", "5", "-vvv", "-vn7", "--out", "file", "name", "--", "-q", "-" };
        const char* argv[132] = { "prog" };
        const size_t n = 1 + (size_t)a % big(7, 130);
        u64 x = mix64((u64)b);
        for (size_t i = 1; i < n; ++i) { argv[i] = large && x % 23 == 0 ? long_word((ll)(x >> 40)) : large && x % 3 ? toks[(x >> 9) % 8] : toks[x % 11]; x = mix64(x); }
        ZyanArgParseConfig cfg; memset(&cfg, 0, sizeof cfg);
        cfg.argv = argv; cfg.argc = n; cfg.max_unnamed_args = (size_t)c % big(4, 200); cfg.args = defs;
        const char* tok = nullptr; ZyanVector out;
        const ZyanStatus st = c & 1 ? ZyanArgParse(&cfg, &out, &tok) : ZyanArgParseEx(&cfg, &out, &tok, &al[me].a);
        note(st, w);
        if (tok) note_bytes(tok, strlen(tok), w);
        if (ZYAN_SUCCESS(st))
        {
            note(out.size, w);
            for (size_t i = 0; i < out.size; ++i)
            {
                const ZyanArgParseArg* e = (const ZyanArgParseArg*)ZyanVectorGet(&out, i);
                note(e->def ? (u64)(e->def - defs) : 99, w); note(e->has_value, w);
                if (e->has_value) { const char* d = nullptr; ZyanUSize z = 0; ZyanStringViewGetData(&e->value, &d); ZyanStringViewGetSize(&e->value, &z); note_bytes(d, z, w); }
            }
            note(ZyanVectorDestroy(&out), w);
        }
        break;
    }
    }
    note((u64)cx.end(), "number of failed allocations");
    cx.begin(0);
    if (t.op >= V_NEW && t.op <= V_BAD) { if (o.hv) show_v(o.v, w); }
    else if (t.op >= S_NEW && t.op <= S_BAD) { if (o.hs[k]) show_s(o.s[k], w); }
    else if (t.op >= L_NEW && t.op <= L_WALK) { if (o.hl) show_l(o.l, w); }
    else if (t.op >= B_NEW && t.op <= B_ALL) { if (o.hb) show_b(o.b, w); if (o.hb2 && t.op == B_NEW) show_b(o.b2, w); }
    cx.end();
    cx.mutation();
}
void body(int me)
{
    for (auto& ps : prog[me])
    {
        cx.step = ps.first;
        rt_point();
        if (!alone) cx.log("#%d thread %d: %s %lld %lld %lld f=%x", ps.first, me, names[ps.second.op], ps.second.a[1], ps.second.a[2], ps.second.a[3], ps.second.f);
        one(me, ps.second);
    }
    Obj& o = *ob[me];
    cx.begin(0);
    if (o.hv) note(ZyanVectorDestroy(&o.v), "vector_destroy");
    for (int k = 0; k < 2; ++k) if (o.hs[k]) note(ZyanStringDestroy(&o.s[k]), "string_destroy");
    if (o.hl) note(ZyanListDestroy(&o.l), "list_destroy");
    if (o.hb) note(ZyanBitsetDestroy(&o.b), "bitset_destroy");
    if (o.hb2) note(ZyanBitsetDestroy(&o.b2), "bitset_destroy");
    cx.end();
    note((u64)sa_live(al[me].id), "blocks in use at the end");
    if (!alone && pos[me] != solo[me].size()) cx.fail(T_CONTENT, "thread %d gives fewer results than alone", me);
}

void load(const Plan& p)
{
    large = p.get("large"); esz = large ? (size_t)std::min<ll>((ll)sizeof(El), std::max<ll>(16, p.get("esz", 16))) : 16;
    if (large) probe("large_objects");
    nthr = (int)std::min<ll>(MAXT, std::max<ll>(1, p.get("threads", 2)));
    sim_threads_reset(8, 1);
    for (auto& v : prog) v.clear();
    for (auto& v : solo) v.clear();
    memset(pos, 0, sizeof pos);
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& s = p.steps[k];
        if (s.op != SW) prog[(size_t)s.a[0] % (size_t)nthr].push_back({(int)k, s});
    }
    for (int i = 0; i < MAXT; ++i) sa_init(&al[i], i + 1);
}
Obj* new_obj()
{
    Obj* o = (Obj*)sim_buffer(sizeof(Obj));
    o->hv = o->hs[0] = o->hs[1] = o->hl = o->hb = o->hb2 = false;
    o->nv = big(16, 120); o->ns = big(48, 1500); o->nl = big(512, 20 * (esz + 32)); o->nb = big(8, 260);
    o->vbuf = sim_buffer(o->nv * esz); o->sbuf[0] = (char*)sim_buffer(o->ns); o->sbuf[1] = (char*)sim_buffer(o->ns); o->lbuf = sim_buffer(o->nl); o->bbuf = sim_buffer(o->nb);
    return o;
}
void fresh() { for (int i = 0; i < nthr; ++i) ob[i] = new_obj(); }
void exec(const Plan& p)
{
    load(p);
    rt_readonly_clear();
    alone = true;
    fresh();
    const std::vector<u8> lib = lib_save();     // every phase starts as in a new process
    for (int i = 0; i < nthr; ++i) { rt_run(p, nthr, 1u << i, body, false); lib_restore(lib); }
    const int left = sa_live(HEAP_OWNER);
    alone = false;
    fresh();
    rt_run(p, nthr, (1u << nthr) - 1, body);
    cx.step = (int)p.steps.size();
    if (!left && sa_live(HEAP_OWNER)) cx.fail(T_CONTENT, "%d heap blocks are left, the threads alone leave none", sa_live(HEAP_OWNER));
}

void gen_large(Rng& r, Plan& p)
{
    if (!r.chance(1, 14)) return;
    p.cfg["large"] = 1; p.cfg["esz"] = r.pick({16, 17, 24, 40, 65, 100, 129, 200, 257, 512, 520, 1024});
}
void gen(Rng& r, Plan& p)
{
    p.cfg["move"] = 100;
    p.cfg["oom_status"] = r.chance(1, 4);
    const int n = (int)r.range(2, r.chance(1, 4) ? 4 : 2);
    p.cfg["threads"] = n;
    gen_large(r, p);
    gen_sched(r, p);
    // the kinds of objects in use in this run
    struct Grp { int lo, hi, fresh; };
    static const Grp grp[] = { {V_PUSH, V_BAD, V_NEW}, {S_APPEND, S_BAD, S_NEW}, {L_PUSH, L_WALK, L_NEW}, {B_PUSH, B_ALL, B_NEW}, {ARGS, ARGS, ARGS} };
    const bool same = r.chance(1, 2);      // all threads use the same kinds of objects: shared hidden state shows
    const u64 only = r.below(6);
    const int cls = r.pick({0, 0, 1, 2, 3});
    const ll mara = p.get("large") ? 0 : std::min<ll>(marathon(r), 8000);
    if (mara) p.cfg["long"] = 1;
    Plan q;
    for (int t = 0; t < n; ++t)
    {
        auto add = [&](int op) { Step s; s.op = op; s.a[0] = t; s.a[1] = (ll)r.below(1000); s.a[2] = (ll)r.below(100000); s.a[3] = (ll)r.below(1000); p.steps.push_back(s); };
        const int len = (int)(mara ? mara / 16 : r.range(2, r.chance(1, 4) ? 14 : 7));
        bool made[5] = {};
        for (int i = 0; i < len; ++i)
        {
            const u64 gi = same && only < 5 ? only : r.below(5);
            const Grp& g = grp[gi];
            if (!made[gi] || r.chance(1, 12))
            {
                made[gi] = true; add(g.fresh);
                if (gi == 1 || gi == 3) { p.steps.back().a[1] &= ~1ll; if (r.chance(1, 3)) { add(g.fresh); p.steps.back().a[1] |= 1; } }
                if (gi == 4) continue;
            }
            add(g.lo + (int)r.below((u64)(g.hi - g.lo + 1)));
            if (gi == 0 && r.chance(1, 3)) p.steps.back().op = V_PUSH;
            if (gi == 2 && r.chance(1, 3)) p.steps.back().op = L_PUSH;
            if (gi == 1 && r.chance(1, 4)) p.steps.back().op = S_APPEND;
        }
    }
    gen_faults(r, p, cls, 3);
}

// ------------------------------------------------------------------------------------------------
// Readers of shared objects

enum ROp { R_SW, R_VGET, R_VSIZE, R_VFIND, R_VBSEARCH, R_VDUP, R_SGET, R_SSEARCH, R_SCOMPARE, R_SVIEW, R_SDUP, R_SAPPEND, R_LWALK, R_BTEST, R_BQUERY, R_BLOGIC, R_NOPS };
const char* const rnames[R_NOPS] = { "switch", "vector_get", "vector_size", "vector_find", "vector_bsearch", "vector_duplicate", "string_get", "string_search", "string_compare",
    "string_view", "string_duplicate", "string_append_from", "list_walk", "bitset_test", "bitset_query", "bitset_logic" };
Obj* so;              // the shared objects
ZyanStringView* sv;   // a shared view into the second string

void rone(int me, const Step& t)
{
    const char* w = rnames[t.op];
    const ll a = t.a[1], b = t.a[2], c = t.a[3];
    const size_t k = (size_t)(a & 1);
    Obj& o = *so;
    const ZyanStringView* str = a % 3 == 2 ? sv : (const ZyanStringView*)&o.s[k];
    cx.begin(t.f);
    switch (t.op)
    {
    case R_VGET:
    {
        const size_t i = (size_t)b % (o.v.size + 2);
        const El* e = (const El*)ZyanVectorGet(&o.v, i); note(e ? (u64)((u8*)e - (u8*)o.v.data) : 1, w); if (e) note(e->key, w);
        e = (const El*)ZyanVectorGetMutable(&o.v, i); note(e ? (u64)((u8*)e - (u8*)o.v.data) : 1, w);
        const void* p = nullptr; void* q = nullptr;
        note(ZyanVectorGetPointer(&o.v, i, &p), w); note(ZyanVectorGetPointerMutable(&o.v, i, &q), w); note(p == q, w);
        break;
    }
    case R_VSIZE: { ZyanUSize n = 0, m = 0; note(ZyanVectorGetSize(&o.v, &n), w); note(ZyanVectorGetCapacity(&o.v, &m), w); note(n * 1000 + m, w); break; }
    case R_VFIND:
    {
        El e = el(b); ZyanISize at = -3; const size_t i = o.v.size ? (size_t)c % o.v.size : 0;
        note(a & 1 || !o.v.size ? ZyanVectorFind(&o.v, &e, &at, eq_el) : ZyanVectorFindEx(&o.v, &e, &at, eq_el, i, o.v.size - i), w); note((u64)at, w);
        break;
    }
    case R_VBSEARCH: { El e = el(b); ZyanUSize at = 999; note(ZyanVectorBinarySearch(&o.v, &e, &at, cmp_el), w); note(at, w); break; }
    case R_VDUP:
    {
        ZyanVector d; u8* const buf = (u8*)__builtin_alloca(big(40, 130) * esz);
        const ZyanStatus st = a % 3 == 0 ? ZyanVectorDuplicate(&d, &o.v, (size_t)b % 30) : a % 3 == 1 ? ZyanVectorDuplicateEx(&d, &o.v, (size_t)b % 30, &al[me].a, 2, 2) : ZyanVectorDuplicateCustomBuffer(&d, &o.v, buf, (size_t)b % big(40, 130));
        note(st, w);
        if (ZYAN_SUCCESS(st)) { show_v(d, w); d.destructor = nullptr; note(ZyanVectorDestroy(&d), w); }
        break;
    }
    case R_SGET:
    {
        ZyanUSize n = 0; const char* d = nullptr; char ch = 0;
        note(ZyanStringViewGetSize(str, &n), w); note(ZyanStringViewGetData(str, &d), w); note(n, w); if (d) note_bytes(d, n, w);
        const ZyanStatus st = ZyanStringGetChar(str, (size_t)b % (n + 2), &ch); note(st, w); if (ZYAN_SUCCESS(st)) note((u64)(u8)ch, w);
        if (str != sv) { note(ZyanStringGetSize(&o.s[k], &n), w); note(n, w); if (d) note_bytes(d, n + 1, w); note(ZyanStringGetData(&o.s[k], &d), w); if (d) note_bytes(d, n, w); note(ZyanStringGetCapacity(&o.s[k], &n), w); note(n, w); }
        break;
    }
    case R_SSEARCH:
    {
        ZyanStringView n = word(b); const ZyanStringView* nd = c % 5 == 0 ? sv : &n;
        const size_t z = str->string.vector.size - 1, i = z ? (size_t)c % z : 0;
        search(str, nd, c, i, z ? (size_t)(c / 3) % (z - i + 1) : 0);
        break;
    }
    case R_SCOMPARE:
    {
        ZyanStringView n = word(b); const ZyanStringView* x = c % 3 == 0 ? &n : (const ZyanStringView*)&o.s[1]; ZyanI32 r = 9;
        note(c & 1 ? ZyanStringCompare(str, x, &r) : ZyanStringCompareI(str, x, &r), w); note((u64)((r > 0) - (r < 0)), w);
        break;
    }
    case R_SVIEW:
    {
        ZyanStringView v, v2; const size_t z = str->string.vector.size - 1, i = z ? (size_t)b % z : 0;
        note(ZyanStringViewInsideView(&v, str), w); show_view(v, (char*)str->string.vector.data, w);
        note(ZyanStringViewInsideViewEx(&v2, str, i, z - i), w); show_view(v2, (char*)str->string.vector.data, w);
        break;
    }
    case R_SDUP:
    {
        ZyanString d; ZyanStatus st; char buf[4000];
        switch (b % 4)
        {
        case 0: st = ZyanStringDuplicate(&d, str, (size_t)c % 40); break;
        case 1: st = ZyanStringDuplicateCustomBuffer(&d, str, buf, (size_t)c % 1000 * big(16, 400) / 100); break;
        case 2: st = ZyanStringConcat(&d, str, sv, (size_t)c % 40); break;
        default: st = ZyanStringConcatEx(&d, sv, str, (size_t)c % 40, &al[me].a, 2, 4); break;
        }
        note(st, w);
        if (ZYAN_SUCCESS(st)) { show_s(d, w); note(ZyanStringDestroy(&d), w); }
        break;
    }
    case R_SAPPEND:
    {
        ZyanString d;
        if (!ZYAN_SUCCESS(ZyanStringInit(&d, (size_t)c % 10))) { note(77, w); break; }
        const size_t z = str->string.vector.size - 1, i = z ? (size_t)b % z : 0;
        note(ZyanStringAppend(&d, str), w); note(ZyanStringInsertEx(&d, 0, str, i, z - i), w);
        note(ZyanStringAppendDecS(&d, (ZyanI64)b, 3, ZYAN_TRUE, str), w); note(ZyanStringAppendHexS(&d, (ZyanI64)-c, 3, ZYAN_TRUE, ZYAN_TRUE, sv), w);
        show_s(d, w);
        note(ZyanStringDestroy(&d), w);
        break;
    }
    case R_LWALK: show_l(o.l, w); break;
    case R_BTEST:
    {
        note(ZyanBitsetTest(&o.b, (size_t)b % (o.b.size + 2)), w); note(ZyanBitsetTestMSB(&o.b), w); note(ZyanBitsetTestLSB(&o.b), w);
        ZyanUSize n = 0; note(ZyanBitsetGetCapacity(&o.b, &n), w); note(n, w);
        break;
    }
    case R_BQUERY: show_b(o.b, w); break;
    case R_BLOGIC:
    {
        ZyanBitset d; u8 buf[260];
        if (!ZYAN_SUCCESS(ZyanBitsetInitBuffer(&d, std::min<size_t>(o.b.size, big(100, 2000)), buf, sizeof buf))) { note(78, w); break; }
        note(ZyanBitsetResetAll(&d), w);
        switch (c % 4) { case 0: note(ZyanBitsetAND(&d, &o.b), w); break; case 1: note(ZyanBitsetOR(&d, &o.b), w); break; case 2: note(ZyanBitsetXOR(&d, &o.b), w); break; default: note(ZyanBitsetPerformByteOperation(&d, &o.b, op_nand), w); }
        show_b(d, w);
        note(ZyanBitsetDestroy(&d), w);
        break;
    }
    }
    note((u64)cx.end(), "number of failed allocations");
    cx.mutation();
}
void rbody(int me)
{
    for (auto& ps : prog[me])
    {
        cx.step = ps.first;
        rt_point();
        if (!alone) cx.log("#%d thread %d: %s %lld %lld %lld", ps.first, me, rnames[ps.second.op], ps.second.a[1], ps.second.a[2], ps.second.a[3]);
        rone(me, ps.second);
    }
    if (!alone && pos[me] != solo[me].size()) cx.fail(T_CONTENT, "thread %d gives fewer results than alone", me);
}
void need(ZyanStatus st) { if (!ZYAN_SUCCESS(st)) { probe("setup_failed"); throw Abandon(); } }
std::vector<std::pair<const void*, size_t>> parts;
std::vector<u8> snap;
void snapshot(std::vector<u8>& to) { to.clear(); for (auto& q : parts) to.insert(to.end(), (const u8*)q.first, (const u8*)q.first + q.second); }

void rexec(const Plan& p)
{
    load(p);
    rt_readonly_clear();
    so = new_obj(); sv = (ZyanStringView*)sim_buffer(sizeof *sv);
    Rng q((u64)p.get("content") * 31 + 7);
    const int kind = (int)p.get("storage") % 3;
    cx.begin(0);
    const size_t nv = (size_t)p.get("nv") % big(15, 115), nl = (size_t)p.get("nl") % big(8, 18), nb = (size_t)p.get("nb") % big(62, 2000);
    if (kind == 2) need(ZyanVectorInitCustomBuffer(&so->v, esz, so->vbuf, so->nv, nullptr)); else need(kind ? ZyanVectorInit(&so->v, esz, 2, nullptr) : ZyanVectorInitEx(&so->v, esz, big(20, 120), nullptr, &al[0].a, 2, 2));
    u64 key = q.below(5);
    for (size_t i = 0; i < nv; ++i) { El e = el((ll)key); need(ZyanVectorPushBack(&so->v, &e)); key += q.below(9); }
    for (int k = 0; k < 2; ++k)
    {
        if (kind == 2) need(ZyanStringInitCustomBuffer(&so->s[k], so->sbuf[k], so->ns)); else need(ZyanStringInit(&so->s[k], 4));
        const int words = (int)q.below(4);
        for (int i = 0; i < words; ++i) { ZyanStringView v = word((ll)q.below(NWORDS - 1)); need(so->s[k].vector.size + v.string.vector.size < so->ns - 2 ? ZyanStringAppend(&so->s[k], &v) : ZYAN_STATUS_SUCCESS); }
    }
    const size_t z = so->s[1].vector.size - 1, vi = z ? q.below(z) : 0;
    need(ZyanStringViewInsideViewEx(sv, (ZyanStringView*)&so->s[1], vi, z ? q.below(z - vi + 1) : 0));
    if (kind == 2) need(ZyanListInitCustomBuffer(&so->l, esz, nullptr, so->lbuf, so->nl)); else need(ZyanListInit(&so->l, esz, nullptr));
    for (size_t i = 0; i < nl; ++i) { El e = el((ll)q.below(97)); need(q.chance(1, 2) ? ZyanListPushBack(&so->l, &e) : ZyanListPushFront(&so->l, &e)); }
    if (kind == 2) need(ZyanBitsetInitBuffer(&so->b, nb, so->bbuf, so->nb)); else need(ZyanBitsetInit(&so->b, nb));
    const u64 bias = q.below(4);
    for (size_t i = 0; i < nb; ++i) need(ZyanBitsetAssign(&so->b, i, bias == 0 ? ZYAN_TRUE : bias == 1 ? ZYAN_FALSE : (ZyanBool)q.below(2)));
    cx.end();
    parts.clear();
    parts.push_back({so, sizeof *so}); parts.push_back({sv, sizeof *sv});
    if (kind == 2) { parts.push_back({so->vbuf, so->nv * esz}); parts.push_back({so->sbuf[0], so->ns}); parts.push_back({so->sbuf[1], so->ns}); parts.push_back({so->lbuf, so->nl}); parts.push_back({so->bbuf, so->nb}); }
    if (kind != 2)
    {
        parts.push_back({so->v.data, so->v.capacity * esz}); parts.push_back({so->b.bits.data, so->b.bits.capacity});
        for (int k = 0; k < 2; ++k) parts.push_back({so->s[k].vector.data, so->s[k].vector.capacity});
        const ZyanListNode* x = nullptr; ZyanListGetHeadNode(&so->l, &x);
        while (x) { parts.push_back({x, sizeof(ZyanListNode) + esz}); ZyanListGetNextNode(&x); }
    }
    for (auto& q2 : parts) rt_readonly_add(q2.first, q2.second);
    snapshot(snap);
    std::vector<u8> now;
    alone = true;
    const std::vector<u8> lib = lib_save();     // the readers are the first to read, alone as well as together
    for (int i = 0; i < nthr; ++i) { rt_run(p, nthr, 1u << i, rbody, false); lib_restore(lib); }
    snapshot(now);
    if (now != snap) cx.fail(T_SCHED, "read-only operations changed the object");
    alone = false;
    rt_run(p, nthr, (1u << nthr) - 1, rbody);
    cx.step = (int)p.steps.size();
    snapshot(now);
    if (now != snap) cx.fail(T_SCHED, "read-only operations changed the object");
    rt_readonly_clear();
}
void rgen(Rng& r, Plan& p)
{
    p.cfg["move"] = 100;
    const int n = (int)r.range(2, r.chance(1, 3) ? 5 : 3);
    p.cfg["threads"] = n;
    p.cfg["content"] = (ll)r.below(1000000); p.cfg["storage"] = (ll)r.below(3);
    p.cfg["nv"] = (ll)r.below(15); p.cfg["nl"] = (ll)r.below(8); p.cfg["nb"] = (ll)r.below(62);
    gen_large(r, p);
    if (p.get("large")) { p.cfg["nv"] = (ll)r.below(115); p.cfg["nl"] = (ll)r.below(18); p.cfg["nb"] = (ll)r.below(2000); }
    gen_sched(r, p);
    const int focus = r.chance(1, 2) ? (int)r.range(1, R_NOPS - 1) : 0;
    for (int t = 0; t < n; ++t)
    {
        const int len = (int)r.range(1, 6);
        for (int i = 0; i < len; ++i)
        {
            Step s; s.op = focus && r.chance(2, 3) ? focus : (int)r.range(1, R_NOPS - 1); s.a[0] = t; s.a[1] = (ll)r.below(1000); s.a[2] = (ll)r.below(100000); s.a[3] = (ll)r.below(1000);
            p.steps.push_back(s);
        }
    }
    gen_faults(r, p, r.pick({0, 0, 0, 1, 2}), 3);
}

// ------------------------------------------------------------------------------------------------
// Threads that share one set of objects under a lock of the library: the same operations in the same order give the same
// results as in a single thread.

extern "C" u32 at_cas32(void*, u32, u32); extern "C" u32 at_dec32(void*);
struct Guard { ZyanCriticalSection cs; u64 word; };
Guard* gd;
int guard_kind, unfinished, inside_, last, ordered, turn;
std::vector<bool> is_op; int last_step;
bool my_turn(void* step) { return turn >= *(int*)step; }
std::vector<std::pair<int, Step>> order;      // as the operations were executed
void g_enter(ll how)
{
    if (guard_kind) { while (at_cas32(&gd->word, 0, 1) != 0) { probe("spun"); rt_yield(); } }
    else
    {
        bool in = false;
        for (ll i = 0; i < how % 3 && !in; ++i) { in = ZyanCriticalSectionTryEnter(&gd->cs) == ZYAN_TRUE; if (!in) rt_yield(); }
        if (!in && !ZYAN_SUCCESS(ZyanCriticalSectionEnter(&gd->cs))) cx.fail(T_CONTENT, "cannot enter the critical section");
        if (how & 4 && !ZYAN_SUCCESS(ZyanCriticalSectionEnter(&gd->cs))) cx.fail(T_CONTENT, "cannot enter the critical section again");
    }
    if (inside_++) cx.fail(T_SCHED, "two threads hold the lock");
}
void g_leave(ll how)
{
    --inside_;
    if (guard_kind) { if (how & 8 ? at_dec32(&gd->word) != 0 : at_cas32(&gd->word, 1, 0) != 1) cx.fail(T_CONTENT, "the lock word changed while it was held"); return; }
    if (how & 4 && !ZYAN_SUCCESS(ZyanCriticalSectionLeave(&gd->cs))) cx.fail(T_CONTENT, "cannot leave the critical section");
    if (!ZYAN_SUCCESS(ZyanCriticalSectionLeave(&gd->cs))) cx.fail(T_CONTENT, "cannot leave the critical section");
}
void g_finish()
{
    Obj& o = *ob[0];
    cx.begin(0);
    if (o.hv) note(ZyanVectorDestroy(&o.v), "vector_destroy");
    for (int k = 0; k < 2; ++k) if (o.hs[k]) note(ZyanStringDestroy(&o.s[k]), "string_destroy");
    if (o.hl) note(ZyanListDestroy(&o.l), "list_destroy");
    if (o.hb) note(ZyanBitsetDestroy(&o.b), "bitset_destroy");
    if (o.hb2) note(ZyanBitsetDestroy(&o.b2), "bitset_destroy");
    cx.end();
    note((u64)sa_live(al[0].id), "blocks in use at the end");
}
void gbody(int me)
{

    for (auto& ps : prog[me])
    {
        const Step& t = ps.second;
        cx.step = ps.first;
        rt_point();
        const ll how = (ll)(mix64((u64)(t.a[1] * 7 + t.a[2])) & 15);
        int mine = ps.first;
        if (ordered) rt_wait(my_turn, &mine);     // the threads take turns as the plan says
        cx.begin(0);
        g_enter(how);
        cx.end();
        cx.log("#%d thread %d: %s %lld %lld %lld f=%x", ps.first, me, names[t.op], t.a[1], t.a[2], t.a[3], t.f);
        if (!order.empty() && last != me) probe("object_changed_hands");
        last = me;
        order.push_back(ps);
        one(0, t);
        cx.begin(0);
        g_leave(how);
        cx.end();
        for (++turn; turn < last_step && !is_op[(size_t)turn]; ++turn) {}
    }
    g_enter(0);
    if (!--unfinished) g_finish();       // the last one cleans up
    g_leave(0);
}
void gref(int)
{
    for (auto& ps : order) { cx.step = ps.first; one(0, ps.second); }
    g_finish();
    if (pos[0] != solo[0].size()) cx.fail(T_CONTENT, "a single thread gives fewer results than several threads");
}
void gexec(const Plan& p)
{
    load(p);
    rt_readonly_clear();
    struct Reset { ~Reset() { guarded = false; } } reset;
    guarded = true; alone = true;
    guard_kind = (int)p.get("guard") & 1; unfinished = nthr; inside_ = 0; order.clear(); last = -1; ordered = (int)p.get("ordered"); turn = 0;
    last_step = (int)p.steps.size(); is_op.assign(p.steps.size() + 1, false);
    for (size_t i = 0; i < p.steps.size(); ++i) is_op[i] = p.steps[i].op != SW;
    while (turn < last_step && !is_op[(size_t)turn]) ++turn;
    gd = (Guard*)sim_buffer(sizeof(Guard)); memset(gd, 0, sizeof *gd);
    auto obj = [] { ob[0] = new_obj(); };
    obj();
    const std::vector<u8> lib = lib_save();
    if (!guard_kind && !ZYAN_SUCCESS(ZyanCriticalSectionInitialize(&gd->cs))) throw Abandon();
    rt_run(p, nthr, (1u << nthr) - 1, gbody);
    cx.step = (int)p.steps.size();
    const int left = sa_live(HEAP_OWNER);
    if (!guard_kind && !ZYAN_SUCCESS(ZyanCriticalSectionDelete(&gd->cs))) cx.fail(T_CONTENT, "cannot delete the critical section");
    lib_restore(lib);
    alone = false;
    obj();
    rt_run(p, nthr, 1, gref, false);
    if (sa_live(HEAP_OWNER) != 2 * left) cx.fail(T_CONTENT, "%d heap blocks are left after several threads, %d after one", left, sa_live(HEAP_OWNER) - left);
}
void ggen(Rng& r, Plan& p)
{
    p.cfg["move"] = 100;
    p.cfg["oom_status"] = r.chance(1, 4);
    p.cfg["guard"] = r.chance(1, 4);
    const int n = (int)r.range(2, r.chance(1, 3) ? 5 : 3);
    p.cfg["threads"] = n;
    gen_large(r, p);
    gen_sched(r, p);
    static const int grp[][3] = { {V_PUSH, V_BAD, V_NEW}, {S_APPEND, S_BAD, S_NEW}, {L_PUSH, L_WALK, L_NEW}, {B_PUSH, B_ALL, B_NEW}, {ARGS, ARGS, ARGS} };
    const u64 only = r.below(7);
    const ll mara = p.get("large") ? 0 : std::min<ll>(marathon(r), 8000);
    if (mara) p.cfg["long"] = 1;
    const int len = (int)(mara ? mara / 6 : r.range(4, r.chance(1, 4) ? 30 : 14));
    // few values and repetitions by other threads: what one thread might remember, another changes
    ll pal[4]; for (auto& x : pal) x = (ll)r.below(1000);
    const bool few = r.chance(1, 2), again = r.chance(1, 2);
    p.cfg["ordered"] = again;
    auto num = [&](u64 n) { return few && r.chance(3, 4) ? pal[r.below(4)] : (ll)r.below(n); };
    // a question, a change by another thread, the same question: what a thread remembers is no longer true
    const bool recall = r.chance(1, 4);
    if (recall)
    {
        struct Kind { int fresh, fill, ask[4], change[6]; };
        static const Kind kinds[] = { {V_NEW, V_PUSH, {V_FIND, V_FIND, V_BSEARCH, V_DUP}, {V_SET, V_SET, V_SWAP, V_INSERT, V_EMPLACE, V_DELETE}},
            {S_NEW, S_APPEND, {S_SEARCH, S_SEARCH, S_COMPARE, S_VIEW}, {S_CASE, S_CASE, S_INSERT, S_DELETE, S_APPEND, S_FORMAT}},
            {L_NEW, L_PUSH, {L_WALK, L_WALK, L_WALK, L_WALK}, {L_PUSH, L_POP, L_EMPLACE, L_REMOVE, L_RESIZE, L_POP}},
            {B_NEW, B_PUSH, {B_QUERY, B_QUERY, B_BIT, B_QUERY}, {B_BIT, B_BIT, B_ALL, B_LOGIC, B_POP, B_PUSH}} };
        const Kind& k = kinds[r.pick({0, 0, 1, 1, 2, 3})];
        p.cfg["ordered"] = r.chance(5, 6);
        auto add = [&](int op, ll a, ll b, ll c) { Step s; s.op = op; s.a[0] = (ll)r.below((u64)n); s.a[1] = a; s.a[2] = b; s.a[3] = c; p.steps.push_back(s); return p.steps.size() - 1; };
        add(k.fresh, 0, (ll)r.below(1000), (ll)r.below(1000));
        for (ll i = r.range(0, p.get("large") ? 20 : 9); i > 0; --i) { if (p.get("large") && r.chance(1, 3)) add(k.fresh == V_NEW ? V_RESIZE : k.fill, (ll)r.below(1000), (ll)r.below(1000), (ll)r.below(1000)); else add(k.fill, (ll)r.below(1000), (ll)r.below(1000), (ll)r.below(1000)); }
        for (ll i = r.range(1, 4); i > 0; --i)
        {
            const Step q = p.steps[add(k.ask[r.below(4)], (ll)r.below(1000), (ll)r.below(1000), (ll)r.below(1000))];
            auto val = [&] { return r.chance(2, 3) ? q.a[1 + r.below(3)] : (ll)r.below(1000); };
            for (ll j = r.range(1, 2); j > 0; --j) { const size_t m = add(k.change[r.below(6)], val(), val(), val()); p.steps[m].a[0] = (q.a[0] + 1 + (ll)r.below((u64)n - 1)) % n; }
            p.steps.push_back(q);
        }
    }
    for (int i = 0; !recall && i < len; ++i)
    {
        const u64 gi = only < 4 ? only : r.below(only == 4 ? 5 : 4);
        Step s; if (i > n && r.chance(1, 5)) { s = p.steps[r.below(p.steps.size())]; s.a[0] = (ll)r.below((u64)n); p.steps.push_back(s); continue; }
        s.a[0] = (ll)r.below((u64)n); s.a[1] = num(1000); s.a[2] = num(100000); s.a[3] = num(1000);
        s.op = i < n || r.chance(1, 14) ? grp[gi][2] : (int)r.range(grp[gi][0], grp[gi][1]);
        if (s.op == S_NEW || s.op == B_NEW) { s.a[1] &= ~1ll; if (r.chance(1, 4)) s.a[1] |= 1; }
        if (gi == 0 && i >= n && r.chance(1, 3)) s.op = V_PUSH;
        if (gi == 1 && i >= n && r.chance(1, 4)) s.op = S_APPEND;
        if (gi == 2 && i >= n && r.chance(1, 3)) s.op = L_PUSH;
        p.steps.push_back(s);
    }
    gen_faults(r, p, r.pick({0, 0, 1, 2, 3}), 3);
}

}   // namespace
extern const Scenario scen_own, scen_rd, scen_guard;
const Scenario scen_guard = {"guarded_objects", names, NOPS, ggen, gexec};
const Scenario scen_own = {"own_objects", names, NOPS, gen, exec};
const Scenario scen_rd = {"shared_readers", rnames, R_NOPS, rgen, rexec};
