// Argument parser: command lines and definitions are built up step by step and parsed under allocation faults, against a
// reference parser written from the documentation.
#include "core.hpp"
#include <Zycore/ArgParse.h>
#include <algorithm>

namespace {

enum Op { DEF, TOK, PARSE, DROP, NEWLINE, NEWDEFS, NOPS };
const char* const names[NOPS] = { "define", "token", "parse", "destroy_result", "new_command_line", "new_definitions" };

struct Def { std::string name; bool boolean, required; };
struct Item { int def; bool has_value; const char* value; };
struct Result
{
    bool live = false;
    ZyanVector v;
    int kind = 0;
    const ZyanArgParseDefinition* defs = nullptr;
    size_t ndefs = 0;
    std::vector<Item> items;
    SimAlloc al;
};
const int NRES = 2;
Result res[NRES];
std::vector<Def> defs;
std::vector<std::string> toks;

const char* const SHORT = "abcnvx0?=";
const char* const LONG[] = { "--help", "--hel", "--helpme", "--n", "--out", "--out-dir", "--a=b", "--=", "---", "--x y", "--\xc3\xa4", "--0",
    "--abcdefghijklmnopqrstuvwxyz-abcdefghijklmnopqrstuvwxyz" };
const int NLONG = sizeof LONG / sizeof *LONG;
const char* const BAD[] = { "", "-", "help", "-ab", "-abc", "x", "n-" };
const char* const VALUES[] = { "file", "", "x", "-", "0", "a b", "=", "val--", "\xe4\xf6", "--", "-n", "--help", "-5", "abc-",
    "a-rather-long-value-that-is-not-an-option-at-all-but-just-a-long-string-of-characters" };
const int NVALUES = sizeof VALUES / sizeof *VALUES;

char* store(const std::string& s)
{
    char* p = (char*)sim_buffer(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    return p;
}

// ---- reference parser
struct Ref { ZyanStatus st; const char* token; bool check_token; std::vector<Item> items; };
Ref reference(const std::vector<const char*>& av, size_t argc, size_t lo, size_t hi, const std::vector<Def>& ds, const ZyanArgParseDefinition* cd)
{
    Ref r{ZYAN_STATUS_SUCCESS, nullptr, true, {}};
    auto err = [&](ZyanStatus s, const char* t, bool chk) { r.st = s; r.token = t; r.check_token = chk; r.items.clear(); return r; };
    if (lo > hi) return err(ZYAN_STATUS_INVALID_ARGUMENT, nullptr, false);
    for (auto& d : ds)
        if (d.name.size() < 2 || d.name[0] != '-' || (d.name[1] != '-' && d.name.size() != 2)) return err(ZYAN_STATUS_INVALID_ARGUMENT, nullptr, false);
    size_t unnamed = 0;
    bool options = true;
    for (size_t i = 1; i < argc; ++i)
    {
        const std::string t = av[i];
        if (options && t == "--") { options = false; continue; }
        if (options && t.size() > 2 && t[0] == '-' && t[1] == '-')
        {
            int f = -1;
            for (size_t k = 0; k < ds.size() && f < 0; ++k) if (ds[k].name == t) f = (int)k;
            if (f < 0) return err(ZYAN_STATUS_ARG_NOT_UNDERSTOOD, av[i], true);
            if (ds[(size_t)f].boolean) { r.items.push_back(Item{f, false, nullptr}); continue; }
            if (i + 1 >= argc) return err(ZYAN_STATUS_ARG_MISSES_VALUE, av[i], true);
            r.items.push_back(Item{f, true, av[++i]});
            continue;
        }
        if (options && t.size() > 1 && t[0] == '-')
        {
            const size_t at = i;
            for (size_t c = 1; c < t.size(); ++c)
            {
                int f = -1;
                for (size_t k = 0; k < ds.size() && f < 0; ++k) if (ds[k].name.size() == 2 && ds[k].name[1] == t[c] && ds[k].name[1] != '-') f = (int)k;
                if (f < 0) return err(ZYAN_STATUS_ARG_NOT_UNDERSTOOD, av[at], true);
                if (ds[(size_t)f].boolean) { r.items.push_back(Item{f, false, nullptr}); continue; }
                if (c + 1 < t.size()) r.items.push_back(Item{f, true, av[at] + c + 1});
                else
                {
                    if (i + 1 >= argc) return err(ZYAN_STATUS_ARG_MISSES_VALUE, av[at], true);
                    r.items.push_back(Item{f, true, av[++i]});
                }
                break;
            }
            continue;
        }
        if (++unnamed > hi) return err(ZYAN_STATUS_TOO_MANY_ARGS, av[i], true);
        r.items.push_back(Item{-1, true, av[i]});
    }
    if (unnamed < lo) return err(ZYAN_STATUS_TOO_FEW_ARGS, nullptr, false);
    for (size_t k = 0; k < ds.size(); ++k)
    {
        if (!ds[k].required) continue;
        bool seen = false;
        for (auto& it : r.items) seen |= it.def == (int)k;
        if (!seen) return err(ZYAN_STATUS_REQUIRED_ARG_MISSING, cd[k].name, true);
    }
    return r;
}

void check_result(Result& r, const char* when)
{
    if (!r.live) return;
    ZyanUSize n = 0;
    if (!ZYAN_SUCCESS(ZyanVectorGetSize(&r.v, &n)) || r.v.element_size != sizeof(ZyanArgParseArg)) { cx.fail(T_CONTENT, "%s: the result is not a vector of arguments", when); throw Abandon(); }
    int ow; size_t gr;
    if (!sa_block(r.v.data, &ow, &gr)) { cx.fail(T_ALLOC, "%s: the result uses memory it does not own", when); throw Abandon(); }
    if (ow != (r.kind ? HEAP_OWNER : r.al.id)) cx.fail(T_ALLOC, "%s: the result uses memory of another allocator", when);
    if (n * sizeof(ZyanArgParseArg) > gr) { cx.fail(T_ALLOC, "%s: %zu arguments in %zu bytes", when, (size_t)n, gr); throw Abandon(); }
    if (n != r.items.size()) { cx.fail(T_CONTENT, "%s: %zu arguments, expected %zu", when, (size_t)n, r.items.size()); return; }
    for (size_t i = 0; i < n; ++i)
    {
        const ZyanArgParseArg* a = nullptr;
        if (!ZYAN_SUCCESS(ZyanVectorGetPointer(&r.v, i, (const void**)&a)) || !a) { cx.fail(T_CONTENT, "%s: argument %zu is not accessible", when, i); return; }
        const Item& e = r.items[i];
        const ZyanArgParseDefinition* d = e.def < 0 ? nullptr : r.defs + e.def;
        if (a->def != d) { cx.fail(T_CONTENT, "%s: argument %zu belongs to %s, expected %s", when, i, a->def ? (a->def >= r.defs && a->def < r.defs + r.ndefs ? a->def->name : "?") : "no definition", d ? d->name : "no definition"); return; }
        if ((a->has_value != ZYAN_FALSE) != e.has_value) { cx.fail(T_CONTENT, "%s: argument %zu has_value is %d", when, i, a->has_value); return; }
        if (!e.has_value) continue;
        ZyanUSize vn = 0; const char* vp = nullptr;
        if (!ZYAN_SUCCESS(ZyanStringViewGetSize(&a->value, &vn)) || !ZYAN_SUCCESS(ZyanStringViewGetData(&a->value, &vp))) { cx.fail(T_CONTENT, "%s: the value of argument %zu is not accessible", when, i); return; }
        if (vp != e.value) { cx.fail(T_CONTENT, "%s: the value of argument %zu is not the part of the command line it should be (\"%s\")", when, i, e.value); return; }
        if (vn != strlen(e.value)) { cx.fail(T_CONTENT, "%s: the value of argument %zu has %zu characters, expected %zu", when, i, (size_t)vn, strlen(e.value)); return; }
    }
}
void leak_check(const char* when)
{
    int heap = 0;
    for (auto& r : res)
    {
        const int want = r.live && !r.kind, got = sa_live(r.al.id);
        if (got != want) cx.fail(T_LEAK, "%s: %d blocks of the allocator are in use, expected %d", when, got, want);
        heap += r.live && r.kind;
    }
    if (sa_live(HEAP_OWNER) != heap) cx.fail(T_LEAK, "%s: %d heap blocks are in use, expected %d", when, sa_live(HEAP_OWNER), heap);
}
void destroy(Result& r)
{
    if (!r.live) return;
    const ZyanStatus st = ZyanVectorDestroy(&r.v);
    r.live = false;
    cx.ev(st);
    if (!ZYAN_SUCCESS(st)) cx.fail(T_REFUSE, "destroying the result failed with %08x", st);
}

bool parse(const Step& t, u32 mask)
{
    Result& r = res[(size_t)t.a[0] % NRES];
    cx.begin(0);
    destroy(r);
    r.kind = (int)(t.a[1] & 1);
    const bool no_token = (t.a[1] >> 1) & 1, no_defs = defs.empty() && ((t.a[1] >> 2) & 1), no_prog = toks.empty() && ((t.a[1] >> 3) & 1);
    const size_t lo = (size_t)t.a[2], hi = t.a[3] < 0 ? ~(size_t)0 : (size_t)t.a[3];
    // the definitions and the command line in exactly sized storage
    ZyanArgParseDefinition* cd = nullptr;
    if (!no_defs)
    {
        cd = (ZyanArgParseDefinition*)sim_buffer((defs.size() + 1) * sizeof *cd);
        for (size_t i = 0; i < defs.size(); ++i)
        {
            cd[i].name = store(defs[i].name);
            cd[i].boolean = defs[i].boolean ? ZYAN_TRUE : ZYAN_FALSE;
            cd[i].required = defs[i].required ? ZYAN_TRUE : ZYAN_FALSE;
        }
        cd[defs.size()].name = nullptr;
    }
    const size_t argc = no_prog ? 0 : toks.size() + 1;
    std::vector<const char*> av;
    if (!no_prog) av.push_back(store("--prog"));
    for (auto& x : toks) if (!no_prog) av.push_back(store(x));
    const char** argv = (const char**)sim_buffer((argc + 1) * sizeof(char*));
    for (size_t i = 0; i < argc; ++i) argv[i] = av[i];
    argv[argc] = nullptr;
    std::string before;
    for (auto* x : av) before += std::string(x) + '\n';
    const Ref want = reference(av, argc, lo, hi, defs, cd);
    ZyanArgParseConfig* cfg = (ZyanArgParseConfig*)sim_buffer(sizeof *cfg);
    cfg->argv = argv; cfg->argc = argc; cfg->min_unnamed_args = lo; cfg->max_unnamed_args = hi; cfg->args = cd;
    const char* const junk = "untouched";
    const char* token = junk;
    sim_fill(&r.v, sizeof r.v);
    cx.begin(mask);
    const ZyanStatus st = r.kind ? ZyanArgParse(cfg, &r.v, no_token ? nullptr : &token) : ZyanArgParseEx(cfg, &r.v, no_token ? nullptr : &token, &r.al.a);
    const int fired = cx.end();
    const ZyanStatus oom = r.kind ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : cx.fault_status;
    cx.ev(st); cx.ev(want.items.size()); for (auto& x : toks) cx.ev_bytes(x.data(), x.size());
    if (!toks.empty()) cx.mutation();
    cx.log("    parse of %zu tokens, %zu definitions -> %08x (faults %d), expected %08x", toks.size(), defs.size(), st, fired, want.st);
    probe(want.st == ZYAN_STATUS_SUCCESS ? "parsed" : want.st == ZYAN_STATUS_ARG_NOT_UNDERSTOOD ? "not_understood" : want.st == ZYAN_STATUS_ARG_MISSES_VALUE ? "misses_value" :
        want.st == ZYAN_STATUS_TOO_MANY_ARGS ? "too_many" : want.st == ZYAN_STATUS_TOO_FEW_ARGS ? "too_few" : want.st == ZYAN_STATUS_REQUIRED_ARG_MISSING ? "required_missing" : "invalid_definition");
    r.live = ZYAN_SUCCESS(st);
    if (fired)
    {
        // Whatever the command line is worth: memory ran out, and that is the answer.
        size_t most = argc; for (auto& x : toks) most += x.size();
        if (cx.starved(65536 + 8 * most * sizeof(ZyanArgParseArg))) cx.fail(T_REFUSE, "the parse used up %zu bytes of memory for %zu tokens", cx.room, toks.size());
        if (st != oom) cx.fail(T_REFUSE, "memory ran out and the parse returned %08x, expected %08x", st, oom);
    } else
    {
        if (st != want.st) cx.fail(want.st == ZYAN_STATUS_SUCCESS ? T_REFUSE : T_STATUS, "the parse returned %08x, expected %08x", st, want.st);
        if (!r.live && want.check_token && !no_token)
        {
            if (token == junk || !token) cx.fail(T_STATUS, "no error token, expected \"%s\"", want.token);
            else if (token != want.token) cx.fail(T_STATUS, "the error token is another one than \"%s\"", want.token);
        }
        if (r.live && !no_token && token != nullptr) cx.fail(T_STATUS, "an error token after success");
    }
    std::string after;
    for (auto* x : av) after += std::string(x) + '\n';
    bool same = cfg->argv == argv && cfg->argc == argc && cfg->args == cd && argv[argc] == nullptr && after == before;
    for (size_t i = 0; i < argc; ++i) same &= argv[i] == av[i];
    if (!same) cx.fail(T_CONTENT, "the parse changed its input");
    if (r.live)
    {
        r.defs = cd; r.ndefs = defs.size(); r.items = want.items;
        if (want.st != ZYAN_STATUS_SUCCESS) { destroy(r); cx.muted = false; }
        else { check_result(r, "after the parse"); cx.mutation(); if (r.items.size() > argc) probe("more_arguments_than_tokens"); }
    }
    leak_check(r.live ? "after a successful parse" : "after a failed parse");
    cx.state((u64)want.st ^ (u64)fired << 20 ^ (u64)argc << 32 ^ (u64)want.items.size() << 40 ^ (u64)r.kind << 50 ^ 4ull << 60);
    return cx.injected > 0;
}

void exec(const Plan& p)
{
    for (int i = 0; i < NRES; ++i) { res[i] = Result(); sa_init(&res[i].al, i + 1); }
    defs.clear(); toks.clear();
    const size_t maxtok = (size_t)p.get("maxtok", 24), maxdef = (size_t)p.get("maxdef", 16);
    size_t chars = 0;
    const size_t MAXCHARS = 1 << 20;
    auto shortdef = [&](ll c) { for (auto& d : defs) if (d.name.size() == 2 && d.name[1] == SHORT[(size_t)c % strlen(SHORT)]) return &d; return (Def*)nullptr; };
    for (size_t k = 0; k < p.steps.size(); ++k)
    {
        const Step& t = p.steps[k];
        cx.step = (int)k;
        cx.log("#%zu %s %lld %lld %lld %lld f=%x", k, names[t.op], t.a[0], t.a[1], t.a[2], t.a[3], t.f);
        cx.begin(0);
        switch (t.op)
        {
        case DEF:
        {
            for (ll j = 0; j <= t.a[4] && defs.size() < maxdef; ++j)    // a[4]: more of the kind
            {
                const size_t k = (size_t)(t.a[1] + j);
                std::string n = t.a[0] == 0 ? std::string("-") + SHORT[k % strlen(SHORT)] : t.a[0] == 1 ? LONG[k % NLONG] : t.a[0] == 2 ? BAD[k % 7] :
                    t.a[0] == 3 ? "--o" + std::to_string(k) : "--" + std::string(k, 'n');
                bool dup = false;
                for (auto& d : defs) dup |= d.name == n;
                if (!dup) { defs.push_back(Def{n, t.a[2] != 0, t.a[3] != 0}); cx.log("    %.80s%s%s", n.c_str(), t.a[2] ? " boolean" : "", t.a[3] ? " required" : ""); }
            }
            break;
        }
        case TOK:
        {
            for (ll j = 0; j <= t.a[3] && toks.size() < maxtok; ++j)    // a[3]: more of the kind
            {
            std::string s;
            const ll val = t.a[1] + j;
            Rng q((u64)val * 77 + 5);
            const Def* d = defs.empty() ? nullptr : &defs[q.below(defs.size())];
            switch (t.a[0])
            {
            case 0: s = d ? d->name : "-a"; break;                     // a defined option
            case 1:                                                     // cluster of defined flags, perhaps with an option that takes a value
            {
                s = "-";
                const ll want = t.a[2];
                for (int tries = 0; (ll)s.size() <= want && tries < 200; ++tries)
                {
                    const char c = SHORT[q.below(strlen(SHORT))];
                    const Def* f = shortdef((ll)(strchr(SHORT, c) - SHORT));
                    if (!f) { if (q.chance(1, 60)) s += c; continue; }
                    if (!f->boolean && !q.chance(1, 4) && tries < 150) continue;
                    s += c;
                    if (!f->boolean) { if (q.chance(1, 2)) s += VALUES[q.below((u64)NVALUES)]; break; }
                }
                break;
            }
            case 2: s = VALUES[(size_t)val % NVALUES]; break;
            case 3: s = "--"; break;
            case 4: s = LONG[(size_t)val % NLONG]; break;
            case 5: s = std::string("-") + SHORT[(size_t)val % strlen(SHORT)]; break;
            case 6: s = (d ? d->name : "--help") + "=value"; break;
            case 7: s = d ? d->name.substr(0, d->name.size() - 1) : "-"; break;
            case 8: s = std::string(d && d->name.size() == 2 ? d->name : "-a") + VALUES[(size_t)val % NVALUES]; break;
            case 9: s = "-"; break;
            default: s = std::string((size_t)t.a[2], 'v'); break;
            case 11:                                                    // as long as an option, but another text
                s = d ? d->name : "--help";
                if (s.size() > 2) s[2 + q.below(s.size() - 2)] ^= 1;
                break;
            }
            chars += s.size();
            if (chars > MAXCHARS) break;
            if (j < 20) cx.log("    \"%.80s\"", s.c_str());
            toks.push_back(s);
            }
            break;
        }
        case PARSE:
            if (parse(t, t.f) && t.retry)
            {
                cx.log("  again, without faults");
                probe("retry_after_fault");
                parse(t, 0);
            }
            break;
        case DROP: destroy(res[(size_t)t.a[0] % NRES]); break;
        case NEWLINE: toks.clear(); chars = 0; break;
        case NEWDEFS: defs.clear(); break;
        }
        for (auto& r : res) check_result(r, "after the step");
        leak_check("after the step");
        cx.take_muted();
    }
    cx.step = (int)p.steps.size();
    cx.begin(0);
    for (auto& r : res) destroy(r);
    cx.end();
    leak_check("after destroying everything");
}

void gen(Rng& r, Plan& p)
{
    const std::string& id = p.prop;
    p.cfg["move"] = r.pick({100, 100, 50, 0});
    p.cfg["faultkind"] = r.pick({0, 0, 0, 1, 2});
    p.cfg["oom_status"] = r.chance(1, 4);
    if (r.chance(1, 10)) p.cfg["mem"] = r.pick({64, 160, 320, 1000});
    int cls = r.pick({0, 1, 2, 2, 3, 4});
    auto add = [&](int op, ll a = 0, ll b = 0, ll c = 0, ll d = 0, ll e = 0) { Step s; s.op = op; s.a[0] = a; s.a[1] = b; s.a[2] = c; s.a[3] = d; s.a[4] = e; p.steps.push_back(s); };
    // command lines of hundreds of tokens, many definitions, long names and values; rarely more than 16 bits can count
    const bool big = r.chance(1, 16), vast = big && r.chance(1, 100);
    if (big) { p.cfg["maxtok"] = vast ? 70000 : 900; p.cfg["maxdef"] = vast ? 40 : 320; }
    const bool clean = r.chance(1, 2);   // mostly command lines that are understood
    auto define = [&]
    {
        const int n = (int)(clean ? r.range(2, 7) : r.below(7));
        for (int i = 0; i < n; ++i)
            add(DEF, r.chance(1, clean ? 400 : 40) ? 2 : r.chance(1, 3), (ll)r.below(100), r.chance(3, 5), r.chance(1, clean ? 12 : 5));
        if (big && r.chance(1, 2)) add(DEF, 3, (ll)r.below(300), r.chance(3, 5), r.chance(1, 12), (ll)r.below(r.pick({4, 40, 300})));
        if (big && r.chance(1, 2)) add(DEF, 4, vast && r.chance(1, 2) ? r.range(65530, 65540) : r.pick({30, 60, 126, 250, 254, 260, 1000}), r.chance(3, 5), 0, (ll)r.below(6));
    };
    auto line = [&]
    {
        const int n = (int)(r.chance(1, 6) ? r.range(6, 20) : r.below(6));
        for (int i = 0; i < n; ++i)
        {
            const ll kind = clean ? (big && r.chance(1, 8) ? 10 : r.pick({0, 0, 0, 1, 1, 1, 2, 2, 2})) : r.pick({0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11});
            const ll more = vast && r.chance(1, 3) ? r.range(65500, 66000) : big && r.chance(1, 3) ? (ll)r.below(r.pick({8, 80, 600})) : 0;
            const ll cl = kind == 10 && vast && !more ? r.range(65530, 65545) : kind == 10 && big && r.chance(1, 2) ? (ll)r.pick({126, 127, 254, 255, 256, 257, 1023}) : big && r.chance(1, 8) ? r.range(100, 400) : kind == 10 ? (ll)r.below(40) : r.chance(1, 3) ? r.range(1, 40) : r.range(1, 6);
            add(TOK, kind, clean && kind == 2 && !r.chance(1, 12) ? (ll)r.below(9) : (ll)r.below(10000), cl, clean && kind == 2 && r.chance(1, 2) ? 0 : more);
            if (r.chance(1, clean ? 24 : 12)) add(TOK, 3);
        }
    };
    const ll mara = marathon(r);
    const int rounds = (int)(mara && !big ? mara / 6 : r.range(1, 5));
    for (int k = 0; k < rounds; ++k)
    {
        if (k == 0 || r.chance(1, 3)) { if (k) add(NEWDEFS); define(); }
        if (k && r.chance(3, 4)) add(NEWLINE);
        line();
        ll lo = r.chance(2, 3) ? 0 : (ll)r.below(4), hi = r.chance(1, 2) ? -1 : r.chance(1, 2) ? 20 : (ll)r.below(5);
        if (big && r.chance(1, 3)) { lo = (ll)r.below(vast ? 65600 : 300); if (hi >= 0) hi = lo + (ll)r.below(400); }
        ll flags = (ll)r.below(16);
        if (id == "C15") flags |= 1; else if (r.chance(2, 3)) flags &= ~1ll;
        add(PARSE, (ll)r.below(NRES), flags, lo, hi);
        if (r.chance(1, 5)) add(DROP, (ll)r.below(NRES));
        if (r.chance(1, 6)) add(PARSE, (ll)r.below(NRES), flags, lo, hi);
    }
    gen_faults(r, p, cls, 5);
}

}   // namespace
extern const Scenario scen_argp;
const Scenario scen_argp = {"argparse", names, NOPS, gen, exec};
