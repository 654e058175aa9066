#include "core.hpp"
#include <algorithm>
#include <csignal>
#include <elf.h>
#include <link.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <ctime>
#include <unistd.h>
#include <unordered_set>
#if defined(__SANITIZE_ADDRESS__) || defined(__has_feature)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, b) ((void)(a), (void)(b))
#define ASAN_UNPOISON_MEMORY_REGION(a, b) ((void)(a), (void)(b))
#endif

Ctx cx;
u64 g_faults[F_MAX];
int g_fmt_fail = -1;
const char* const fault_names[F_MAX] = {
    "allocate_fails", "reallocate_fails", "reallocate_moves_block", "reallocate_in_place", "heap_call_fails",
    "memory_exhausted", "constructor_fails", "fixed_buffer_full", "formatter_fails", "absurd_size_requested",
    "out_of_range_argument", "system_call_fails", "stale_errno",
    "preemption_at_access", "thread_stalled", "spurious_compare_exchange_failure" };

static std::unordered_set<u64> g_states, g_traces;
static std::map<std::string, u64> g_probes;
void probe(const char* name) { ++g_probes[name]; }
void Ctx::state(u64 sig) { if (g_states.size() < 4000000) g_states.insert(mix64(sig)); }

const char* tag_name(int t)
{
    switch (t)
    {
    case T_CONTENT: return "content"; case T_STATUS: return "status"; case T_ATOMIC: return "failure-atomicity";
    case T_DTOR: return "element-lifetime"; case T_ALLOC: return "allocator-protocol"; case T_LEAK: return "leak";
    case T_CAP: return "capacity"; case T_BUFFER: return "fixed-buffer"; case T_SYS: return "system-call";
    case T_SCHED: return "concurrency"; case T_PROGRESS: return "progress"; case T_REFUSE: return "refusal";
    }
    return "?";
}

std::string hex(const void* p, size_t n)
{
    std::string s; char b[4];
    for (size_t i = 0; i < n && i < 48; ++i) { snprintf(b, sizeof b, "%02x", ((const u8*)p)[i]); s += b; }
    if (n > 48) s += "..";
    return s;
}

void Ctx::ev_bytes(const void* p, size_t n)
{
    const u8* b = (const u8*)p; u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
    ev(h ^ n);
}
void Ctx::log(const char* fmt, ...)
{
    if (!verbose) return;
    va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); fputc('\n', stdout);
}
static void record(Ctx& c, int tag, const char* fmt, va_list ap)
{
    char b[600]; vsnprintf(b, sizeof b, fmt, ap);
    const bool on = (c.enabled & tag) || ((c.enabled & T_AFTER) && (tag & (T_CONTENT | T_STATUS)) && c.run_faults);
    if (!on) { c.muted = true; probe("muted_oracle"); c.log("  (not this property: %s: %s)", tag_name(tag), b); return; }
    if (c.violated) return;
    c.violated = true; c.vtag = tag; c.vmsg = b; c.vstep = c.step;
    c.log("  VIOLATED %s: %s", tag_name(tag), b);
}
void Ctx::fail(int tag, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); record(*this, tag, fmt, ap); va_end(ap);
    if (violated) throw Violation();
}
void Ctx::fail_later(int tag, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); record(*this, tag, fmt, ap); va_end(ap);
}
int Ctx::end() { mask = 0; if (violated) throw Violation(); return fired; }

// ------------------------------------------------------------------------------------------------

struct Block { u8* base; size_t cap, granted, es, n; int owner; };
static std::vector<Block> g_blocks;
static std::vector<u8*> g_buffers;
#ifdef ZSIM_CSIM     // simulated threads: memory comes from the arena, garbage does not depend on the interleaving
void* zraw_alloc(size_t n); void zraw_free(void* p, size_t n); void zraw_reset(); void csim_format_access(const char*, char*, size_t);
#define FILL_NO 0
#else
static void* zraw_alloc(size_t n) { return malloc(n ? n : 1); }
static void zraw_free(void* p, size_t) { free(p); }
static void zraw_reset() {}
#define FILL_NO (g_fillno++ & 7)
#endif
static u64 g_live_bytes = 0;
static u64 g_fillno = 0;
u32 g_salt = 0;      // varies what uninitialised memory contains: must not make a difference
static size_t g_limit = 16u << 20;   // size of the simulated memory

void Ctx::begin(u32 m) { mask = m; reqno = 0; ctorno = 0; fired = 0; injected = 0; room = g_limit > g_live_bytes ? g_limit - g_live_bytes : 0; }

void sim_fill(void* p, size_t n) { memset(p, (int)((0xA1 + 29 * FILL_NO) ^ (g_salt * 0x5B)), n); }

u8* sim_buffer(size_t n)
{
    u8* b = (u8*)zraw_alloc(n); sim_fill(b, n);
#ifndef ZSIM_CSIM
    g_buffers.push_back(b);
#endif
    return b;
}
// Static data and thread-local data of the library: every run starts with the initial values
extern "C" char __start_zlibdata[] __attribute__((weak)), __stop_zlibdata[] __attribute__((weak)), __start_zlibbss[] __attribute__((weak)), __stop_zlibbss[] __attribute__((weak));
static u8 *tls_at = nullptr; static const u8* tls_img; static size_t tls_mem = 0, tls_file = 0;
static int tls_find(struct dl_phdr_info* i, size_t, void*)
{
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS)
        {
            const auto& h = i->dlpi_phdr[k];
            const size_t al = h.p_align ? h.p_align : 1;
            tls_mem = h.p_memsz; tls_file = h.p_filesz; tls_img = (const u8*)(i->dlpi_addr + h.p_vaddr);
            tls_at = (u8*)__builtin_thread_pointer() - ((h.p_memsz + al - 1) / al * al);
        }
    return 1;   // only the program itself
}
__attribute__((no_sanitize("address"), noinline)) static void raw_copy(volatile u8* d, const volatile u8* s, size_t n) { for (size_t i = 0; i < n; ++i) d[i] = s ? s[i] : 0; }
static void restore_library()
{
    static std::vector<u8> data, bss; static bool first = true;
    const size_t nd = (size_t)(__stop_zlibdata - __start_zlibdata), nb = (size_t)(__stop_zlibbss - __start_zlibbss);
    if (first)
    {
        first = false;
        data.resize(nd + 1); raw_copy(data.data(), (u8*)__start_zlibdata, nd);
        bss.resize(nb + 1); raw_copy(bss.data(), (u8*)__start_zlibbss, nb);
        dl_iterate_phdr(tls_find, nullptr);
    }
    raw_copy((u8*)__start_zlibdata, data.data(), nd);
    raw_copy((u8*)__start_zlibbss, bss.data(), nb);
    if (tls_mem) { raw_copy(tls_at, tls_img, tls_file); raw_copy(tls_at + tls_file, nullptr, tls_mem - tls_file); }
}
std::vector<u8> lib_save()
{
    const size_t nd = (size_t)(__stop_zlibdata - __start_zlibdata), nb = (size_t)(__stop_zlibbss - __start_zlibbss);
    std::vector<u8> v(nd + nb + tls_mem);
    raw_copy(v.data(), (u8*)__start_zlibdata, nd); raw_copy(v.data() + nd, (u8*)__start_zlibbss, nb); if (tls_mem) raw_copy(v.data() + nd + nb, tls_at, tls_mem);
    return v;
}
void lib_restore(const std::vector<u8>& v)
{
    const size_t nd = (size_t)(__stop_zlibdata - __start_zlibdata), nb = (size_t)(__stop_zlibbss - __start_zlibbss);
    raw_copy((u8*)__start_zlibdata, v.data(), nd); raw_copy((u8*)__start_zlibbss, v.data() + nd, nb); if (tls_mem) raw_copy(tls_at, v.data() + nd + nb, tls_mem);
}
void sim_reset()
{
    restore_library();
    for (auto& b : g_blocks) { ASAN_UNPOISON_MEMORY_REGION(b.base, b.cap); zraw_free(b.base, b.cap); }
    g_blocks.clear(); g_live_bytes = 0; g_fillno = 0;
    for (u8* b : g_buffers) free(b);
    g_buffers.clear(); g_fmt_fail = -1;
    zraw_reset();
}
static Block* find_block(const void* p)
{
    for (size_t i = g_blocks.size(); i-- > 0;) if (g_blocks[i].base == p) return &g_blocks[i];
    return nullptr;
}
int sa_live(int owner) { int n = 0; for (auto& b : g_blocks) n += b.owner == owner; return n; }
size_t sa_bytes(int owner) { for (auto& b : g_blocks) if (b.owner == owner) return b.granted; return 0; }
bool sa_block(const void* p, int* owner, size_t* granted)
{
    Block* b = find_block(p);
    if (!b) return false;
    *owner = b->owner; *granted = b->granted;
    return true;
}
size_t sa_count(int owner) { for (auto& b : g_blocks) if (b.owner == owner) return b.n; return 0; }

// decides whether the current fallible request fails
static bool request_fails(FaultKind k)
{
    ++cx.requests; ++cx.decisions;
    const int i = cx.reqno++;
    bool f = i < 16 && ((cx.mask >> i) & 1);
    if (i >= 16) f = (cx.mask >> 15) & 1;
    if (f && cx.alloc_only && k == F_REALLOC_FAIL) f = false;
    if (f && cx.realloc_only && k == F_ALLOC_FAIL) f = false;
    if (f) { ++cx.fired; ++cx.injected; cx.fault(k); }
    return f;
}
static u8* new_block(size_t bytes, size_t es, size_t n, int owner, size_t slack)
{
    u8* b = (u8*)zraw_alloc(bytes + slack);
    sim_fill(b, bytes + slack);
    if (slack) ASAN_POISON_MEMORY_REGION(b + bytes, slack);
    g_blocks.push_back(Block{b, bytes + slack, bytes, es, n, owner});
    g_live_bytes += bytes;
    return b;
}
static void drop_block(Block* b)
{
    ASAN_UNPOISON_MEMORY_REGION(b->base, b->cap);
    sim_fill(b->base, b->cap);
    zraw_free(b->base, b->cap); g_live_bytes -= b->granted;
    g_blocks.erase(g_blocks.begin() + (b - g_blocks.data()));
}
static bool too_big(size_t es, size_t n, size_t* bytes)
{
    if (__builtin_mul_overflow(es, n, bytes) || *bytes > g_limit || g_live_bytes + *bytes > g_limit)
    {
        ++cx.fired; cx.fault(F_EXHAUSTED); return true;
    }
    return false;
}
static u8* resize_block(Block* b, size_t bytes, size_t es, size_t n)
{
    const u64 r = mix64(cx.requests * 77 + b->granted + bytes * 13) % 100;
    if (bytes <= b->cap && (int)r >= cx.move_pct)
    {
        cx.fault(F_REALLOC_INPLACE); --cx.run_faults;
        ASAN_UNPOISON_MEMORY_REGION(b->base, b->cap);
        if (bytes > b->granted) sim_fill(b->base + b->granted, bytes - b->granted);
        if (bytes < b->cap) ASAN_POISON_MEMORY_REGION(b->base + bytes, b->cap - bytes);
        g_live_bytes += bytes; g_live_bytes -= b->granted;
        b->granted = bytes; b->es = es; b->n = n;
        return b->base;
    }
    cx.fault(F_REALLOC_MOVED); --cx.run_faults;
    const int owner = b->owner;
    u8* const old = b->base;
    const size_t keep = std::min(bytes, b->granted);
    u8* nb = new_block(bytes, es, n, owner, cx.move_pct < 100 ? (mix64(cx.requests) % 3) * 8 : 0);
    memcpy(nb, old, keep);
    drop_block(find_block(old));
    return nb;
}
static void shape(const char* what, SimAlloc* s, size_t es, size_t n)
{
    if (!es || !n) cx.fail_later(T_ALLOC, "%s with element size %zu, count %zu", what, es, n);
    if (s->forbidden) cx.fail_later(T_BUFFER, "%s called on an allocator that must not be used", what);
}
static ZyanStatus sa_allocate(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n)
{
    SimAlloc* s = (SimAlloc*)a;
    shape("allocate", s, es, n);
    cx.ev(0xA110C ^ (es << 32) ^ n);
    if (request_fails(F_ALLOC_FAIL)) { cx.log("    allocate(%zu x %zu) -> injected failure", (size_t)es, (size_t)n); return cx.fault_status; }
    size_t bytes;
    if (too_big(es, n, &bytes)) return cx.fault_status;
    *p = new_block(bytes, es, n, s->id, 0);
    cx.log("    allocate(%zu x %zu) -> ok", (size_t)es, (size_t)n);
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus sa_reallocate(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n)
{
    SimAlloc* s = (SimAlloc*)a;
    shape("reallocate", s, es, n);
    cx.ev(0x4EA110C ^ (es << 32) ^ n);
    Block* b = find_block(*p);
    if (!b || b->owner != s->id) { cx.fail_later(T_ALLOC, "reallocate of a block this allocator does not own"); return ZYAN_STATUS_FAILED; }
    if (b->es != es) cx.fail_later(T_ALLOC, "reallocate with element size %zu, block has %zu", (size_t)es, b->es);
    if (request_fails(F_REALLOC_FAIL)) { cx.log("    reallocate(%zu x %zu -> %zu) -> injected failure", (size_t)es, b->n, (size_t)n); return cx.fault_status; }
    size_t bytes;
    if (too_big(es, n, &bytes)) return cx.fault_status;
    cx.log("    reallocate(%zu x %zu -> %zu) -> ok", (size_t)es, b->n, (size_t)n);
    *p = resize_block(b, bytes, es, n);
    return ZYAN_STATUS_SUCCESS;
}
static ZyanStatus sa_deallocate(ZyanAllocator* a, void* p, ZyanUSize es, ZyanUSize n)
{
    SimAlloc* s = (SimAlloc*)a;
    shape("deallocate", s, es, n);
    cx.ev(0xDEA110C ^ (es << 32) ^ n);
    Block* b = find_block(p);
    if (!b || b->owner != s->id) { cx.fail_later(T_ALLOC, "deallocate of a block this allocator does not own (or that was returned before)"); return ZYAN_STATUS_SUCCESS; }
    if (b->es != es || b->n != n)
        cx.fail_later(T_ALLOC, "deallocate with %zu x %zu, block was granted as %zu x %zu", (size_t)es, (size_t)n, b->es, b->n);
    drop_block(b);
    return ZYAN_STATUS_SUCCESS;
}
void sa_init(SimAlloc* s, int id)
{
    s->id = id; s->forbidden = false;
    ZyanAllocatorInit(&s->a, sa_allocate, sa_reallocate, sa_deallocate);
}

// Process heap as seen by the library (the default allocator)
void* zsim_malloc(size_t n)
{
    cx.ev(0x4a110c ^ n);
    if (request_fails(F_HEAP_FAIL)) return nullptr;
    size_t b; if (too_big(1, n, &b)) return nullptr;
    return new_block(n, 1, n, HEAP_OWNER, 0);
}
void* zsim_calloc(size_t a, size_t c)
{
    cx.ev(0xca110c ^ (a << 20) ^ c);
    if (request_fails(F_HEAP_FAIL)) return nullptr;
    size_t b; if (too_big(a, c, &b)) return nullptr;
    void* p = new_block(b, 1, b, HEAP_OWNER, 0); memset(p, 0, b); return p;
}
void* zsim_realloc(void* p, size_t n)
{
    if (!p) return zsim_malloc(n);
    cx.ev(0x4e4a110c ^ n);
    Block* b = find_block(p);
    if (!b || b->owner != HEAP_OWNER) { cx.fail_later(T_ALLOC, "realloc of a pointer that is not a live heap block"); return nullptr; }
    if (request_fails(F_HEAP_FAIL)) return nullptr;
    size_t x; if (too_big(1, n, &x)) return nullptr;
    return resize_block(b, n, 1, n);
}
void zsim_free(void* p)
{
    if (!p) return;
    Block* b = find_block(p);
    if (!b || b->owner != HEAP_OWNER) { cx.fail_later(T_ALLOC, "free of a pointer that is not a live heap block"); return; }
    cx.ev(0xf4ee ^ b->granted);
    drop_block(b);
}
int zsim_vsnprintf(char* s, size_t n, const char* f, va_list ap)
{
    cx.ev(0xF0);
#ifdef ZSIM_CSIM
    csim_format_access(f, s, n);
#endif
    if (g_fmt_fail == 0)
    {
        g_fmt_fail = -1; ++cx.fired; ++cx.injected; cx.fault(F_FORMATTER_FAIL);
        if (n > 1) { s[0] = '?'; }   // partial output, no terminator
        return -1;
    }
    if (g_fmt_fail > 0) --g_fmt_fail;
    return vsnprintf(s, n, f, ap);
}

void gen_faults(Rng& r, Plan& p, int cls, u32 width)
{
    const u32 all = width >= 32 ? ~0u : ((1u << width) - 1);
    int burst = 0;
    for (auto& s : p.steps)
    {
        u32 f = 0;
        switch (cls)
        {
        case 1: if (r.chance(1, 16)) f = r.chance(1, 2) ? all : (1u << r.below(width)); break;
        case 2: if (r.chance(1, 3)) f = r.chance(1, 2) ? all : (u32)(r.next() & all); break;
        case 3:
            if (burst) { --burst; f = all; } else if (r.chance(1, 12)) { burst = (int)r.range(1, 9); f = all; }
            break;
        case 4: f = all; break;
        default: break;
        }
        s.f |= f;
        s.retry = r.chance(1, 2);
    }
}

// ------------------------------------------------------------------------------------------------
// Plans as text

static void write_plan(FILE* o, const Plan& p, const char* note)
{
    const Scenario* sc = find_scenario(p.scen);
    fprintf(o, "zsim-plan 1\n");
    if (note && *note) fprintf(o, "# %s\n", note);
    fprintf(o, "prop %s\nscen %s\n", p.prop.c_str(), p.scen.c_str());
    for (auto& c : p.cfg) fprintf(o, "cfg %s %lld\n", c.first.c_str(), c.second);
    for (auto& s : p.steps)
        fprintf(o, "step %s %lld %lld %lld %lld %lld %lld f=%x r=%d\n", sc->ops[s.op], s.a[0], s.a[1], s.a[2], s.a[3], s.a[4], s.a[5], s.f, s.retry);
}
static bool read_plan(const char* path, Plan& p)
{
    FILE* f = fopen(path, "r"); if (!f) return false;
    char line[600], w[80], w2[80]; bool ok = false;
    while (fgets(line, sizeof line, f))
    {
        if (line[0] == '#') continue;
        ll v;
        if (!strncmp(line, "zsim-plan 1", 11)) ok = true;
        else if (sscanf(line, "prop %79s", w) == 1) p.prop = w;
        else if (sscanf(line, "scen %79s", w) == 1) p.scen = w;
        else if (sscanf(line, "cfg %79s %lld", w2, &v) == 2) p.cfg[w2] = v;
        else if (!strncmp(line, "step ", 5))
        {
            Step s; unsigned fm;
            if (sscanf(line, "step %79s %lld %lld %lld %lld %lld %lld f=%x r=%d", w, &s.a[0], &s.a[1], &s.a[2], &s.a[3], &s.a[4], &s.a[5], &fm, &s.retry) != 9) { ok = false; break; }
            s.f = fm; s.op = -1;
            const Scenario* sc = find_scenario(p.scen);
            if (sc) for (int i = 0; i < sc->nops; ++i) if (!strcmp(sc->ops[i], w)) s.op = i;
            if (s.op < 0) { ok = false; break; }
            p.steps.push_back(s);
        }
    }
    fclose(f);
    return ok && find_scenario(p.scen) && find_prop(p.prop);
}

// ------------------------------------------------------------------------------------------------

// what uninitialised local variables contain does not depend on earlier runs
__attribute__((no_sanitize("address"), noinline)) static void scribble_stack()
{
    volatile u8 area[24 << 10];
    memset((void*)area, (int)(0x3C ^ (g_salt * 0x5B)), sizeof area);
    asm volatile("" :: "r"(area) : "memory");
}
static void run_plan(const Plan& p, bool verbose, u32 salt = 0)
{
    g_salt = salt;
    scribble_stack();
    sim_reset();
    cx = Ctx();
    cx.verbose = verbose;
    cx.enabled = find_prop(p.prop)->tags;
    cx.move_pct = (int)p.get("move", 100);
    g_limit = (size_t)p.get("mem", 16 << 20);
    cx.alloc_only = p.get("faultkind") == 1;
    cx.realloc_only = p.get("faultkind") == 2;
    cx.fault_status = p.get("oom_status") ? ZYAN_STATUS_OUT_OF_RESOURCES : ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    try { find_scenario(p.scen)->exec(p); } catch (Violation&) { } catch (Abandon&) { probe("run_abandoned"); }
    cx.ev(cx.violated); cx.ev((u64)cx.vtag); cx.ev((u64)cx.vstep);
    sim_reset();
}

static u64 prop_seed(const std::string& prop, u64 seed, u64 i)
{
    u64 h = mix64(seed);
    for (char c : prop) h = mix64(h ^ (u8)c);
    return mix64(h ^ (i * 0x9E3779B97F4A7C15ull));
}
static Plan make_plan(const std::string& prop, u64 seed, u64 i)
{
    const PropInfo* pi = find_prop(prop);
    Rng r(prop_seed(prop, seed, i));
    int n = 0; while (n < 6 && pi->scens[n]) ++n;
    Plan p; p.prop = prop; p.scen = pi->scens[r.below((u64)n)];
    find_scenario(p.scen)->gen(r, p);
    return p;
}

static const char GARBAGE[] = "the same history gives different results if uninitialised memory has different contents";
static volatile u64* g_status;   // [0] = current run, survives a crash of this process
// A run that does not end, or eats the sandbox's memory, ends the process with code 78
static volatile int g_ticks, g_maxticks;
static void on_alarm(int)
{
    if (!g_maxticks) return;
    if (++g_ticks >= g_maxticks) _exit(78);
    const int keep = errno;
    const int fd = open("/proc/self/statm", O_RDONLY);
    char b[96]; const ssize_t n = fd >= 0 ? read(fd, b, sizeof b - 1) : 0;
    if (fd >= 0) close(fd);
    u64 pages = 0; ssize_t i = 0;
    while (i < n && b[i] != ' ') ++i;
    for (++i; i < n && b[i] >= '0' && b[i] <= '9'; ++i) pages = pages * 10 + (u64)(b[i] - '0');
    if (pages > (3ull << 30) / 4096) _exit(78);
    errno = keep;
}
static void arm(int sec)
{
    g_ticks = 0; g_maxticks = sec * 20;
    static bool on = false;
    if (on) return;
    on = true;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval t = {{0, 50000}, {0, 50000}}; setitimer(ITIMER_PROF, &t, nullptr);
}

// wall clock: only limits how many runs are made, never what a run does
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

#ifdef ZSIM_CSIM
struct SwitchRec { u32 tid, at, to; };
struct SwitchLog { u32 n; SwitchRec e[1 << 16]; };
extern SwitchLog* g_switchlog;
#endif

int main(int argc, char** argv)
{
    const int pers = personality(0xffffffff);      // the same addresses in every process, where that is allowed
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    bool explicit_schedule = false;
    std::string mode = argc > 1 ? argv[1] : "", prop, out, status, file;
    u64 seed = 1, from = 0, to = 0, stride = 1; bool verbose = false; int detcheck = 16; double deadline = 1e9;
    for (int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") prop = val(); else if (a == "--seed") seed = strtoull(val(), 0, 10);
        else if (a == "--from") from = strtoull(val(), 0, 10); else if (a == "--to") to = strtoull(val(), 0, 10);
        else if (a == "--stride") stride = strtoull(val(), 0, 10);
        else if (a == "--out") out = val(); else if (a == "--status") status = val();
        else if (a == "--deadline") deadline = strtod(val(), 0);
        else if (a == "--detcheck") detcheck = atoi(val());
        else if (a == "--explicit") explicit_schedule = true;
        else if (a == "-v") verbose = true; else file = a;
    }
    const double t_end = now() + deadline;
    if (mode == "gen")
    {
        if (!find_prop(prop)) return 3;
        Plan p = make_plan(prop, seed, from);
#ifdef ZSIM_CSIM
        if (explicit_schedule)      // run it (in a child: it may crash) and write the schedule it had into the plan
        {
            fflush(stdout);
            g_switchlog = (SwitchLog*)mmap(nullptr, sizeof(SwitchLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            const pid_t c = fork();
            if (c == 0) { arm(10); run_plan(p, false); _exit(0); }
            int st; waitpid(c, &st, 0);
            p.cfg["explicit"] = 1;
            for (u32 i = 0; i < g_switchlog->n; ++i)
            {
                Step s; s.op = 0; s.a[0] = g_switchlog->e[i].tid; s.a[1] = g_switchlog->e[i].at; s.a[2] = g_switchlog->e[i].to;
                p.steps.push_back(s);
            }
        }
#endif
        write_plan(stdout, p, "");
        return 0;
    }
    if (mode == "replay")
    {
        Plan p; if (!read_plan(file.c_str(), p)) { fprintf(stderr, "bad plan %s\n", file.c_str()); return 3; }
        arm(10);
        run_plan(p, verbose);
        if (!cx.violated)
        {
            const u64 h = cx.hash, nf = cx.run_faults;
            arm(10);
            run_plan(p, false, 1);      // the same history on different uninitialised memory
            if (!cx.violated && cx.hash != h)
            {
                printf("RESULT violation tag=garbage step=-1 hash=%016llx msg=%s\n", (unsigned long long)h, GARBAGE);
                return 10;
            }
            cx.run_faults = nf;
        }
        if (cx.violated) printf("RESULT violation tag=%s step=%d hash=%016llx msg=%s\n", tag_name(cx.vtag), cx.vstep, (unsigned long long)cx.hash, cx.vmsg.c_str());
        else printf("RESULT ok hash=%016llx faults=%llu\n", (unsigned long long)cx.hash, (unsigned long long)cx.run_faults);
        return cx.violated ? 10 : 0;
    }
    if (mode != "run" || !find_prop(prop)) { fprintf(stderr, "usage: run|gen|replay\n"); return 3; }
    if (!status.empty())
    {
        int fd = open(status.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 64)) return 3;
        g_status = (volatile u64*)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    u64 simtime = 0, runs = 0, rerun = 0, steps = 0, nontrivial = 0, faultfree = 0, acc = 0; int rc = 0;
    u64 bad_run = 0; std::string bad_msg, bad_tag; u64 bad_hash = 0;
    std::string samples; int nsamples = 0;
    for (u64 i = from; i < to; i += stride)
    {
        if (g_status) g_status[0] = i;
        if (now() > t_end) break;
        arm(10);
        const Plan p = make_plan(prop, seed, i);
        run_plan(p, false);
        ++runs; steps += p.steps.size(); simtime += cx.decisions; acc = mix64(acc ^ cx.hash);
        if (cx.violated) { rc = 10; bad_run = i; bad_msg = cx.vmsg; bad_tag = tag_name(cx.vtag); bad_hash = cx.hash; break; }
        const u64 h = cx.hash;
        if (cx.run_faults == 0) ++faultfree;
        if (cx.run_faults && cx.run_mut >= 3) { if (g_traces.insert(h).second) ++nontrivial; if (nsamples < 2 && p.steps.size() < 14) { char b[64]; snprintf(b, sizeof b, "%s%llu", nsamples ? "," : "", (unsigned long long)i); samples += b; ++nsamples; } }
        if (detcheck && (runs % (u64)detcheck) == 0)
        {
            u64 keep[F_MAX]; memcpy(keep, g_faults, sizeof keep);
            auto kp = g_probes;
            const u32 salt = (u32)(rerun & 3) != 0;      // the same again, or on different uninitialised memory
            run_plan(p, false, salt); ++rerun;
            memcpy(g_faults, keep, sizeof keep); g_probes = kp;
            if (salt && cx.violated) { rc = 10; bad_run = i; bad_msg = cx.vmsg; bad_tag = tag_name(cx.vtag); bad_hash = cx.hash; break; }
            if (salt && cx.hash != h) { rc = 10; bad_run = i; bad_tag = "garbage"; bad_msg = GARBAGE; break; }
            if (cx.hash != h) { rc = 20; bad_run = i; bad_msg = "same plan, different history"; break; }
        }
    }
    arm(0);
    if (!out.empty())
    {
        FILE* o = fopen((out + ".json").c_str(), "w"); if (!o) return 3;
        fprintf(o, "{\"runs\":%llu,\"rerun\":%llu,\"steps\":%llu,\"nontrivial\":%llu,\"faultfree\":%llu,\"simtime\":%llu,\"states\":%zu,\"digest\":\"%016llx\",\"rc\":%d,\"bad_run\":%llu,\"bad_tag\":\"%s\",\"bad_hash\":\"%016llx\",",
            (unsigned long long)runs, (unsigned long long)rerun, (unsigned long long)steps, (unsigned long long)nontrivial, (unsigned long long)faultfree, (unsigned long long)simtime, g_states.size(), (unsigned long long)acc, rc, (unsigned long long)bad_run, bad_tag.c_str(), (unsigned long long)bad_hash);
        fprintf(o, "\"samples\":[%s],\"faults\":{", samples.c_str());
        for (int k = 0; k < F_MAX; ++k) fprintf(o, "%s\"%s\":%llu", k ? "," : "", fault_names[k], (unsigned long long)g_faults[k]);
        fprintf(o, "},\"probes\":{"); bool first = true;
        for (auto& q : g_probes) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", q.first.c_str(), (unsigned long long)q.second); first = false; }
        fprintf(o, "}}\n"); fclose(o);
        o = fopen((out + ".bin").c_str(), "wb"); if (!o) return 3;
        for (u64 v : g_states) fwrite(&v, 8, 1, o);
        fclose(o);
        o = fopen((out + ".tr").c_str(), "wb"); if (!o) return 3;
        for (u64 v : g_traces) fwrite(&v, 8, 1, o);
        fclose(o);
    }
    if (rc) printf("BAD run=%llu tag=%s msg=%s\n", (unsigned long long)bad_run, bad_tag.c_str(), bad_msg.c_str());
    return rc;
}
__attribute__((weak)) int zsim_nolibc = 0;
