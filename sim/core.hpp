// Deterministic simulator core: PRNG, plans, fault decisions, simulated allocator and heap, oracles.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <Zycore/Allocator.h>
#include <Zycore/Status.h>
#include <Zycore/Types.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef long long ll;

inline u64 mix64(u64 z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    ll range(ll lo, ll hi) { return lo + (ll)below((u64)(hi - lo + 1)); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
    template <class T> T pick(std::initializer_list<T> l) { return l.begin()[below(l.size())]; }
};

// The length of a rare long history (some hundreds of steps, more rarely thousands, hardly ever more than 16 bits can count), or 0
inline ll marathon(Rng& r) { const u64 x = r.below(120000); return !x ? r.range(70000, 140000) : x < 20 ? r.range(2000, 8000) : x < 260 ? r.range(250, 900) : 0; }
// Most of the operations of a long history are of a few kinds
inline void favour(Rng& r, int* w, int n, std::initializer_list<int> more, std::initializer_list<int> less)
{
    if (r.chance(1, 4)) return;
    if (r.chance(1, 2)) { const int k = 4 + (int)r.below(30); w[r.pick(more)] += k; w[r.pick(less)] += k; return; }       // come and go
    for (int k = 0; k < 2; ++k) { int& x = w[r.below((u64)n)]; if (x) x += 4 + (int)r.below(20); }
}

// One step of a plan. Arguments are interpreted relative to the state the run has reached, so that a
// plan stays meaningful when the minimiser drops steps.
struct Step
{
    int op = 0;
    ll a[6] = {0, 0, 0, 0, 0, 0};
    u32 f = 0;      // fault decisions: bit k = the k-th fallible request of the step fails
    int retry = 0;  // run the step again without faults, if it failed because of one
};

struct Plan
{
    std::string prop, scen;
    std::map<std::string, ll> cfg;
    std::vector<Step> steps;
    ll get(const char* k, ll d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};

// Oracle tags
enum
{
    T_CONTENT = 1,   // differs from the reference model
    T_STATUS = 2,    // accepted/refused/answered wrongly
    T_ATOMIC = 4,    // failed operation had an effect
    T_DTOR = 8,      // element lifetime
    T_ALLOC = 16,    // allocator protocol
    T_LEAK = 32,     // something still allocated
    T_CAP = 64,      // capacity promises
    T_BUFFER = 128,  // fixed storage
    T_SYS = 256,     // system call stand-ins
    T_SCHED = 512,   // concurrency
    T_REFUSE = 1024, // failed without a reason, did not fail although it had to, or fails again without fault
    T_PROGRESS = 4096, // waits that never end
    T_AFTER = 2048,  // (mask only) content/status mismatches count once a fault was injected in the run
};
const char* tag_name(int tag);

enum FaultKind
{
    F_ALLOC_FAIL, F_REALLOC_FAIL, F_REALLOC_MOVED, F_REALLOC_INPLACE, F_HEAP_FAIL, F_EXHAUSTED, F_CTOR_FAIL,
    F_BUFFER_FULL, F_FORMATTER_FAIL, F_ABSURD_SIZE, F_OUT_OF_RANGE, F_SYSCALL_FAIL, F_STALE_ERRNO, F_PREEMPT, F_STALL, F_SPURIOUS_CAS, F_MAX
};
extern u32 g_salt;
extern const char* const fault_names[F_MAX];

struct Violation { };
struct Abandon { };     // the state is too broken to go on, but it is not this property that is violated

struct Ctx
{
    u32 enabled = ~0u;
    bool verbose = false;
    u64 hash = 0;
    int step = -1;
    // violation state
    bool violated = false, muted = false;
    int vtag = 0, vstep = 0;
    std::string vmsg;
    // per call fault state
    u32 mask = 0;
    int reqno = 0;       // fallible allocator requests of the current call
    int ctorno = 0;
    int fired = 0;       // faults fired in the current call (including exhausted memory)
    int injected = 0;    // injected ones only
    size_t room = 0;     // free memory when the call began
    // memory ran out although the call may use that many bytes
    bool starved(size_t generous) const { return fired && !injected && generous <= room; }
    ZyanStatus fault_status = ZYAN_STATUS_NOT_ENOUGH_MEMORY;
    // per run
    u64 requests = 0;
    u64 decisions = 0;   // taken by the fault injector or the scheduler
    int move_pct = 100;
    bool alloc_only = false, realloc_only = false;
    u64 run_faults = 0, run_mut = 0;

    void ev(u64 v) { hash = mix64(hash ^ v) + 0x1234567; }
    void ev_bytes(const void* p, size_t n);
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // Records a violation. Returns normally if the tag is not enabled for the property.
    void fail(int tag, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    // To be used inside callbacks that are called by C code
    void fail_later(int tag, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void begin(u32 m);
    int end();          // number of faults fired; throws a pending violation
    bool take_muted() { bool m = muted; muted = false; return m; }
    void fault(FaultKind k) { ++run_faults; extern u64 g_faults[F_MAX]; ++g_faults[k]; }
    void mutation() { ++run_mut; }
    void state(u64 sig);
};
extern Ctx cx;
extern u64 g_faults[F_MAX];
void probe(const char* name);   // "this rare condition was reached" counter

// ------------------------------------------------------------------------------------------------
// Simulated memory

struct SimAlloc
{
    ZyanAllocator a;   // must be first
    int id = 0;
    bool forbidden = false;
};
void sa_init(SimAlloc* s, int id);
// Number of live blocks of an owner (owner < 0: process heap); bytes granted for its only block
int sa_live(int owner);
size_t sa_bytes(int owner);
size_t sa_count(int owner);
bool sa_block(const void* p, int* owner, size_t* granted);
bool heap_ranges_contain(const void* p, size_t n);
void sim_reset();
std::vector<u8> lib_save();                        // the library's static and thread-local data
void lib_restore(const std::vector<u8>&);
u8* sim_buffer(size_t n);           // caller owned storage with red zones, freed on reset
void sim_fill(void* p, size_t n);   // deterministic garbage

extern "C"
{
void* zsim_malloc(size_t n);
void* zsim_calloc(size_t a, size_t b);
void* zsim_realloc(void* p, size_t n);
void zsim_free(void* p);
int zsim_vsnprintf(char* s, size_t n, const char* f, va_list ap);
}
extern "C" { extern int zsim_nolibc; }    // the library was built without libc: no default allocator, no printf-style formatting
extern int g_fmt_fail;   // the n-th formatter call of the current step fails (-1: none)
const int HEAP_OWNER = -1;

// ------------------------------------------------------------------------------------------------

struct Scenario
{
    const char* name;
    const char* const* ops;
    int nops;
    void (*gen)(Rng&, Plan&);
    void (*exec)(const Plan&);
};
const Scenario* find_scenario(const std::string& name);
struct PropInfo { const char* id; u32 tags; const char* scens[6]; };
const PropInfo* find_prop(const std::string& id);

// Fault rate class of a run (swarm): 0 none, 1 rare, 2 frequent, 3 bursts, 4 everything fails
void gen_faults(Rng& r, Plan& p, int cls, u32 width);
std::string hex(const void* p, size_t n);
