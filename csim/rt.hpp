// Simulated threads: coroutines under a seeded scheduler. Every memory access of the library (own __tsan_* runtime), every
// atomic operation and every call of the pthread stand-ins is a point at which the scheduler may switch to another thread.
#pragma once
#include "core.hpp"

const int MAXT = 6;                  // simulated threads; index MAXT: the harness itself, outside of simulated threads
enum { OP_SWITCH = 0 };              // first operation of every concurrent scenario: a recorded scheduling decision

// Runs body(tid) as n threads; those not in start wait for rt_spawn. Throws Violation or Abandon if the run was stopped.
// atexit(tid) runs in the thread after its body (may be null).
void rt_run(const Plan& p, int n, u32 start, void (*body)(int), bool scheduled = true);
void rt_spawn(int tid);
int rt_self();                       // current thread or MAXT
bool rt_done(int tid);
bool rt_started(int tid);
void rt_point();                     // a switch may happen here
void rt_yield();                     // give way to another thread, if there is one
bool rt_wait(bool (*ready)(void*), void* arg);   // block until ready(arg)
u64 rt_points(int tid);              // decision points the thread has passed
int rt_others_ready();

// accesses of the harness to memory shared by simulated threads
u64 sh_read(u64* p);
void sh_write(u64* p, u64 v);
void sh_touch(const void* p, size_t n, bool write);

// happens-before edges made by the harness itself (e.g. handing over an object)
void rt_release(u64* token);
void rt_acquire(u64* token);

// writes of simulated threads into these ranges are violations
void rt_readonly_add(const void* p, size_t n);
void rt_readonly_clear();

// pthread stand-ins: state that tests need
void sim_threads_reset(int max_keys, int reuse_tcb);
void sim_thread_begin(int tid);      // assigns the control block
void sim_thread_end(int tid);        // runs slot destructors, releases the control block
int sim_mutexes_alive();
int sim_keys_alive();
void* sim_tcb(int tid);
extern u32 sim_in_try;               // threads that are in a try-enter (they must not block)
extern void (*rt_at_exit)(int);      // called in a thread when it is gone
extern int sim_err_fault;            // error number for injected failures of this call
int sim_blocked_count();

// scheduler configuration of a run, common to all scenarios
void gen_sched(Rng& r, Plan& p);
