"""What is checked per property: build variants, number of runs, wording of the evidence."""

COMPONENTS = {
    "seq": {
        "real": ["Vector.c", "String.c", "Format.c", "List.c", "Bitset.c", "ArgParse.c", "Allocator.c (the default allocator's code)"],
        "stub": ["malloc/calloc/realloc/free as called by the library (simulated 16 MB heap)",
                 "user-supplied ZyanAllocator (simulated)", "vsnprintf (fails on demand, otherwise libc's)",
                 "element constructors/destructors, comparison callbacks (harness)"],
    },
    "con": {
        "real": ["API/Synchronization.c", "API/Thread.c", "Atomic.h (inline code)", "Vector.c", "String.c", "Format.c", "List.c", "Bitset.c",
                 "ArgParse.c", "Allocator.c"],
        "stub": ["threads (coroutines under the seeded scheduler)", "pthread mutexes, keys, identities", "malloc/calloc/realloc/free",
                 "vsnprintf (libc's, one step)", "mem*/str* functions (access ranges recorded, then libc's)"],
    },
    "sys": {
        "real": ["API/Synchronization.c", "API/Thread.c", "API/Memory.c", "API/Process.c", "API/Terminal.c"],
        "stub": ["pthread mutexes, mutex attributes and keys, pthread_self", "mprotect, munmap, msync, sysconf, isatty (stand-ins that record their "
                 "arguments and never touch the real system)", "in the Windows configuration: critical sections, fiber-local slots, virtual memory, "
                 "console and descriptor functions (simulated Windows)"],
    },
}
CSIM = [("csim", 1.0)]
CON_RULE = ("a case is the programs of two to six simulated threads together with one schedule; non-trivial: at least one thread was preempted "
            "inside the library (or between two accesses) and at least three operations had an effect; distinct by hash of all scheduling "
            "decisions and results, i.e. distinct interleavings")
CON_ASSUME = ["the simulated threads interleave at every access to shared memory, atomic operation and pthread call that the compiler's "
              "ThreadSanitizer instrumentation shows; memory is sequentially consistent, missing synchronisation is found as a happens-before race",
              "inline assembly would be invisible (there is none)", "POSIX build (C19: also the atomic operations for Microsoft's compiler, with its intrinsics as compiler builtins)"]
CON_STATES = "distinct (program positions and waiting states of all threads, next thread) at preemptions"


def con(runs, states=CON_STATES, **kw):
    return dict(variants=CSIM, runs=runs, rule=CON_RULE, states=states, components="con", assumptions=CON_ASSUME, **kw)


SEQ_RULE = ("a case is a seeded history of operations with fault decisions, executed against the real code and a reference model; "
            "non-trivial: at least one fault fired and at least three operations changed the container; distinct by hash of the "
            "whole history (operations' results, allocator calls, sizes)")
SEQ_ASSUME = ["single-threaded histories (concurrency: C16, C17, C19-C23, C26, C27)", "no aliasing of arguments with the container that is modified",
              "AddressSanitizer red zones find accesses outside blocks; builds: gcc -O1 with assertions, -O2 -DNDEBUG, and as far as the property concerns them the build without libc (LibC.h's functions are real code there) and the 32-bit number formatting"]
TWO = [("asan", 0.75), ("rel", 0.25)]
THREE = [("asan", 0.6), ("rel", 0.2), ("nolibc", 0.2)]            # also the build without libc
FOUR = [("asan", 0.45), ("rel", 0.2), ("x86", 0.2), ("nolibc", 0.15)]   # and the number formatting of 32-bit processors


def seq(runs, states, variants=TWO, **kw):
    return dict(variants=variants, runs=runs, rule=SEQ_RULE, states=states, components="seq", assumptions=SEQ_ASSUME, **kw)


def sysp(runs, states, **kw):
    return dict(variants=[("asan", 0.6), ("rel", 0.2), ("win", 0.2)], runs=runs, rule=SYS_RULE, states=states, components="sys", assumptions=SYS_ASSUME, **kw)


SYS_RULE = ("a case is a seeded history of calls on several objects by several simulated threads, with injected system call errors and "
            "limits (number of keys, recursion depth); non-trivial: at least one error injected and three calls with an effect; distinct by hash of the history")
SYS_ASSUME = ["POSIX build, and the Windows code on a simulated Windows", "the simulated operating system returns only error codes the real interface may return"]
VEC = "distinct (storage kind, element size, size, capacity, growth factor, shrink threshold, destructor) reached after a step"
STR = "distinct (storage kind, length, capacity, growth factor, shrink threshold) of a string reached after a step"
LST = "distinct (storage kind, element size, size, buffer use, destructor, node order) of a list reached after a step"
BIT = "distinct (storage kind, size, granted bytes, growth factor, shrink threshold) of a bitset reached after a step"
ANY = "distinct (container, storage kind, element size, size, capacity, growth factor, shrink threshold) reached after a step"
PROPS = {
    "C01": seq(480000, VEC, THREE),
    "C02": seq(480000, VEC, THREE),
    "C03": seq(480000, ANY, THREE),
    "C04": seq(480000, ANY),
    "C05": seq(480000, ANY, THREE),
    "C06": seq(480000, STR, THREE),
    "C07": seq(480000, STR, THREE),
    "C08": seq(720000, STR, FOUR),
    "C09": seq(480000, LST, THREE),
    "C10": seq(480000, LST, THREE),
    "C11": seq(480000, BIT, THREE),
    "C12": seq(480000, BIT, THREE),
    "C13": seq(320000, "distinct (expected outcome, faults, number of tokens, number of arguments, allocator) combinations"),
    "C14": seq(480000, ANY, THREE),
    "C15": seq(480000, ANY),
    "C28": seq(480000, "distinct (allocators, kinds and shapes of all nested containers) reached after a step", THREE),
    "C16": con(4000000),
    "C17": con(4000000),
    "C19": con(5000000),
    "C20": con(4000000),
    "C21": con(800000),
    "C22": con(2500000),
    "C23": con(4000000),
    "C26": con(4000000),
    "C27": con(800000),
    "C18": sysp(1200000, "distinct (critical section and slot states, operation, error) combinations reached after a step"),
    "C24": sysp(1200000, "distinct (operation, address class, length class, protection, page size, error) combinations reached"),
    "C25": sysp(1200000, "distinct (states of the three streams, operation, error) combinations reached"),
}

_MODEL = "seeded histories with allocation faults against a reference model"
_SEARCH = ("Seeded search, not exhaustive: no violation in the runs made. Trusts the reference model, the simulated allocator/heap and "
           "AddressSanitizer. ")
_CON = ("Seeded search over schedules, not exhaustive. Trusts the simulated threads and pthread layer and the compiler's instrumentation. ")
NOTES = {
    "C01": (_MODEL, _SEARCH + "Histories of up to 140 operations on up to three vectors."),
    "C02": (_MODEL, _SEARCH + "Every failing call is compared with the state before it and repeated without the fault."),
    "C03": ("seeded histories with allocation and constructor faults; every destructor call is checked", _SEARCH),
    "C04": ("simulated allocator that keeps a ledger, moves blocks and fails on demand", _SEARCH),
    "C05": ("seeded histories on exact-size caller-supplied buffers", _SEARCH),
    "C06": (_MODEL, _SEARCH + "Up to three strings, views over unterminated exact-size memory."),
    "C07": (_MODEL, _SEARCH + "Every failing call is compared with the state before it and repeated without the fault."),
    "C08": ("seeded histories with allocation and formatter faults against independently formatted text", _SEARCH),
    "C09": (_MODEL, _SEARCH + "Node addresses are part of the model."),
    "C10": (_MODEL, _SEARCH + "Fixed buffers are filled up at the end of a run."),
    "C11": (_MODEL, _SEARCH + "After every step every bit and every summary query is compared."),
    "C12": (_MODEL, _SEARCH + "Every failing call is compared with the state before it and repeated without the fault."),
    "C13": ("seeded command lines and definitions with allocation faults against a reference parser", _SEARCH),
    "C14": ("seeded histories; allocator calls are counted per operation", _SEARCH),
    "C15": ("simulated process heap behind the default allocator", _SEARCH),
    "C16": ("seeded schedules of simulated threads; exclusion oracle and happens-before race detection", _CON),
    "C17": ("seeded schedules of simulated threads with injected lock errors; reentrancy and bounded-progress oracles", _CON),
    "C19": ("seeded schedules; recorded histories are checked for linearizability", _CON),
    "C20": ("seeded schedules of simulated threads with slot exhaustion against a per-thread model", _CON),
    "C21": ("seeded schedules with allocation faults; results compared with each thread running alone, happens-before race detection", _CON),
    "C22": ("seeded schedules of readers; results compared with each thread running alone, any write to the shared object is a violation", _CON),
    "C23": ("seeded schedules with thread starts, exits and reuse of control blocks", _CON),
    "C26": ("seeded schedules of threads that pass plain data through atomic operations; values and happens-before race detection", _CON),
    "C27": ("seeded schedules with allocation faults on shared objects under a lock; the executed order is replayed in a single thread and all results compared", _CON),
    "C28": ("seeded histories of nested containers with allocation and constructor faults against a model of the whole tree; the callbacks use the library themselves", _SEARCH),
    "C18": ("simulated pthread layer with injected errors and resource limits, bookkeeping of system objects", _SEARCH),
    "C24": ("simulated system calls that record arguments and fail on demand", _SEARCH),
    "C25": ("simulated streams that are closed and reopened, stale errno", _SEARCH),
}
NOT_APPLICABLE = {
    "C30": "pure functions of their two arguments: no schedule, time, I/O or fault for a simulation to decide; seeded simulation would only be input sampling",
    "C31": "pure functions over caller-supplied memory in a build without libc: no nondeterminism to simulate",
    "C32": "compile-time macros over integers: nothing to schedule or to fail",
    "C33": "compile-time macros over integers: nothing to schedule or to fail",
}
