"""What each check runs: build variants with their share of the runs, number of runs, and how its cases are made."""

STD = {"D": 30, "F": 20, "DA": 15, "S": 20, "SF": 15}

# also the project's Release configuration (-Ofast), where only memory, resources and effects on the host are judged
FAST = dict(STD, R=10)

_R = "Seeded search over plans, schedules and fault sequences. "


def _p(quick, rule, variants=STD, factor=12):
    return {"quick": quick, "thorough": quick * factor, "rule": _R + rule, "variants": variants}


PROFILES = {
    "C01": _p(20000, "2-4 threads read, assign and compound-assign a few locations of one shared global buffer (fresh and used regions); "
              "reads and writes are judged per location as an atomic register with unique values, block allocations per region are counted."),
    "C02": _p(20000, "Contexts without a supplied buffer are created, used and destroyed on several threads at once, with global destroys (also repeated and unused) between."),
    "C03": _p(10000, "Each thread runs its own history of contexts (compile, reject, execute, reset, free, destroy) while the others do the same; every result is compared with the same history run alone in the model."),
    "C04": _p(20000, "Histories with first touches, frees and destructions of blocks, with failing block allocations; the host mutex model judges every lock and unlock, the allocator every block."),
    "C05": _p(14000, "Executions with failing block allocations (single, window, from then on, random); afterwards every location, variable and other context is compared with the model."),
    "C06": _p(24000, "Create, register and compile calls in which any allocation fails (nth, window, from then on, random), retried without faults; existing contexts, variables and programs are used further, at the end nothing may be left allocated."),
    "C07": _p(20000, "Histories with many invalid texts between valid work on several contexts; error, variables, memory and allocations are compared after each."),
    "C08": _p(20000, "Arbitrary legal histories of all API calls with random release order; every access and release is checked against live allocations, at the end nothing may be left.", FAST),
    "C09": _p(24000, "Histories of registrations, compiles mentioning variables, host writes, executions, resets and rejected compiles; address and value of each name compared after every call."),
    "C10": _p(28000, "Contexts with built-in or supplied register storage, created, used and destroyed on several threads, with resets, frees and global destroys between."),
    "C11": _p(20000, "Histories of memory programs (assignments, memset, memcpy with overlaps, block borders, indices and counts outside the array or not representable), frees, resets and freembuf."),
    "C12": _p(700, "Loops and whiles with every kind of count or condition, some changed by other threads at arbitrary moments; iterations and basic blocks are counted."),
    "C13": _p(24000, "2-4 threads draw from rand, also across refills of the generator; the multiset and order of all draws is compared with one Mersenne-Twister sequence."),
    "C14": _p(14000, "Programs executed repeatedly from changed state, interleaved with other programs, fresh compiles of the same text, resets and frees; result and all state compared after each execution."),
    "C15": _p(20000, "Histories in which each call goes through either API at random, handles shared between them.", {"S": 60, "SF": 40}),
    "C16": _p(14000, "All API calls with valid, invalid and deeply nested texts and failing allocations; process exit, output and outside sources are intercepted; every run is executed twice with other heap addresses and heap contents and both histories compared.", FAST),
    "C22": _p(60000, "One or two threads keep writing one or two shared locations or registers, the others apply every operator and function to them; each result must be the documented one for values the operands held meanwhile."),
}

REAL = ["all of projectm-eval/*.c and projectm-eval/api/*.c (compiler, scanner, tree functions, memory buffer, variables, API), built from /repo's working tree and instrumented at every load, store and basic block",
        "ns-eel2-shim/*.c in variants S and SF", "libm, and libc string and number parsing functions (called through access-checking wrappers)"]
STUB = ["thread scheduling: one thread runs at a time, the seeded scheduler decides at every memory access, lock, unlock, allocation and call boundary",
        "host mutex callbacks (projectm_eval_memory_host_lock_mutex/unlock_mutex, NSEEL_HOSTSTUB_*): simulated mutex with discipline checks",
        "malloc/calloc/realloc/free/strdup of the library: simulated allocator with fault injection, guard zones, no reuse of addresses",
        "exit, abort, output, files, clock, environment: intercepted, never reached"]
ASSUME = ["sequentially consistent memory: interleavings of single accesses are explored, reordering by compiler or hardware is not",
          "the host follows the API contract: one thread at a time per context, global memory destroyed only while unused, no handle used after its destruction",
          "the reference model (sim/model.h) and the libm used by both sides are trusted for the operators and functions the workloads use",
          "sampling: a clean result is evidence for the runs listed, not proof"]
