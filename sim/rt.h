// Simulator runtime: scheduler, host mutex, allocator, memory checks, host-process guards.
// Everything the library under test can observe or influence outside its own code goes through here.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace rt {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t) ((next() >> 32) * (uint64_t) n >> 32) : 0; }
    int range(int a, int b) { return a + (int) below((uint32_t) (b - a + 1)); }
    bool chance(int num, int den) { return (int) below((uint32_t) den) < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t) v.size())]; }
};
inline uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

enum Kind : uint8_t { K_OP, K_MEM, K_ALLOC, K_FREE, K_LOCK, K_UNLOCK, K_NKINDS };

constexpr int MAXT = 8;
constexpr uint32_t MAXDEC = 1u << 17;
constexpr uint32_t MAXFLT = 1u << 14;

struct Dec { uint32_t op, pt; uint8_t thr, to; };
struct Flt { uint32_t op, idx; };

// Fault plan of one operation.
struct FaultSpec {
    int cat = 0;  // 0 none, 1 small allocations, 2 large (memory block) allocations, 3 all
    int mode = 0; // 0 nth, 1 window [a,b), 2 persistent from a, 3 probability a/65536
    uint32_t a = 0, b = 0;
};

struct Stall { uint8_t thr, cls; uint32_t nth; }; // cls: 0 any memory access, 1 shared access, 2 lock, 3 alloc/free, 4 call boundary
struct SchedCfg {
    int strat = 0; // 0 call boundaries only, 1 random, 2 PCT, 3 stall, 4 duel
    int duel = 0;  // duel: threads below this one write, the others are interrupted in the middle of shared accesses to let a writer make whole calls
    uint64_t seed = 1;
    uint32_t p_mem = 0, p_cont = 0, p_lock = 0, p_alloc = 0, p_op = 0; // of 65536
    std::vector<uint64_t> change; // PCT change points (in counted points)
    int pct_cls = 0;              // PCT counts: 0 every access, 1 shared accesses, locks and allocations only
    std::vector<Stall> stalls;
};

enum Probe {
    PR_LOCKS, PR_CONTENDED, PR_FIRST_TOUCH_RACE, PR_BLOCK_ALLOC, PR_PREEMPT_CONT, PR_DEADSLOT, PR_EXECS, PR_COMPILES,
    PR_REJECTS, PR_CREATES, PR_DESTROYS, PR_GDESTROYS, PR_BUFS, PR_RESETS, PR_FREEMS, PR_REGS, PR_WRITES, PR_SHIM,
    PR_MEMREADS, PR_RANDS, PR_RAND_REFILL, PR_RAND_CONC, PR_LINHIST, PR_CAPPED_LOOPS, PR_LOOP_STOPPED, PR_OOM_NULL,
    PR_OOM_SURVIVED, PR_OOM_ACCESS, PR_CODE_AFTER_CTX, PR_FRESH_COMPILE, PR_ERRREADS, PR_ERRSOLO, PR_FUNS, PR_FUN_MANY, PR_REUSED, PR_LOCALE, PR_N
};
extern const char* probe_names[PR_N];
enum FaultKind { FK_SMALL, FK_BLOCK, FK_STALL, FK_PREEMPT_MEM, FK_PREEMPT_SYNC, FK_N };
extern const char* fault_names[FK_N];

struct Shared { // parent <-> child
    volatile int finished;
    volatile int viol;
    char cls[64];
    char msg[1024];
    uint64_t hash, schedhash, steps, points, switches, allocs;
    uint64_t probes[PR_N], faults[FK_N];
    uint32_t ndec, nflt, nops;
    volatile uint32_t curop[MAXT];
    volatile uint32_t curthr;
    Dec dec[MAXDEC];
    Flt flt[MAXFLT];
};
extern Shared* S;

struct Config {
    SchedCfg sc;
    bool replay = false;
    std::vector<Dec> rdec;
    std::vector<Flt> rflt;
    uint64_t seed = 1;
    size_t large = 65536 * 4; // allocations of at least this size are memory blocks
    bool check_output = false;  // report stdio / outside sources
    bool check_blocklock = false; // block allocation and release need the lock
    unsigned char junk = 0xCB;
    uint32_t shift = 0; // shift of the heap base
    bool reuse = false; // released memory is handed out again for the next allocation of that size
    int locale = 0; // of the host: 1: decimal comma, 2: letters as in Turkish, beyond ASCII as in ISO 8859-9, 3: both
    uint64_t budget = 600000000ull;
    bool strict_lock = true;
};
extern Config C;

void init_parent();            // reserve arena
void init_child(int nthreads); // after fork
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();

// run: body(thread, phase) executes the operations of that thread in that phase.
void run(int nthreads, int nphases, const std::function<void(int, int)>& body);
int nthreads();
int me();
void op_begin(uint32_t uid, const FaultSpec* fs);
void op_end();
void enter_lib();
void leave_lib();
void in_text(bool on);         // what this thread allocates meanwhile is no memory block, however long
uint32_t op_faults();          // allocations failed in the current operation of this thread
uint64_t now();                // global event counter
uint64_t my_steps(int thr);    // basic blocks executed by a thread
void event(uint64_t x);
void lock();
void unlock();
size_t live_allocs();
size_t live_bytes();
size_t block_allocs();         // number of block allocations so far
std::string describe_live(int max);
bool owned(const void* p, size_t n); // not freed or outside an allocation
void* host_alloc(size_t n);     // host memory with guards, no faults
void host_free(void* p);
inline void probe(Probe p, uint64_t n = 1) { S->probes[p] += n; }

struct LibCall { LibCall() { enter_lib(); } ~LibCall() { leave_lib(); } };

} // namespace rt
