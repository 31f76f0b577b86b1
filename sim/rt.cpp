#include "rt.h"
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cerrno>
#include <clocale>
#include <ctime>
#include <linux/futex.h>
#include <pthread.h>
#include <threads.h>
#include <sched.h>
#include <strings.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#endif

extern "C" char __data_start[], _end[];

namespace rt {

const char* probe_names[PR_N] = {
    "lock_acquisitions", "lock_contended", "block_first_touch_race", "block_allocations", "preempt_at_shared_access",
    "ops_skipped_dead_slot", "executions", "compiles_ok", "compiles_rejected", "contexts_created", "contexts_destroyed",
    "global_destroys", "buffers", "variable_resets", "memory_frees", "registrations", "host_writes", "shim_calls",
    "memory_readbacks", "rand_draws", "rand_refills", "rand_concurrent_pairs", "linearizability_ops", "loops_hitting_limit",
    "loops_stopped_by_other_thread", "oom_calls_returning_null", "oom_calls_surviving", "oom_accesses_lost",
    "program_released_after_context", "fresh_compile_compared", "error_reads", "errors_compared_with_solo_compile", "operators_on_shared_operands", "operands_that_could_change_meanwhile", "addresses_reused", "runs_under_a_foreign_locale"};
const char* fault_names[FK_N] = {"small_allocation_failure", "block_allocation_failure", "thread_stall",
                                 "preemption_inside_access", "preemption_at_lock_or_allocator"};

Shared* S;
Config C;

static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SIZE = 12ull << 30;
static unsigned char* SH;  // 1 byte per 8 bytes: 0 = not addressable, 1..8 = leading bytes addressable, 0xFD = freed
static unsigned char* ACC; // 1 byte per 8 bytes: low nibble threads that loaded, high nibble threads that stored (modulo 4)
static unsigned char* GACC;
static uintptr_t DATA_LO, DATA_HI;
static uintptr_t bump;

struct Rec { uintptr_t p; size_t n; uint32_t op; uint8_t thr; bool live, host, block; };
static std::vector<Rec>* recs;
static std::map<size_t, std::vector<uintptr_t>>* freed; // by size
static size_t n_live, b_live, n_block;

enum St { ST_DONE, ST_RUN, ST_BLOCKED };
struct Thr {
    pthread_t th;
    int id = 0;
    std::atomic<int> go{0};
    St st = ST_DONE;
    void* on = nullptr; // mutex of the library waited for, null for the host's
    uint32_t op = 0, pt = 0, aidx = 0, cidx = 0, nfail = 0;
    bool in_lib = false;
    uintptr_t slo = 0, shi = 0;
    uint64_t steps = 0, opsteps = 0;
    const FaultSpec* fs = nullptr;
    Rng frng;
    bool frozen = false, failall = false, text = false;
    uint32_t cnt[5] = {0, 0, 0, 0, 0};
    int prio = 0;
};
static Thr* T;
static int NT = 1;
static __thread Thr* self;
static int lock_owner = -1;
static int nrun = 0;
static Rng srng;
static uint64_t pctcount;
static size_t pctnext;
static int lowprio;
static uint64_t evcount;
static std::map<uint64_t, std::map<uint32_t, uint8_t>>* rmap; // (thr,op) -> pt -> to
static std::set<uint64_t>* rflt;

int nthreads() { return NT; }
int me() { return self ? self->id : 0; }
uint64_t now() { return ++evcount; }
uint64_t my_steps(int t) { return T[t].steps; }
uint32_t op_faults() { return self->nfail; }
size_t live_allocs() { return n_live; }
size_t live_bytes() { return b_live; }
size_t block_allocs() { return n_block; }
void event(uint64_t x) { S->hash = mix(S->hash, x); }

static void flush() {
    uint64_t st = 0;
    for (int i = 0; i < MAXT; i++) st += T[i].steps;
    S->steps = st;
    S->allocs = recs->size();
}

void violation(const char* cls, const char* fmt, ...) {
    if (self) self->in_lib = false;
    if (!S->viol) {
        va_list ap;
        va_start(ap, fmt);
        snprintf(S->cls, sizeof S->cls, "%s", cls);
        vsnprintf(S->msg, sizeof S->msg, fmt, ap);
        va_end(ap);
        flush();
        S->viol = 1;
    }
    _exit(7);
}

void finish() {
    flush();
    S->finished = 1;
    _exit(0);
}

static const char* descaddr(uintptr_t a, char* buf, size_t n) {
    const Rec* best = nullptr;
    for (auto& r : *recs)
        if (r.p <= a + 32 && (!best || r.p > best->p)) best = &r;
    if (best) snprintf(buf, n, "%ld bytes into a %zu-byte %s allocation", (long) (a - best->p), best->n, best->live ? "live" : "freed");
    else snprintf(buf, n, "outside every allocation");
    return buf;
}

static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SIZE; }

static void __attribute__((noinline)) badaccess(uintptr_t a, size_t n, bool st) {
    char d[160];
    for (size_t i = 0; i < n; i++) {
        uintptr_t x = a + i;
        unsigned char s = SH[(x - ARENA) >> 3];
        if (s == 8 || (s < 8 && (x & 7) < s)) continue;
        violation(s == 0xFD ? "memory:use-after-free" : "memory:out-of-bounds", "%s of %zu bytes %s", st ? "store" : "load", n,
                  descaddr(x, d, sizeof d));
    }
}
static inline void chk(uintptr_t a, size_t n, bool st) {
    if (!in_arena(a)) return;
    if (SH[(a - ARENA) >> 3] == 8 && (a & 7) + n <= 8) return;
    badaccess(a, n, st);
}
static void chk_range(const void* p, size_t n, bool st) {
    uintptr_t a = (uintptr_t) p;
    if (!n) return;
    if (!in_arena(a)) return;
    while (n && (a & 7)) { chk(a, 1, st); a++; n--; }
    while (n >= 8) {
        if (SH[(a - ARENA) >> 3] != 8) badaccess(a, 8, st);
        a += 8; n -= 8;
    }
    while (n) { chk(a, 1, st); a++; n--; }
}

// ---------------------------------------------------------------- scheduling

static void fwait(Thr* t) {
    while (!t->go.load(std::memory_order_acquire)) syscall(SYS_futex, (int*) &t->go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    t->go.store(0, std::memory_order_relaxed);
}
static void fwake(Thr* t) {
    t->go.store(1, std::memory_order_release);
    syscall(SYS_futex, (int*) &t->go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void switch_to(int to, bool park) {
    S->switches++;
    S->curthr = to;
    fwake(&T[to]);
    if (park) fwait(self);
}

static void record(int to) {
    if (S->ndec < MAXDEC) S->dec[S->ndec++] = Dec{self->op, self->pt, (uint8_t) self->id, (uint8_t) to};
    S->schedhash = mix(S->schedhash, ((uint64_t) self->op << 32 | self->pt) * 16 + self->id * 4 + to);
}
static uint64_t rkey(int thr, uint32_t op) { return (uint64_t) thr << 32 | op; }
static int lookup() {
    auto i = rmap->find(rkey(self->id, self->op));
    if (i == rmap->end()) return -1;
    auto j = i->second.find(self->pt);
    return j == i->second.end() ? -1 : j->second;
}

// candidates: runnable threads, not frozen, excluding `ex`
static int choose(int ex) {
    int c[MAXT], n = 0;
    for (int i = 0; i < NT; i++)
        if (i != ex && T[i].st == ST_RUN && !T[i].frozen) c[n++] = i;
    if (!n) return -1;
    if (C.sc.strat == 2) {
        int b = c[0];
        for (int i = 1; i < n; i++) if (T[c[i]].prio > T[b].prio) b = c[i];
        return b;
    }
    return c[n == 1 ? 0 : srng.below((uint32_t) n)];
}

// Called with self runnable. Possibly hands over to another thread.
static void strategy(Kind k, bool cont) {
    auto& sc = C.sc;
    int to = -1;
    if (S->ndec >= MAXDEC) return;
    switch (sc.strat) {
    case 0:
        if (k == K_OP && srng.below(65536) < sc.p_op) to = choose(self->id);
        break;
    case 3:
        for (auto& s : sc.stalls) {
            if (s.thr != self->id) continue;
            int cls = s.cls;
            bool hit = (cls == 0 && k == K_MEM) || (cls == 1 && k == K_MEM && cont) || (cls == 2 && (k == K_LOCK || k == K_UNLOCK)) ||
                       (cls == 3 && (k == K_ALLOC || k == K_FREE)) || (cls == 4 && k == K_OP);
            if (hit && self->cnt[cls] == s.nth) {
                int x = choose(self->id);
                if (x < 0) { // everybody else is stalled: their stall ends with this one
                    for (int i = 0; i < NT; i++) T[i].frozen = false;
                    x = choose(self->id);
                }
                if (x >= 0) {
                    self->frozen = true;
                    S->faults[FK_STALL]++;
                    to = x;
                }
            }
        }
        if (to >= 0) break;
        // fall through
    case 1: {
        uint32_t p = k == K_MEM ? (cont ? sc.p_cont : sc.p_mem) : k == K_OP ? sc.p_op : (k == K_LOCK || k == K_UNLOCK) ? sc.p_lock : sc.p_alloc;
        if (p && srng.below(65536) < p) to = choose(self->id);
        break;
    }
    case 4: {
        bool wr = self->id < sc.duel;
        uint32_t p = wr ? (k == K_OP ? sc.p_op : 0) : k == K_MEM && cont ? sc.p_cont : k == K_OP ? sc.p_mem : 0;
        if (!p || srng.below(65536) >= p) break;
        int c[MAXT], n = 0;
        for (int i = 0; i < NT; i++) if (i != self->id && T[i].st == ST_RUN && (i < sc.duel) != wr) c[n++] = i;
        if (n) to = c[srng.below((uint32_t) n)];
        break;
    }
    case 2: {
        bool counted = sc.pct_cls == 0 || cont || k != K_MEM;
        if (!counted) break;
        pctcount++;
        if (pctnext < sc.change.size() && pctcount >= sc.change[pctnext]) {
            pctnext++;
            self->prio = --lowprio;
            to = choose(-1);
        } else if (k == K_UNLOCK)
            to = choose(-1);
        if (to == self->id) to = -1;
        break;
    }
    }
    if (to >= 0) {
        record(to);
        if (k == K_MEM) { S->faults[FK_PREEMPT_MEM]++; if (cont) probe(PR_PREEMPT_CONT); }
        else if (k != K_OP) S->faults[FK_PREEMPT_SYNC]++;
        switch_to(to, true);
    }
}

static void point(Kind k, bool cont) {
    S->points++;
    self->pt++;
    if (nrun <= 1) return;
    if (C.replay) {
        int to = lookup();
        if (to >= 0 && to < NT && to != self->id && T[to].st == ST_RUN) {
            record(to);
            switch_to(to, true);
        }
        return;
    }
    if (C.sc.strat == 3) {
        if (k == K_MEM) { self->cnt[0]++; if (cont) self->cnt[1]++; }
        else if (k == K_LOCK || k == K_UNLOCK) self->cnt[2]++;
        else if (k == K_OP) self->cnt[4]++;
        else self->cnt[3]++;
    }
    strategy(k, cont);
}

// self cannot continue (blocked or done): somebody else must run.
static void forced(bool park) {
    self->pt++;
    int to = -1;
    if (C.replay) {
        to = lookup();
        if (to >= 0 && (to >= NT || T[to].st != ST_RUN)) to = -1;
        if (to < 0)
            for (int i = 0; i < NT && to < 0; i++) if (T[i].st == ST_RUN) to = i;
    } else {
        to = choose(-1);
        if (to < 0) {
            for (int i = 0; i < NT; i++) T[i].frozen = false;
            to = choose(-1);
        }
    }
    if (to < 0) {
        char d[200];
        int n = 0;
        for (int i = 0; i < NT; i++)
            if (T[i].st == ST_BLOCKED) n += snprintf(d + n, sizeof d - n, " thread %d in op %u", i, T[i].op);
        violation("lock:deadlock", "no thread can make progress; waiting for the host lock:%s; lock held by %d", d, lock_owner);
    }
    record(to);
    switch_to(to, park);
}

static void yield_to_others(void* m) {
    self->st = ST_BLOCKED;
    self->on = m;
    nrun--;
    forced(true);
}

void lock() {
    self->in_lib = false;
    point(K_LOCK, true);
    if (lock_owner == self->id) violation("lock:nested", "thread %d locks the host mutex while already holding it (op %u)", self->id, self->op);
    if (lock_owner != -1) probe(PR_CONTENDED);
    while (lock_owner != -1) {
        self->st = ST_BLOCKED;
        nrun--;
        forced(true);
    }
    lock_owner = self->id;
    probe(PR_LOCKS);
    self->in_lib = true;
}
void unlock() {
    self->in_lib = false;
    if (lock_owner != self->id) violation("lock:unlock-not-held", "thread %d unlocks the host mutex without holding it (op %u)", self->id, self->op);
    lock_owner = -1;
    for (int i = 0; i < NT; i++)
        if (T[i].st == ST_BLOCKED && !T[i].on) { T[i].st = ST_RUN; nrun++; }
    point(K_UNLOCK, true);
    self->in_lib = true;
}

// ---------------------------------------------------------------- threads and phases

static int phase, nph;
static const std::function<void(int, int)>* bodyfn;
static pthread_barrier_t* unused;

static void start_phase() {
    nrun = NT;
    for (int i = 0; i < NT; i++) T[i].st = ST_RUN;
    pctcount = 0; pctnext = 0; lowprio = 0;
    for (int i = 0; i < NT; i++) {
        T[i].frozen = false;
        memset(T[i].cnt, 0, sizeof T[i].cnt);
    }
    if (C.sc.strat == 2 && !C.replay) {
        int perm[MAXT];
        for (int i = 0; i < NT; i++) perm[i] = i;
        for (int i = NT - 1; i > 0; i--) std::swap(perm[i], perm[srng.below((uint32_t) i + 1)]);
        for (int i = 0; i < NT; i++) T[i].prio = perm[i] + 1;
    }
}

static void setstack() {
    pthread_attr_t a;
    void* p;
    size_t n;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &p, &n);
    pthread_attr_destroy(&a);
    self->slo = (uintptr_t) p;
    self->shi = (uintptr_t) p + n;
}
static void altstack() {
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_size = 65536;
    ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
}

static void thread_loop() {
    for (;;) {
        int ph = phase;
        if (ph >= nph) break;
        (*bodyfn)(self->id, ph);
        if (self->in_lib) abort();
        self->op = 0xF0000000u + (uint32_t) ph;
        self->pt = 0;
        self->st = ST_DONE;
        nrun--;
        bool all = true;
        for (int i = 0; i < NT; i++) if (T[i].st != ST_DONE) all = false;
        if (all) {
            phase++;
            if (phase >= nph) finish();
            start_phase();
            // who starts the next phase
            self->op = 0xF1000000u + (uint32_t) phase;
            self->pt = 1;
            int to = 0;
            if (C.replay) { int x = lookup(); if (x >= 0 && x < NT) to = x; }
            else { to = choose(-1); if (to != 0) record(to); }
            if (to != self->id) switch_to(to, true);
        } else
            forced(true);
    }
}
static void* tmain(void* p) {
    self = (Thr*) p;
    altstack();
    setstack();
    fwait(self);
    thread_loop();
    return nullptr;
}

void run(int n, int nphases, const std::function<void(int, int)>& body) {
    NT = n;
    bodyfn = &body;
    phase = 0;
    nph = nphases;
    S->hash = S->schedhash = 0x1234567;
    for (int i = 1; i < n; i++) {
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 4 << 20);
        if (pthread_create(&T[i].th, &a, tmain, &T[i])) { fprintf(stderr, "pthread_create failed\n"); _exit(9); }
    }
    start_phase();
    thread_loop();
}

static void on_signal(int sig) {
    // crash inside (or because of) the library
    const char* n = sig == SIGSEGV ? "crash:SIGSEGV" : sig == SIGFPE ? "crash:SIGFPE" : sig == SIGBUS ? "crash:SIGBUS" : sig == SIGILL ? "crash:SIGILL" : "crash:SIGABRT";
    bool lib = self && self->in_lib;
    violation(lib ? n : "crash:using-result", "signal %d in thread %d, op %u%s", sig, me(), self ? self->op : 0, lib ? "" : " (while the host used what the library returned)");
}

void init_parent() {
    size_t sh = ARENA_SIZE >> 3;
    void* a = mmap((void*) ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    SH = (unsigned char*) mmap(nullptr, sh, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ACC = (unsigned char*) mmap(nullptr, sh, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    DATA_LO = (uintptr_t) __data_start & ~7ull;
    DATA_HI = (uintptr_t) _end;
    GACC = (unsigned char*) calloc(1, ((DATA_HI - DATA_LO) >> 3) + 16);
    if (a != (void*) ARENA || SH == MAP_FAILED || ACC == MAP_FAILED) { fprintf(stderr, "cannot reserve the arena\n"); exit(9); }
    S = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    T = new Thr[MAXT];
    for (int i = 0; i < MAXT; i++) T[i].id = i;
}

void init_child(int n) {
    recs = new std::vector<Rec>();
    recs->reserve(4096);
    bump = ARENA + 4096 + (uintptr_t) C.shift * 16;
    freed = new std::map<size_t, std::vector<uintptr_t>>;
    srng = Rng(C.sc.seed ^ 0x5c4ed);
    if (C.locale) probe(PR_LOCALE);
    rmap = new std::map<uint64_t, std::map<uint32_t, uint8_t>>();
    rflt = new std::set<uint64_t>();
    if (C.replay) {
        for (auto& d : C.rdec) (*rmap)[rkey(d.thr, d.op)][d.pt] = d.to;
        for (auto& f : C.rflt) rflt->insert((uint64_t) f.op << 32 | f.idx);
    }
    NT = n;
    self = &T[0];
    altstack();
    setstack();
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}

void op_begin(uint32_t uid, const FaultSpec* fs) {
    self->op = uid;
    self->pt = 0;
    self->aidx = self->cidx = self->nfail = 0;
    self->opsteps = 0;
    self->failall = false;
    self->fs = fs && fs->cat ? fs : nullptr;
    self->frng = Rng(C.seed * 1000003ull + uid);
    S->curop[self->id] = uid;
    S->nops++;
    point(K_OP, false);
}
void op_end() { self->fs = nullptr; self->failall = false; }
void in_text(bool on) { self->text = on; }
void enter_lib() { self->in_lib = true; }
void leave_lib() {
    self->in_lib = false;
    if (lock_owner == self->id) violation("lock:held-on-return", "the library returns to the host holding the host mutex (op %u)", self->op);
}

// ---------------------------------------------------------------- allocator

static bool alloc_fails(size_t n) {
    uint32_t idx = self->aidx++;
    bool large = n >= C.large && !self->text;
    bool f = self->failall;
    if (f) ;
    else if (C.replay) {
        f = rflt->count((uint64_t) self->op << 32 | idx) != 0;
        if (rflt->count((uint64_t) self->op << 32 | idx | 0x80000000u)) f = self->failall = true;
    } else if (auto* s = self->fs) {
        if (s->cat & (large ? 2 : 1)) {
            uint32_t i = self->cidx++;
            f = s->mode == 0 ? i == s->a : s->mode == 1 ? i >= s->a && i < s->b : s->mode == 2 ? i >= s->a : self->frng.below(65536) < s->a;
        }
    }
    if (f) {
        self->nfail++;
        S->faults[large ? FK_BLOCK : FK_SMALL]++;
        // after very many failures in one call all further allocations of the call fail, which one entry records
        bool all = self->nfail == 2000;
        if (S->nflt < MAXFLT && self->nfail <= 2000) S->flt[S->nflt++] = Flt{self->op, all ? idx | 0x80000000u : idx};
        if (all) self->failall = true;
        S->schedhash = mix(S->schedhash, 0xFA000000ull + self->op * 64ull + idx);
    }
    return f;
}
static void* raw_alloc(size_t n, bool zero, size_t align, bool host) {
    if (C.reuse && !host && align <= 16) {
        auto f = freed->find(n);
        if (f != freed->end() && !f->second.empty()) {
            uintptr_t p = f->second.back();
            f->second.pop_back();
#ifdef SIM_ASAN
            __asan_unpoison_memory_region((void*) p, n);
#endif
            *(uint64_t*) (p - 8) = recs->size() ^ 0xA110C000000000ull;
            recs->push_back(Rec{p, n, self->op, (uint8_t) self->id, true, false, n >= C.large && !self->text});
            n_live++; b_live += n;
            memset(SH + ((p - ARENA) >> 3), 8, n >> 3);
            if (n & 7) SH[(p + n - ARENA) >> 3] = n & 7;
            memset(ACC + ((p - ARENA) >> 3), n <= 4096 ? 0x10 << (self->id & 3) : 0, (n + 7) >> 3);
            if (zero) memset((void*) p, 0, n); // otherwise what the former owner left
            probe(PR_REUSED);
            return (void*) p;
        }
    }
    uintptr_t p = bump + 16;
    p = (p + align - 1) & ~(uintptr_t) (align - 1);
    uintptr_t e = p + n;
    bump = ((e + 15) & ~15ull) + 16;
    if (bump >= ARENA + ARENA_SIZE && !host && self->op) violation("progress:memory-exhausted", "more than %zu bytes were allocated in one simulated run (op %u)", ARENA_SIZE, self->op);
    if (bump >= ARENA + ARENA_SIZE) { S->viol = 2; snprintf(S->cls, sizeof S->cls, "harness:arena-exhausted"); _exit(8); }
    *(uint64_t*) (p - 8) = recs->size() ^ 0xA110C000000000ull;
    recs->push_back(Rec{p, n, self->op, (uint8_t) self->id, true, host, n >= C.large && !self->text});
    if (!host) { n_live++; b_live += n; }
    memset(SH + ((p - ARENA) >> 3), 8, n >> 3);
    if (n & 7) SH[(p + n - ARENA) >> 3] = n & 7;
    if (!zero) memset((void*) p, C.junk, n < (1 << 16) ? n : 1 << 16);
    if (!zero && n > (1 << 16)) for (size_t i = 1 << 16; i < n; i += 4096) memset((void*) (p + i), C.junk, n - i < 64 ? n - i : 64);
    if (n <= 4096) memset(ACC + ((p - ARENA) >> 3), 0x10 << (self->id & 3), (n + 7) >> 3);
#ifdef SIM_ASAN
    __asan_poison_memory_region((void*) (p - 16), 16);
    __asan_poison_memory_region((void*) ((e + 7) & ~7ull), bump - ((e + 7) & ~7ull));
#endif
    return (void*) p;
}
static void* a_alloc(size_t n, bool zero, size_t align = 16) {
    bool lib = self->in_lib;
    self->in_lib = false;
    point(K_ALLOC, false);
    bool large = n >= C.large && !self->text;
    if (large) {
        if (C.check_blocklock && lock_owner != self->id)
            violation("lock:block-allocated-unlocked", "a memory block of %zu bytes is allocated without holding the host lock (op %u)", n, self->op);
        for (int i = 0; i < NT; i++) if (T[i].st == ST_BLOCKED) { probe(PR_FIRST_TOUCH_RACE); break; }
    }
    if (n > (1ull << 32) || alloc_fails(n)) { errno = ENOMEM; self->in_lib = lib; return nullptr; }
    if (large) { n_block++; probe(PR_BLOCK_ALLOC); }
    void* p = raw_alloc(n, zero, align, false);
    self->in_lib = lib;
    return p;
}
static Rec* find(void* q, const char* what) {
    uintptr_t p = (uintptr_t) q;
    if (in_arena(p) && !(p & 15) && p >= ARENA + 4096) {
        uint64_t id = *(uint64_t*) (p - 8) ^ 0xA110C000000000ull;
        if (id < recs->size() && (*recs)[id].p == p) {
            if (!(*recs)[id].live) violation("memory:double-free", "%s of a %zu-byte allocation that was already released (op %u)", what, (*recs)[id].n, self->op);
            return &(*recs)[id];
        }
    }
    char d[160];
    violation("memory:bad-free", "%s of a pointer that is not an allocation (%s, op %u)", what, in_arena(p) ? descaddr(p, d, sizeof d) : "not on the heap", self->op);
}
static void a_free(void* q) {
    if (!q) return;
    bool lib = self->in_lib;
    self->in_lib = false;
    point(K_FREE, false);
    Rec* r = find(q, "release");
    if (r->host) violation("memory:bad-free", "the library releases memory of the host (op %u)", self->op);
    if (r->block && C.check_blocklock && lock_owner != self->id)
        violation("lock:block-released-unlocked", "a memory block of %zu bytes is released without holding the host lock (op %u)", r->n, self->op);
    r->live = false;
    n_live--;
    b_live -= r->n;
    memset(SH + ((r->p - ARENA) >> 3), 0xFD, (r->n + 7) >> 3);
    if (C.reuse) (*freed)[r->n].push_back(r->p);
#ifdef SIM_ASAN
    __asan_poison_memory_region((void*) r->p, r->n);
#endif
    self->in_lib = lib;
}
void* host_alloc(size_t n) { return raw_alloc(n, true, 16, true); }
void host_free(void* q) {
    Rec* r = find(q, "host release");
    r->live = false;
    memset(SH + ((r->p - ARENA) >> 3), 0xFD, (r->n + 7) >> 3);
#ifdef SIM_ASAN
    __asan_poison_memory_region((void*) r->p, r->n);
#endif
}
bool owned(const void* q, size_t n) { // static data, or entirely inside live memory
    uintptr_t a = (uintptr_t) q;
    if (!in_arena(a)) return true;
    for (size_t i = 0; i < n; i++) {
        unsigned char s = SH[(a + i - ARENA) >> 3];
        if (!(s == 8 || (s < 8 && ((a + i) & 7) < s))) return false;
    }
    return true;
}
std::string describe_live(int max) {
    std::string s;
    for (auto& r : *recs)
        if (r.live && !r.host && max-- > 0) s += " [" + std::to_string(r.n) + " bytes from op " + std::to_string(r.op) + "]";
    return s;
}

// ---------------------------------------------------------------- memory access hooks

static inline void mem_hook(void* q, unsigned n, bool st) {
    Thr* t = self;
    if (!t || !t->in_lib) return;
    uintptr_t a = (uintptr_t) q;
    if (a - t->slo < t->shi - t->slo) return;
    unsigned char* acc;
    if (in_arena(a)) {
        chk(a, n, st);
        acc = &ACC[(a - ARENA) >> 3];
    } else if (a - DATA_LO < DATA_HI - DATA_LO)
        acc = &GACC[(a - DATA_LO) >> 3];
    else
        return; // read-only data, thread-local storage, other mappings
    unsigned char v = *acc, mine = (unsigned char) (0x11 << (t->id & 3));
    bool cont = st ? (v & ~mine) != 0 : (v & ~mine & 0xF0) != 0;
    *acc = v | (unsigned char) ((st ? 0x10 : 0x01) << (t->id & 3));
    if (nrun <= 1) { S->points++; t->pt++; return; }
    t->in_lib = false;
    point(K_MEM, cont);
    t->in_lib = true;
}

struct OutLib { // temporarily in the simulator
    bool was;
    OutLib() : was(self->in_lib) { self->in_lib = false; }
    ~OutLib() { self->in_lib = was; }
};
static void touch(const void* p, size_t n, bool st) { // access through a libc function
    chk_range(p, n, st);
    if (n && self->in_lib) {
        bool l = self->in_lib;
        mem_hook((void*) p, 1, st);
        if (n > 8) mem_hook((char*) p + n - 1, 1, st);
        self->in_lib = l;
    }
}
static size_t slen(const char* s, size_t max = (size_t) -1) {
    size_t n = 0;
    for (; n < max; n++) {
        chk((uintptr_t) (s + n), 1, false);
        if (!s[n]) break;
    }
    return n;
}
static void touchs(const char* s, size_t max = (size_t) -1) {
    size_t n = slen(s, max);
    touch(s, n < max ? n + 1 : n, false);
}

static void denied(const char* name, int cls) {
    bool lib = self && self->in_lib;
    // cls 0: terminates the process; 1: output; 2: outside source
    if (cls == 0) violation((std::string("host:") + name).c_str(), "the library calls %s() (op %u)", name, self ? self->op : 0);
    if (C.check_output && lib) violation((std::string("host:") + name).c_str(), "the library calls %s() (op %u)", name, self->op);
}

} // namespace rt

using namespace rt;
extern "C" {

void __sanitizer_cov_load1(void* p) { mem_hook(p, 1, false); }
void __sanitizer_cov_load2(void* p) { mem_hook(p, 2, false); }
void __sanitizer_cov_load4(void* p) { mem_hook(p, 4, false); }
void __sanitizer_cov_load8(void* p) { mem_hook(p, 8, false); }
void __sanitizer_cov_load16(void* p) { mem_hook(p, 16, false); }
void __sanitizer_cov_store1(void* p) { mem_hook(p, 1, true); }
void __sanitizer_cov_store2(void* p) { mem_hook(p, 2, true); }
void __sanitizer_cov_store4(void* p) { mem_hook(p, 4, true); }
void __sanitizer_cov_store8(void* p) { mem_hook(p, 8, true); }
void __sanitizer_cov_store16(void* p) { mem_hook(p, 16, true); }
void __sanitizer_cov_trace_pc() {
    Thr* t = self;
    if (!t) return;
    t->steps++;
    if (++t->opsteps > C.budget) violation("progress:step-budget", "an API call did not return within %llu basic blocks (op %u)", (unsigned long long) C.budget, t->op);
}

void* sim_malloc(size_t n) { return a_alloc(n, false); }
void* sim_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    return a_alloc(n, true);
}
void sim_free(void* p) { a_free(p); }
void* sim_realloc(void* p, size_t n) {
    if (!p) return a_alloc(n, false);
    Rec* r = find(p, "realloc");
    size_t o = r->n;
    void* q = a_alloc(n, false);
    if (!q) return nullptr;
    memcpy(q, p, o < n ? o : n);
    a_free(p);
    return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    return sim_realloc(p, n);
}
void* sim_aligned_alloc(size_t al, size_t n) { return a_alloc(n, false, al < 16 ? 16 : al); }
int sim_posix_memalign(void** q, size_t al, size_t n) {
    void* p = a_alloc(n, false, al < 16 ? 16 : al);
    if (!p) return ENOMEM;
    *q = p;
    return 0;
}
char* sim_strdup(const char* s) {
    touchs(s);
    size_t n = strlen(s) + 1;
    char* p = (char*) a_alloc(n, false);
    if (p) memcpy(p, s, n);
    return p;
}
char* sim_strndup(const char* s, size_t m) {
    touchs(s, m);
    size_t n = strnlen(s, m);
    char* p = (char*) a_alloc(n + 1, false);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
int sim_vasprintf(char** out, const char* f, va_list ap) {
    va_list b;
    va_copy(b, ap);
    int n = vsnprintf(nullptr, 0, f, b);
    va_end(b);
    char* p = n < 0 ? nullptr : (char*) a_alloc((size_t) n + 1, false);
    if (!p) return -1;
    vsnprintf(p, (size_t) n + 1, f, ap);
    *out = p;
    return n;
}
int sim_asprintf(char** out, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = sim_vasprintf(out, f, ap);
    va_end(ap);
    return n;
}
void* sim_memcpy(void* d, const void* s, size_t n) {
    touch(s, n, false);
    touch(d, n, true);
    uintptr_t a = (uintptr_t) d, b = (uintptr_t) s;
    if (a != b && (a < b ? b - a : a - b) < n) violation("memory:overlapping-memcpy", "memcpy() of %zu bytes between overlapping ranges (op %u)", n, self->op);
    return memmove(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) { touch(s, n, false); touch(d, n, true); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { touch(d, n, true); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { touch(a, n, false); touch(b, n, false); return memcmp(a, b, n); }
size_t sim_strlen(const char* s) { touchs(s); return strlen(s); }
size_t sim_strnlen(const char* s, size_t m) { touchs(s, m); return strnlen(s, m); }
int sim_strcmp(const char* a, const char* b) { touchs(a); touchs(b); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, size_t n) { touchs(a, n); touchs(b, n); return strncmp(a, b, n); }
// what depends on the locale the host has set
static int lower(int c) {
    if (c < 0 || c > 255) return c;
    if (c >= 'A' && c <= 'Z' && !(c == 'I' && (C.locale & 2))) return c + 32;
    if (C.locale & 2) {
        if (c == 'I') return 0xfd;
        if (c == 0xdd) return 'i';
        if (c >= 0xc0 && c <= 0xde && c != 0xd7) return c + 32;
    }
    return c;
}
static int upper(int c) {
    for (int i = 0; i < 256; i++) if (i != c && lower(i) == c) return i;
    return c;
}
int sim_tolower(int c) { return lower(c); }
int sim_toupper(int c) { return upper(c); }
static int ctab[2][384];
static const int** ctype_table(bool up) {
    static const int* p[2] = {ctab[0] + 128, ctab[1] + 128};
    static bool made[2];
    if (!made[up]) for (int i = -128; i < 256; i++) ctab[up][i + 128] = i < 0 && i != -1 ? (up ? upper(i + 256) : lower(i + 256)) : up ? upper(i) : lower(i);
    made[up] = true;
    return &p[up];
}
const int** sim___ctype_tolower_loc() { return ctype_table(false); }
const int** sim___ctype_toupper_loc() { return ctype_table(true); }
static int compare_case(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        int x = lower((unsigned char) a[i]), y = lower((unsigned char) b[i]);
        if (x != y) return x - y;
        if (!a[i]) break;
    }
    return 0;
}
int sim_strcasecmp(const char* a, const char* b) { touchs(a); touchs(b); return compare_case(a, b, (size_t) -1); }
int sim_strncasecmp(const char* a, const char* b, size_t n) { touchs(a, n); touchs(b, n); return compare_case(a, b, n); }
struct lconv* sim_localeconv() {
    static struct lconv l;
    l = *localeconv();
    if (C.locale & 1) l.decimal_point = (char*) ",";
    return &l;
}
static double number(const char* s, char** e) {
    touchs(s);
    if (!(C.locale & 1)) return strtod(s, e);
    std::string t = s;
    for (auto& c : t) if (c == '.') { c = 0; break; }
    for (auto& c : t) if (c == ',') { c = '.'; break; }
    char* q;
    double v = strtod(t.c_str(), &q);
    if (e) *e = (char*) s + (q - t.c_str());
    return v;
}
char* sim_strcpy(char* d, const char* s) { touchs(s); touch(d, strlen(s) + 1, true); return strcpy(d, s); }
char* sim_strncpy(char* d, const char* s, size_t n) { touchs(s, n); touch(d, n, true); return strncpy(d, s, n); }
char* sim_stpcpy(char* d, const char* s) { touchs(s); touch(d, strlen(s) + 1, true); return stpcpy(d, s); }
char* sim_strcat(char* d, const char* s) { touchs(s); touchs(d); size_t n = strlen(d); touch(d + n, strlen(s) + 1, true); return strcat(d, s); }
int sim_atoi(const char* s) { touchs(s); return atoi(s); }
double sim_atof(const char* s) { return number(s, nullptr); }
double sim_strtod(const char* s, char** e) { return number(s, e); }
float sim_strtof(const char* s, char** e) { if (C.locale & 1) return (float) number(s, e); touchs(s); return strtof(s, e); }
unsigned long sim_strtoul(const char* s, char** e, int b) { touchs(s); return strtoul(s, e, b); }
long long sim_strtoll(const char* s, char** e, int b) { touchs(s); return strtoll(s, e, b); }
size_t sim_strspn(const char* a, const char* b) { touchs(a); touchs(b); return strspn(a, b); }
char* sim_strchr(const char* s, int c) { touchs(s); return (char*) strchr(s, c); }
long sim_strtol(const char* s, char** e, int b) { touchs(s); return strtol(s, e, b); }
int sim_vsnprintf(char* d, size_t n, const char* f, va_list ap) {
    va_list b;
    va_copy(b, ap);
    int r = vsnprintf(nullptr, 0, f, b);
    va_end(b);
    if (d && n) touch(d, (size_t) r + 1 < n ? (size_t) r + 1 : n, true);
    return vsnprintf(d, n, f, ap);
}
int sim_snprintf(char* d, size_t n, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = sim_vsnprintf(d, n, f, ap);
    va_end(ap);
    return r;
}
int sim_sprintf(char* d, const char* f, ...) {
    va_list ap, b;
    va_start(ap, f);
    va_copy(b, ap);
    int r = vsnprintf(nullptr, 0, f, b);
    va_end(b);
    touch(d, (size_t) r + 1, true);
    vsnprintf(d, (size_t) r + 1, f, ap);
    va_end(ap);
    return r;
}
// a mutex of the library's own: other threads run while one waits for it
extern "C++" {
template <class Try> static int own_lock(void* m, Try t) {
    bool l = self->in_lib;
    self->in_lib = false;
    point(K_LOCK, true);
    while (t()) yield_to_others(m);
    self->in_lib = l;
    return 0;
}
template <class Un> static int own_unlock(void* m, Un u) {
    bool l = self->in_lib;
    self->in_lib = false;
    u();
    for (int i = 0; i < NT; i++)
        if (T[i].st == ST_BLOCKED && T[i].on == m) { T[i].st = ST_RUN; T[i].on = nullptr; nrun++; }
    point(K_UNLOCK, true);
    self->in_lib = l;
    return 0;
}
struct Once { void* flag; int st; };
static Once onces[256]; // a process uses few of them
static int own_once(void* flag, void (*f)()) {
    Once* o = onces;
    while (o->flag && o->flag != flag) if (++o == onces + 256) { violation("harness:once", "more once flags than the simulator keeps"); return 0; }
    o->flag = flag;
    own_lock(flag, [&] { return o->st == 1; });
    if (o->st == 2) return 0;
    o->st = 1;
    f();
    own_unlock(flag, [&] { o->st = 2; });
    return 0;
}
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { return pthread_mutex_trylock(m); }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { return own_lock(m, [&] { return pthread_mutex_trylock(m); }); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { return own_unlock(m, [&] { pthread_mutex_unlock(m); }); }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return own_lock(m, [&] { return pthread_rwlock_tryrdlock(m); }); }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return own_lock(m, [&] { return pthread_rwlock_trywrlock(m); }); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* m) { return own_unlock(m, [&] { pthread_rwlock_unlock(m); }); }
int sim_pthread_spin_lock(pthread_spinlock_t* m) { return own_lock((void*) m, [&] { return pthread_spin_trylock(m); }); }
int sim_pthread_spin_unlock(pthread_spinlock_t* m) { return own_unlock((void*) m, [&] { pthread_spin_unlock(m); }); }
int sim_mtx_lock(mtx_t* m) { return own_lock(m, [&] { return mtx_trylock(m) != thrd_success; }); }
int sim_mtx_unlock(mtx_t* m) { return own_unlock(m, [&] { mtx_unlock(m); }); }
int sim_pthread_once(pthread_once_t* o, void (*f)()) { return own_once(o, f); }
void sim_call_once(once_flag* o, void (*f)()) { own_once(o, f); }
long sim_denied(const char* name, int cls) {
    denied(name, cls);
    return 0;
}

// host callbacks of the library
#ifdef SIM_SHIM
void NSEEL_HOSTSTUB_EnterMutex() { rt::lock(); }
void NSEEL_HOSTSTUB_LeaveMutex() { rt::unlock(); }
#else
void projectm_eval_memory_host_lock_mutex() { rt::lock(); }
void projectm_eval_memory_host_unlock_mutex() { rt::unlock(); }
#endif

#ifdef SIM_ASAN
const char* __asan_default_options() {
    return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0:detect_stack_use_after_return=0:"
           "abort_on_error=0:exitcode=7:print_summary=0:symbolize=0:allow_user_segv_handler=1:use_sigaltstack=0:detect_odr_violation=0:intercept_tls_get_addr=0";
}
void __asan_on_error() {
    const char* d = __asan_get_report_description();
    uint32_t op = self ? self->op : 0;
    bool lib = self && self->in_lib;
    violation(lib ? (std::string("memory:asan-") + (d ? d : "error")).c_str() : "harness:asan", "AddressSanitizer: %s of %zu bytes (op %u)", d ? d : "?",
              __asan_get_report_access_size(), op);
}
#endif
}
