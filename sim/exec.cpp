// Executes a plan against the real library and the reference model, and judges every result.
#include "plan.h"
#include <algorithm>
#include <cmath>

#include "projectm-eval/api/projectm-eval.h"
#ifdef SIM_SHIM
#include "ns-eel2-shim/ns-eel.h"
#endif

using namespace rt;

static_assert(sizeof(F) == sizeof(PRJM_EVAL_F), "floating-point size of model and library differ");

namespace {

struct CtxS {
    bool alive = false, busy = false, compiled = false;
    projectm_eval_context* h = nullptr;
    MCtx* m = nullptr;
    int b = -1, r = -1, gen = 0;
    int est = 0; // error state: 0 none, 1 known, 2 unknown (faults)
    bool eread = false;
    std::string err;
    const char* held = nullptr; // the message as the host got it, valid until the next compile in this context
    int line = 0, col = 0;
};
struct CodeS {
    bool alive = false, busy = false;
    projectm_eval_code* h = nullptr;
    int prog = -1, ctx = 0, gen = 0;
};
struct BufS { bool alive = false; projectm_eval_mem_buffer h = nullptr; MBuf* m = nullptr; };
struct Hist { char t; F v; uint64_t inv, ret; int thr; F st[MAXT], si[MAXT]; }; // si, st: iterations of running loops when the write began and ended
struct RndRec { std::vector<F> v; uint64_t inv, ret; int thr; int n; };
struct StopRec { MBuf* b; long long i; uint64_t inv, ret; int thr; F n; int mode; uint32_t uid; };
struct FunRec { MBuf* b; const Op* o; uint64_t inv, ret; int thr; F v; };

const Plan* P;
CtxS ctx[NCTX];
CodeS code[NCODE];
BufS buf[NBUF];
MBuf* builtin;
F* regarr[NREGS];   // host arrays
F* mregs[NREGS + 1]; // model storage, last = built-in
F* breg[100];       // addresses of the built-in registers
std::mt19937* mt;
std::map<std::pair<int, long long>, std::vector<Hist>> hist;
std::map<std::pair<int, long long>, F> adders;
std::vector<RndRec> rnds;
std::vector<StopRec> stops;
std::vector<FunRec> funs;
std::set<std::pair<int, int>> regions; // regions that were accessed (allocation count)
bool freed_any;
struct ErrRec { std::string text, err; int line, col; uint32_t uid; };
std::vector<ErrRec> errs; // errors of rejected programs, compared with those of the same text compiled alone
F* running[MAXT]; // iteration counter of the loop a thread is executing

std::string lower(std::string s) {
    for (auto& c : s) c = (char) tolower(c);
    return s;
}
bool is_reg(const std::string& l) { return l.size() == 5 && l.compare(0, 3, "reg") == 0 && isdigit(l[3]) && isdigit(l[4]); }
void evF(F v) {
    if (std::isnan(v)) { event(0x7ff8); return; }
    uint64_t u = 0;
    memcpy(&u, &v, sizeof v);
    event(u);
}
void evS(const char* s) {
    uint64_t h = 7;
    for (; s && *s; s++) h = h * 131 + (unsigned char) *s;
    event(h);
}
bool useshim(const Op& o) {
#ifdef SIM_SHIM
    if (o.shim) { probe(PR_SHIM); return true; }
#endif
    return false;
}

// ------------------------------------------------------------- calls
struct Text { // program text or name in guarded host memory that disappears after the call
    char* p;
    std::string s;
    explicit Text(const std::string& x) : s(x) { p = (char*) host_alloc(x.size() + 1); memcpy(p, x.c_str(), x.size() + 1); }
    ~Text() {
        if (memcmp(p, s.c_str(), s.size() + 1)) violation("memory:host-text-modified", "the text passed by the host was modified");
        host_free(p);
    }
};
projectm_eval_code* call_compile(const Op& o, projectm_eval_context* h, const std::string& src) {
    Text t(src);
    projectm_eval_code* r;
    in_text(true);
#ifdef SIM_SHIM
    if (useshim(o)) {
        static const int offs[] = {0, 0, 1, 7, -3, 100000}; // of no effect
        LibCall l;
        r = (projectm_eval_code*) NSEEL_code_compile((NSEEL_VMCTX) h, t.p, offs[mix(o.uid, 0x11FE) % 6]);
    }
    else
#endif
    { LibCall l; r = projectm_eval_code_compile(h, t.p); }
    in_text(false);
    return r;
}
void call_del(const Op& o, projectm_eval_code* h) {
    if (h && mix(o.uid, 0xDE1) % 64 == 0) call_del(o, nullptr); // as a host does that ignores that a compile failed
#ifdef SIM_SHIM
    if (useshim(o)) { LibCall l; NSEEL_code_free((NSEEL_CODEHANDLE) h); return; }
#endif
    LibCall l;
    projectm_eval_code_destroy(h);
}
bool call_exec(const Op& o, projectm_eval_code* h, F& res) {
    if (h && mix(o.uid, 0xE8EC) % 64 == 0) {
        F r = 0;
        call_exec(o, nullptr, r);
        if (r != 0) violation("value:null-handle", "executing no program returns %.17g (op %u)", (double) r, o.uid);
    }
#ifdef SIM_SHIM
    if (useshim(o)) { LibCall l; NSEEL_code_execute((NSEEL_CODEHANDLE) h); return false; }
#endif
    LibCall l;
    res = projectm_eval_code_execute(h);
    return true;
}
F* call_reg(const Op& o, projectm_eval_context* h, const std::string& name) {
    Text t(name);
    F* r;
#ifdef SIM_SHIM
    if (useshim(o)) { LibCall l; r = (F*) NSEEL_VM_regvar((NSEEL_VMCTX) h, t.p); }
    else
#endif
    { LibCall l; r = projectm_eval_context_register_variable(h, t.p); }
    return r;
}
const char* call_err(const Op& o, projectm_eval_context* h, int* line, int* col) {
    *line = *col = -1;
    const char* e;
#ifdef SIM_SHIM
    if (useshim(o)) { LibCall l; e = NSEEL_code_getcodeerror((NSEEL_VMCTX) h); }
    else
#endif
    switch (mix(o.uid, 0xE44) % 6) { // the other ways must not write anywhere, too
    case 0: { LibCall l; e = projectm_eval_get_error(h, nullptr, nullptr); }
    case 1: { LibCall l; e = projectm_eval_get_error(h, line, nullptr); }
    case 2: { LibCall l; e = projectm_eval_get_error(h, nullptr, col); }
    default: { LibCall l; e = projectm_eval_get_error(h, line, col); }
    }
    for (const char* p = e; p; p++) {
        if (!owned(p, 1)) violation("memory:dangling-result", "the error message returned does not belong to live memory (op %u)", o.uid);
        if (!*p) break;
    }
    return e;
}

MBuf* globof(CtxS& c) { return c.b < 0 ? builtin : buf[c.b].m; }

// ------------------------------------------------------------- memory read back through programs
struct Reader {
    const Op& o;
    CtxS& c;
    projectm_eval_code *l = nullptr, *g = nullptr;
    F *p = nullptr;
    Reader(const Op& o, CtxS& c) : o(o), c(c) {
        p = c.m->vars.count("zz_i") ? c.m->vars["zz_i"].real : nullptr;
        if (!p) {
            p = call_reg(o, c.h, "zz_i");
            if (!p) violation("api:register-failed", "registering a variable fails without any failing allocation (op %u)", o.uid);
            c.m->vars["zz_i"].real = p;
        }
    }
    F read(bool glob, long long i) {
        auto& h = glob ? g : l;
        if (!h) {
            h = call_compile(o, c.h, glob ? "gmegabuf(zz_i)" : "megabuf(zz_i)");
            if (!h) violation("api:compile-failed", "compiling a valid memory read fails without any failing allocation (op %u)", o.uid);
            c.est = 0;
        }
        *p = (F) i;
        F r;
        { LibCall lc; r = projectm_eval_code_execute(h); }
        probe(PR_MEMREADS);
        evF(r);
        return r;
    }
    void done() {
        if (l) call_del(o, l);
        if (g) call_del(o, g);
        *p = 0;
        c.m->vars["zz_i"].v = 0;
    }
};
bool exactF(long long i) { return (long long) (F) i == i; }

void bad_mem(const Op& o, bool glob, long long i, F got, F want, const char* why) {
    violation(glob ? "value:gmem" : "value:mem", "%s location %lld reads %.17g, expected %.17g %s(op %u)", glob ? "global" : "local", i, (double) got, (double) want, why, o.uid);
}
void check_vars(const Op& o, CtxS& c) {
    for (auto& kv : c.m->vars)
        if (kv.second.real && !owned(kv.second.real, sizeof(F)))
            violation("memory:dangling-result", "the storage of variable %s was released (op %u)", kv.first.c_str(), o.uid);
        else if (kv.second.real && !same(*kv.second.real, kv.second.v))
            violation("value:variable", "variable %s is %.17g, expected %.17g (op %u)", kv.first.c_str(), (double) *kv.second.real, (double) kv.second.v, o.uid);
}
F* do_register(const Op& o, CtxS& c, const std::string& name) {
    std::string l = lower(name);
    F* p = call_reg(o, c.h, name);
    if (!p) return nullptr;
    if (!owned(p, sizeof *p)) violation("memory:dangling-result", "the address returned for variable %s does not belong to live memory (op %u)", name.c_str(), o.uid);
    if (is_reg(l)) {
        int n = atoi(l.c_str() + 3);
        if (c.r >= 0) {
            if (p != regarr[c.r] + n) violation("register:address", "%s does not denote element %d of the supplied array (op %u)", name.c_str(), n, o.uid);
        } else {
            if (!breg[n]) {
                for (int i = 0; i < 100; i++) if (i != n && breg[i] == p) violation("register:alias", "reg%02d and reg%02d share a location (op %u)", i, n, o.uid);
                for (int a = 0; a < NREGS; a++) if (p >= regarr[a] && p < regarr[a] + 100) violation("register:address", "a built-in register lies in a supplied array (op %u)", o.uid);
                breg[n] = p;
            }
            if (breg[n] != p) violation("register:address", "%s moved or is not shared between contexts (op %u)", name.c_str(), o.uid);
        }
        if (c.m->regs) {
            F want = c.m->regs[n];
            bool own = nthreads() == 1 || P->nthr == 1 || n % P->nthr == me();
            evF(*p);
            if (own && !same(*p, want)) violation("value:register", "%s is %.17g, expected %.17g (op %u)", name.c_str(), (double) *p, (double) want, o.uid);
        }
        return p;
    }
    auto& v = c.m->vars[l];
    if (v.real && v.real != p) violation("variable:address", "variable %s moved (op %u)", l.c_str(), o.uid);
    if (!v.real) {
        for (auto& kv : c.m->vars)
            if (kv.second.real == p) violation("variable:alias", "variables %s and %s share a location (op %u)", kv.first.c_str(), l.c_str(), o.uid);
        v.real = p;
    }
    evF(*p);
    if (!same(*p, v.v)) violation("value:variable", "variable %s is %.17g, expected %.17g (op %u)", l.c_str(), (double) *p, (double) v.v, o.uid);
    return p;
}
F* varptr(const Op& o, CtxS& c, const std::string& n) {
    auto& v = c.m->vars[n];
    if (v.real) return v.real;
    F* p = do_register(o, c, n);
    if (!p) violation("api:register-failed", "registering a variable fails without any failing allocation (op %u)", o.uid);
    return p;
}

void drop(CtxS& c) {
    if (!c.m) return;
    delete c.m;
    c.m = nullptr;
}

bool live_code(int k) { return code[k].alive && !code[k].busy && ctx[code[k].ctx].alive && !ctx[code[k].ctx].busy && ctx[code[k].ctx].gen == code[k].gen; }
bool live_ctx(int c) { return ctx[c].alive && !ctx[c].busy; }
struct Busy {
    bool& b;
    explicit Busy(bool& b) : b(b) { b = true; }
    ~Busy() { b = false; }
};

void check_held(const Op& o, CtxS& c) {
    if (c.est != 1 || !c.held) return;
    size_t n = c.err.size() + 1;
    if (!owned(c.held, n)) violation("error:released", "the error message handed out is released before the next compile (op %u)", o.uid);
    if (memcmp(c.held, c.err.c_str(), n)) violation("error:overwritten", "the error message handed out, \"%.100s\", was changed before the next compile (op %u)", c.err.c_str(), o.uid);
}
// after a compile that failed to produce or produced a program
void note_error(const Op& o, CtxS& c, bool faults) {
    c.est = faults ? 2 : 1;
    c.eread = false;
    c.held = nullptr;
    if (faults) return;
    int l, k;
    Op plain = o;
    plain.shim = 0;
    const char* e = call_err(plain, c.h, &l, &k);
    if (!e || !*e) violation("error:missing", "a rejected program leaves no error message (op %u)", o.uid);
    c.err = e;
    c.held = e;
    c.line = l;
    c.col = k;
    evS(e);
    event((uint64_t) l * 100000 + k);
    if (o.kind == O_BAD && errs.size() < 6 + 6 * (size_t) (P->nthr > 1)) {
        for (auto& x : errs) if (x.uid == o.uid) return;
        errs.push_back({o.str, e, l, k, o.uid});
    }
}
// The same texts, compiled alone in a context of their own, must give the same errors.
void check_errors() {
    for (auto& x : errs) {
        Op o;
        o.uid = x.uid | 3u << 28;
        op_begin(o.uid, nullptr);
        projectm_eval_context* h;
        { LibCall l; h = projectm_eval_context_create(nullptr, nullptr); }
        if (!h) violation("api:create-failed", "creating a context fails although no allocation failed (op %u)", o.uid);
        if (call_compile(o, h, x.text)) violation("api:accepted", "an invalid program is accepted (op %u)", o.uid);
        int l, k;
        const char* e = call_err(o, h, &l, &k);
        if (!e || x.err != e || l != x.line || k != x.col)
            violation("error:differs", "a program was rejected with \"%.100s\" at %d:%d, but alone the same text gives \"%.100s\" at %d:%d (op %u)",
                      x.err.c_str(), x.line, x.col, e ? e : "(null)", l, k, x.uid);
        { LibCall lc; projectm_eval_context_destroy(h); }
        op_end();
        probe(PR_ERRSOLO);
    }
}
void check_error(const Op& o, CtxS& c) {
    int l, k;
    check_held(o, c);
    const char* e = call_err(o, c.h, &l, &k);
    probe(PR_ERRREADS);
    if (c.est == 2) return;
    if (c.est == 0) {
        if (e && *e) violation("error:stale", "an error message (\"%.100s\") is reported although the last compile succeeded or none happened (op %u)", e, o.uid);
        return;
    }
    if (!e || c.err != e || (l != -1 && (l != c.line || k != c.col)))
        violation("error:changed", "the error message changed from \"%.100s\" to \"%.100s\" without a compile (op %u)", c.err.c_str(), e ? e : "(null)", o.uid);
    c.held = e;
}

Interp make_interp(CtxS& c) {
    Interp it(*c.m);
    it.mt = mt;
    it.access = [&c](MBuf* b, long long i) {
        if (i >= 0 && b == c.m->glob) regions.insert({b->id, (int) (i >> 16)});
    };
    return it;
}
void finish_interp(Interp& it) {
    if (it.capped) probe(PR_CAPPED_LOOPS);
    if (it.rands) probe(PR_RANDS, it.rands);
}

// Executes handle h of program pr in context c and checks it against the model.
void exec_checked(const Op& o, CtxS& c, projectm_eval_code* h, const Prog& pr, bool shimcall) {
    F res = 0;
    Op oo = o;
    if (!shimcall) oo.shim = 0;
    bool hasres = call_exec(oo, h, res);
    uint32_t fails = op_faults();
    op_end();
    probe(PR_EXECS);
    if (hasres) evF(res);
    Interp it = make_interp(c);
    std::vector<WriteLog> log;
    if (fails) it.wlog = &log;
    Interp::R r = it.eval(pr.ast);
    F want = it.get(r);
    finish_interp(it);
    if (fails) {
        probe(PR_OOM_ACCESS, fails);
        std::map<std::pair<int, long long>, WriteLog> last;
        for (auto& w : log) {
            auto k = std::make_pair(w.b->id, w.i);
            auto f = last.find(k);
            if (f == last.end()) last.emplace(k, w);
            else f->second.neu = w.neu, f->second.stmt = w.stmt;
        }
        std::set<int> lost;
        Reader rd(o, c);
        for (auto& kv : last) {
            WriteLog& w = kv.second;
            if (!exactF(w.i)) continue;
            F got = rd.read(w.b != &c.m->local, w.i);
            if (same(got, w.neu)) continue;
            if (!same(got, w.old)) bad_mem(o, w.b != &c.m->local, w.i, got, w.neu, "or its old value, after a failed block allocation ");
            lost.insert(w.stmt);
            w.b->at(w.i) = got;
        }
        rd.done();
        if (lost.size() > fails)
            violation("oom:lost-more", "%zu assignments were lost although only %u block allocations failed (op %u)", lost.size(), fails, o.uid);
    }
    if (hasres && !same(res, want)) violation("value:result", "execution returns %.17g, expected %.17g (op %u)", (double) res, (double) want, o.uid);
    check_vars(o, c);
}

void verify_ctx(const Op& o, CtxS& c, bool all) {
    check_held(o, c);
    std::vector<std::string> names;
    for (auto& kv : c.m->vars) names.push_back(kv.first);
    for (auto& n : names) {
        F* p = do_register(o, c, n);
        if (!p) violation("api:register-failed", "registering a variable fails without any failing allocation (op %u)", o.uid);
    }
    int nt = P->nthr;
    for (int i = 0; i < 100; i++)
        if (all || i % nt == me()) {
            if (c.r >= 0) {
                if (!same(regarr[c.r][i], c.m->regs[i])) violation("value:register", "reg%02d of a supplied array is %.17g, expected %.17g (op %u)", i, (double) regarr[c.r][i], (double) c.m->regs[i], o.uid);
            } else if (breg[i] && !same(*breg[i], c.m->regs[i]))
                violation("value:register", "built-in reg%02d is %.17g, expected %.17g (op %u)", i, (double) *breg[i], (double) c.m->regs[i], o.uid);
        }
    Reader rd(o, c);
    auto tl = c.m->local.touched;
    for (long long i : {0ll, 65535ll, 65536ll, MEMN - 1}) if (o.flag & 2) tl.push_back(i);
    for (long long i : tl) {
        if (!exactF(i)) continue;
        F got = rd.read(false, i), want = c.m->local.get(i);
        if (!same(got, want)) bad_mem(o, false, i, got, want, "");
    }
    auto tg = c.m->glob->touched;
    for (long long i : tg) {
        if (!exactF(i)) continue;
        if (!all && i % nt != me()) continue;
        regions.insert({c.m->glob->id, (int) (i >> 16)});
        F got = rd.read(true, i), want = c.m->glob->get(i);
        if (!same(got, want)) bad_mem(o, true, i, got, want, "");
    }
    if (all)
        for (auto& h : hist)
            if (h.first.first == c.m->glob->id) {
                Hist x;
                x.t = 'r';
                x.thr = me();
                x.inv = now();
                x.v = rd.read(true, h.first.second);
                x.ret = now();
                h.second.push_back(x);
            }
    rd.done();
    check_vars(o, c);
}

// ------------------------------------------------------------- end-of-run judgements over the recorded history
void check_linear() {
    for (auto& kv : hist) {
        auto& hs = kv.second;
        bool reads = false;
        for (auto& h : hs) reads |= h.t == 'r';
        if (!reads) continue;
        probe(PR_LINHIST, hs.size());
        // Atomic register with unique written values: cluster per value, zones (Gibbons and Korach).
        struct Zone { F v; uint64_t f, s; bool hasw; uint64_t winv, wret; };
        std::vector<Zone> z;
        auto zone = [&](F v) -> Zone& {
            for (auto& x : z) if (same(x.v, v)) return x;
            z.push_back(Zone{v, UINT64_MAX, 0, false, 0, 0});
            return z.back();
        };
        Zone& init = zone(0);
        init.hasw = true; init.f = 0; init.s = 0;
        for (auto& h : hs) if (h.t == 'w') {
            Zone& x = zone(h.v);
            if (x.hasw) continue; // generator error: not unique
            x.hasw = true;
            x.winv = h.inv; x.wret = h.ret;
        }
        long long loc = kv.first.second;
        for (auto& h : hs) {
            Zone& x = zone(h.v);
            if (!x.hasw)
                violation("shared:never-written", "thread %d reads %.17g from shared location %lld, which nobody wrote there", h.thr, (double) h.v, loc);
            if (h.t == 'r' && h.ret < x.winv)
                violation("shared:future-value", "thread %d reads %.17g from shared location %lld before it is written", h.thr, (double) h.v, loc);
            if (h.ret < x.f) x.f = h.ret;
            if (h.inv > x.s) x.s = h.inv;
        }
        for (size_t a = 0; a < z.size(); a++)
            for (size_t b = 0; b < z.size(); b++) {
                if (a == b) continue;
                auto &x = z[a], &y = z[b];
                if (x.f == UINT64_MAX || y.f == UINT64_MAX) continue;
                bool fx = x.f < x.s, fy = y.f < y.s;
                if (fx && fy && a < b && x.f < y.s && y.f < x.s)
                    violation("shared:not-linearizable", "shared location %lld: values %.17g and %.17g appear alternately, a completed write was lost or revived", loc, (double) x.v, (double) y.v);
                if (fx && !fy && x.f < y.s && y.f < x.s)
                    violation("shared:not-linearizable", "shared location %lld: value %.17g is written and overwritten entirely while %.17g must be the current value (lost write)", loc, (double) y.v, (double) x.v);
            }
    }
    if (P->check_once && !freed_any) {
        size_t n = block_allocs();
        size_t locals = 0;
        if (n > regions.size() + locals)
            violation("shared:allocated-twice", "%zu memory blocks were allocated for %zu regions", n, regions.size());
    }
}
void check_rand() {
    if (rnds.empty()) return;
    long total = 0, unknown = 0;
    for (auto& r : rnds) { total += r.n; unknown += r.n - (long) r.v.size(); }
    std::mt19937 g(0x4141f00d);
    std::vector<std::pair<double, int>> seq; // delivered value of each element, sorted
    const double limit = (double) (F) 4294967295.0;
    for (int i = 0; i < total; i++) seq.push_back({(double) (F) (g() * (1.0 / (double) 0xFFFFFFFF) * limit), i});
    std::sort(seq.begin(), seq.end());
    std::vector<int> used((size_t) total, 0);
    std::vector<std::vector<int>> ix(rnds.size());
    bool ambiguous = false;
    for (size_t j = 0; j < rnds.size(); j++) {
        auto& r = rnds[j];
        int prev = -1;
        for (F v : r.v) {
            double u = (double) v, tol = sizeof(F) == 4 ? fabs(u) * 2.4e-7 : 1e-3;
            auto lo = std::lower_bound(seq.begin(), seq.end(), std::make_pair(u - tol, -1));
            int n = 0, i = -1;
            for (auto k = lo; k != seq.end() && k->first <= u + tol; ++k) {
                n++;
                if (i < 0 || used[(size_t) i]) i = k->second; // nearly equal elements: take one that is still free
            }
            if (!n) violation("rand:not-in-sequence", "thread %d draws %.17g, which is none of the first %ld elements of the sequence", r.thr, u, total);
            if (used[(size_t) i]++) violation("rand:delivered-twice", "element %d of the random sequence is delivered twice", i);
            if (n > 1) { ambiguous = true; continue; }
            if (i <= prev) violation("rand:order", "consecutive draws of thread %d deliver element %d after element %d", r.thr, i, prev);
            prev = i;
            ix[j].push_back(i);
        }
    }
    // calls that do not overlap draw in order
    for (size_t a = 0; a < rnds.size(); a++)
        for (size_t b = 0; b < rnds.size(); b++) {
            if (rnds[a].ret >= rnds[b].inv) { if (a < b && rnds[b].ret >= rnds[a].inv) probe(PR_RAND_CONC); continue; }
            if (ix[a].empty() || ix[b].empty()) continue;
            if (ix[a].back() > ix[b].front())
                violation("rand:order", "element %d of the random sequence is delivered by a call that ended before the call delivering element %d began", ix[a].back(), ix[b].front());
        }
    if (!unknown && !ambiguous)
        for (long i = 0; i < total; i++)
            if (!used[(size_t) i]) violation("rand:skipped", "element %ld of the random sequence is never delivered", i);
    if (total > 624) probe(PR_RAND_REFILL);
}
void check_stops() {
    for (auto& s : stops) {
        auto it = hist.find({s.b->id, s.i});
        static std::vector<Hist> none;
        auto& hs = it == hist.end() ? none : it->second;
        auto possible = [&](std::function<bool(F)> ok) { // could a read in [inv, ret] return an acceptable value
            auto overwritten = [&](uint64_t ret) {
                for (auto& h : hs) if (h.t == 'w' && h.inv > ret && h.ret < s.inv) return true;
                return false;
            };
            if (ok(0) && !overwritten(0)) return true;
            for (auto& h : hs)
                if (h.t == 'w' && h.inv <= s.ret && ok(h.v) && !overwritten(h.ret) && !(s.mode && h.inv > s.inv && h.si[s.thr] >= 1)) return true; // a count is read before the first iteration
            return false;
        };
        if (s.mode == 0) { // while(n = n + 1; word)
            if (!(s.n >= 1 && s.n <= 1048576)) violation("loop:limit", "a while ran %.17g times (op %u)", (double) s.n, s.uid);
            if (s.n < 1048576 && !possible([](F v) { return !(std::fabs(v) > 1e-300); }))
                violation("loop:stopped-early", "a while stopped after %.17g iterations although its condition was never 0 (op %u)", (double) s.n, s.uid);
            // last write
            const Hist* lw = nullptr;
            for (auto& h : hs) if (h.t == 'w' && (!lw || h.inv > lw->inv)) lw = &h;
            bool seq = true;
            for (auto& h : hs) if (h.t == 'w' && lw && &h != lw && h.ret > lw->inv) seq = false;
            if (lw && lw->v == 0 && seq && lw->ret > s.inv && lw->ret < s.ret) {
                // counted up to that moment; the test of this iteration may already have happened, the next one reads 0
                probe(PR_LOOP_STOPPED);
                if (s.n > lw->st[s.thr] + 1) violation("loop:does-not-stop", "a while ran %.17g times, although its condition was 0 for good after %.17g (op %u)", (double) s.n, (double) lw->st[s.thr], s.uid);
            }
            if (lw && lw->v == 0 && seq && lw->ret < s.inv && s.n != 1)
                violation("loop:does-not-stop", "a while ran %.17g times although its condition was 0 before it started (op %u)", (double) s.n, s.uid);
        } else {
            auto cap = [](F v) { return !(v >= 1) ? (F) 0 : v > 1048576 ? (F) 1048576 : (F) floor(v); };
            if (!possible([&](F v) { return cap(v) == s.n; }))
                violation("loop:count", "a loop ran %.17g times, which is no count it could have read when it was entered (op %u)", (double) s.n, s.uid);
        }
    }
}

NP substitute(const NP& n, size_t& j) { // shared operands become variables s0, s1, ... in the order of their appearance
    if (n->k == N_GMEM || n->k == N_REG) return var("s" + std::to_string(j++));
    if (n->k == N_RAND) return substitute(n->a[0], j); // judged by its limit
    NP r = mk(n->k, n->s);
    for (auto& c : n->a) r->a.push_back(substitute(c, j));
    return r;
}
void check_funs() {
    for (auto& f : funs) {
        const Op& o = *f.o;
        size_t n = o.acc.size() - 1, j = 0;
        NP ast = substitute(P->progs[(size_t) o.prog].ast, j);
        if (j != n) continue;
        std::vector<std::vector<F>> cand(n);
        bool many = false;
        for (size_t i = 0; i < n; i++) {
            long long loc = o.acc[i].i;
            auto it = hist.find({loc < 0 ? -1 : f.b->id, loc});
            static std::vector<Hist> none;
            auto& hs = it == hist.end() ? none : it->second;
            auto overwritten = [&](uint64_t ret) {
                for (auto& h : hs) if (h.t == 'w' && h.inv > ret && h.ret < f.inv) return true;
                return false;
            };
            if (!overwritten(0)) cand[i].push_back(0);
            for (auto& h : hs)
                if (h.t == 'w' && h.inv <= f.ret && !overwritten(h.ret)) cand[i].push_back(h.v);
            for (size_t a = 0; a < cand[i].size(); a++)
                for (size_t b = a + 1; b < cand[i].size();)
                    if (!memcmp(&cand[i][a], &cand[i][b], sizeof(F))) cand[i].erase(cand[i].begin() + (long) b); else b++;
            many |= cand[i].size() > 1;
        }
        if (many) probe(PR_FUN_MANY);
        std::vector<size_t> ix(n, 0);
        bool ok = false;
        std::string vals;
        for (;;) {
            MCtx m;
            MBuf scratch;
            m.glob = &scratch;
            Interp I(m);
            for (size_t i = 0; i < n; i++) m.vars["s" + std::to_string(i)].v = cand[i][ix[i]];
            I.eval(ast);
            F want = m.vars[o.acc.back().v].v;
            if (o.flag ? !std::isfinite(want) || (f.v >= 0 && f.v <= (want >= 1 ? (F) floor((double) want) : (F) 1)) : same(want, f.v)) { ok = true; break; }
            char t[40];
            snprintf(t, sizeof t, " %.9g", (double) want);
            if (vals.size() < 200) vals += t;
            size_t i = 0;
            while (i < n && ++ix[i] == cand[i].size()) ix[i++] = 0;
            if (i == n) break;
        }
        if (!ok) violation("operand:mixed", "\"%s\" yields %.17g (op %u, thread %d), but the values its shared operands could have give%s", print_program(P->progs[(size_t) o.prog].ast, 0).c_str(), (double) f.v, o.uid, f.thr, vals.c_str());
    }
}

bool leak_profile() {
    static const char* ps[] = {"C01", "C02", "C05", "C06", "C07", "C08", "C15"};
    for (auto p : ps) if (P->profile == p) return true;
    return false;
}

void teardown() {
    Rng g(P->teardown);
    Op o;
    o.uid = 0xE0000000u;
    op_begin(o.uid, nullptr);
    std::vector<int> items; // contexts 0.., codes 1000..
    for (int i = 0; i < NCTX; i++) if (ctx[i].alive) items.push_back(i);
    for (int i = 0; i < NCODE; i++) if (code[i].alive) items.push_back(1000 + i);
    for (size_t i = items.size(); i > 1; i--) std::swap(items[i - 1], items[g.below((uint32_t) i)]);
    for (int x : items) {
        o.shim = P->shim && g.chance(1, 2);
        if (x >= 1000) {
            if (!(ctx[code[x - 1000].ctx].alive && ctx[code[x - 1000].ctx].gen == code[x - 1000].gen)) probe(PR_CODE_AFTER_CTX);
            call_del(o, code[x - 1000].h);
        } else {
            CtxS& c = ctx[x];
#ifdef SIM_SHIM
            if (useshim(o)) { LibCall l; NSEEL_VM_free((NSEEL_VMCTX) c.h); }
            else
#endif
            { LibCall l; projectm_eval_context_destroy(c.h); }
            c.alive = false;
            drop(c);
            // the others keep working
        }
    }
    for (int i = 0; i < NBUF; i++)
        if (buf[i].alive) { LibCall l; projectm_eval_memory_buffer_destroy(buf[i].h); }
    int times = 1 + (int) g.below(2);
    for (int i = 0; i < times; i++) {
#ifdef SIM_SHIM
        if (P->shim && g.chance(1, 2)) { LibCall l; NSEEL_quit(); }
        else
#endif
        { LibCall l; projectm_eval_memory_global_destroy(); }
    }
    for (int a = 0; a < NREGS; a++)
        for (int i = 0; i < 100; i++)
            if (!same(regarr[a][i], mregs[a][i])) violation("value:register", "reg%02d of a supplied array is %.17g after teardown, expected %.17g", i, (double) regarr[a][i], (double) mregs[a][i]);
    for (int i = 0; i < 100; i++)
        if (breg[i] && !same(*breg[i], mregs[NREGS][i])) violation("value:register", "built-in reg%02d is %.17g after teardown, expected %.17g", i, (double) *breg[i], (double) mregs[NREGS][i]);
    if (leak_profile() && live_allocs())
        violation("leak", "%zu allocations (%zu bytes) are never released:%s", live_allocs(), live_bytes(), describe_live(4).c_str());
    op_end();
}

// ------------------------------------------------------------- one operation
#define SKIP do { probe(PR_DEADSLOT); return; } while (0)

void do_op(const Op& o) {
    CtxS& c = ctx[o.c];
    CodeS& k = code[o.k];
    switch (o.kind) {
    case O_CREATE: {
        if (c.alive || c.busy) SKIP;
        if (o.b >= 0 && !buf[o.b].alive) SKIP;
        Busy bs(c.busy);
        for (int attempt = 0; attempt < 2; attempt++) {
            // from here on the buffer counts as used
            c.b = o.b;
            c.r = o.r;
            op_begin(o.uid | (uint32_t) attempt << 28, attempt ? nullptr : &o.fs);
            projectm_eval_context* h;
            uint32_t f0 = 0;
#ifdef SIM_SHIM
            if (o.b < 0 && o.r < 0 && useshim(o)) { LibCall l; h = (projectm_eval_context*) NSEEL_VM_alloc(); }
            else
#endif
            { LibCall l; h = projectm_eval_context_create(o.b < 0 ? nullptr : buf[o.b].h, o.r < 0 ? nullptr : (PRJM_EVAL_F(*)[100]) regarr[o.r]); }
            f0 = op_faults();
            op_end();
            if (h) {
                if (f0) probe(PR_OOM_SURVIVED);
                probe(PR_CREATES);
                c.h = h;
                c.m = new MCtx();
                c.m->glob = globof(c);
                c.m->regs = mregs[o.r < 0 ? NREGS : o.r];
                c.alive = true;
                c.compiled = false;
                c.gen++;
                c.est = 0;
                return;
            }
            if (!f0) violation("api:create-failed", "creating a context fails although no allocation failed (op %u)", o.uid);
            probe(PR_OOM_NULL);
            if (!(o.flag & 1)) return;
        }
        return;
    }
    case O_DESTROY: {
        if (!live_ctx(o.c)) SKIP;
        check_held(o, c);
        c.alive = false;
        Busy bs(c.busy);
        op_begin(o.uid, &o.fs);
#ifdef SIM_SHIM
        if (useshim(o)) { LibCall l; NSEEL_VM_free((NSEEL_VMCTX) c.h); }
        else
#endif
        { LibCall l; projectm_eval_context_destroy(c.h); }
        op_end();
        drop(c);
        probe(PR_DESTROYS);
        return;
    }
    case O_BUFNEW: {
        BufS& b = buf[o.b];
        if (b.alive) SKIP;
        for (int attempt = 0; attempt < 2; attempt++) {
            op_begin(o.uid | (uint32_t) attempt << 28, attempt ? nullptr : &o.fs);
            projectm_eval_mem_buffer h;
            { LibCall l; h = projectm_eval_memory_buffer_create(); }
            uint32_t f0 = op_faults();
            op_end();
            if (h) {
                b.h = h;
                b.alive = true;
                b.m = new MBuf();
                probe(PR_BUFS);
                return;
            }
            if (!f0) violation("api:create-failed", "creating a buffer fails although no allocation failed (op %u)", o.uid);
            probe(PR_OOM_NULL);
            if (!(o.flag & 1)) return;
        }
        return;
    }
    case O_BUFDEL: {
        BufS& b = buf[o.b];
        if (!b.alive) SKIP;
        for (auto& x : ctx) if ((x.alive || x.busy) && x.b == o.b) SKIP;
        b.alive = false;
        freed_any = true;
        op_begin(o.uid, &o.fs);
#ifdef SIM_SHIM
        if (useshim(o)) { LibCall l; NSEEL_VM_FreeGRAM((void**) b.h); }
        else
#endif
        { LibCall l; projectm_eval_memory_buffer_destroy(b.h); }
        op_end();
        return;
    }
    case O_GDESTROY: {
        for (auto& x : ctx) if ((x.alive || x.busy) && x.b < 0) SKIP;
        freed_any = true;
        op_begin(o.uid, &o.fs);
#ifdef SIM_SHIM
        if (useshim(o)) { LibCall l; NSEEL_quit(); }
        else
#endif
        { LibCall l; projectm_eval_memory_global_destroy(); }
        op_end();
        builtin->clear();
        probe(PR_GDESTROYS);
        return;
    }
    case O_SETGRAM: {
#ifdef SIM_SHIM
        if (!live_ctx(o.c) || c.compiled || o.b < 0 || !buf[o.b].alive) SKIP;
        Busy bs(c.busy);
        c.b = o.b;
        op_begin(o.uid, nullptr);
        { LibCall l; NSEEL_VM_SetGRAM((NSEEL_VMCTX) c.h, (void**) buf[o.b].h); }
        op_end();
        probe(PR_SHIM);
        c.m->glob = globof(c);
#endif
        return;
    }
    case O_COMPILE: {
        if (!live_ctx(o.c) || k.alive || k.busy) SKIP;
        Busy bs(c.busy), bk(k.busy);
        const Prog& pr = P->progs[o.prog];
        std::string src = print_program(pr.ast, pr.style);
        c.compiled = true;
        check_held(o, c);
        c.held = nullptr;
        for (int attempt = 0; attempt < 2; attempt++) {
            op_begin(o.uid | (uint32_t) attempt << 28, attempt ? nullptr : &o.fs);
            projectm_eval_code* h = call_compile(o, c.h, src);
            uint32_t f0 = op_faults();
            op_end();
            event(h != nullptr);
            if (h) {
                if (f0) { probe(PR_OOM_SURVIVED); c.est = 2; }
                else c.est = 0;
                probe(PR_COMPILES);
                k.h = h;
                k.prog = o.prog;
                k.ctx = o.c;
                k.gen = c.gen;
                k.alive = true;
                if (c.est == 0) check_error(o, c);
                check_vars(o, c);
                return;
            }
            if (!f0) {
                int l, cc;
                const char* e = call_err(o, c.h, &l, &cc);
                violation("api:compile-failed", "a valid program is rejected (%.200s, op %u)", e ? e : "no error", o.uid);
            }
            probe(PR_OOM_NULL);
            c.est = 2;
            check_vars(o, c);
            if (!(o.flag & 1)) return;
        }
        return;
    }
    case O_BAD: {
        if (!live_ctx(o.c)) SKIP;
        Busy bs(c.busy);
        c.compiled = true;
        check_held(o, c);
        size_t live = 0;
        int n = o.flag & 1 ? 3 : 1;
        for (int i = 0; i < n; i++) {
            op_begin(o.uid | (uint32_t) i << 28, i ? nullptr : &o.fs);
            projectm_eval_code* h = call_compile(o, c.h, o.str);
            uint32_t f0 = op_faults();
            op_end();
            event(h != nullptr);
            if (h) violation("api:accepted", "an invalid program is accepted (op %u)", o.uid);
            probe(PR_REJECTS);
            note_error(o, c, f0 != 0);
            check_vars(o, c);
            if (i == 2 && P->nthr == 1 && live_allocs() != live)
                violation("leak:rejected-program", "rejecting the same text again leaves %zd more allocations (op %u)", (ssize_t) (live_allocs() - live), o.uid);
            live = live_allocs();
        }
        return;
    }
    case O_EXEC: {
        if (!live_code(o.k)) SKIP;
        CtxS& x = ctx[k.ctx];
        Busy bs(x.busy), bk(k.busy);
        op_begin(o.uid, &o.fs);
        exec_checked(o, x, k.h, P->progs[k.prog], true);
        op_end();
        return;
    }
    case O_FRESH: {
        if (!live_code(o.k)) SKIP;
        CtxS& x = ctx[k.ctx];
        Busy bs(x.busy), bk(k.busy);
        op_begin(o.uid, nullptr);
        const Prog& pr = P->progs[k.prog];
        check_held(o, x);
        projectm_eval_code* h = call_compile(o, x.h, print_program(pr.ast, o.flag & 4 ? 0 : pr.style));
        if (!h) violation("api:compile-failed", "a program compiled before is rejected now (op %u)", o.uid);
        x.est = 0;
        probe(PR_FRESH_COMPILE);
        exec_checked(o, x, h, pr, true);
        call_del(o, h);
        op_end();
        return;
    }
    case O_DEL: {
        if (!k.alive || k.busy) SKIP;
        if (!(ctx[k.ctx].alive && ctx[k.ctx].gen == k.gen)) probe(PR_CODE_AFTER_CTX);
        else if (ctx[k.ctx].busy) SKIP;
        k.alive = false;
        op_begin(o.uid, &o.fs);
        call_del(o, k.h);
        op_end();
        return;
    }
    case O_REG: {
        if (!live_ctx(o.c)) SKIP;
        Busy bs(c.busy);
        for (int attempt = 0; attempt < 2; attempt++) {
            op_begin(o.uid | (uint32_t) attempt << 28, attempt ? nullptr : &o.fs);
            F* p = do_register(o, c, o.str);
            uint32_t f0 = op_faults();
            op_end();
            probe(PR_REGS);
            if (p) break;
            if (!f0) violation("api:register-failed", "registering %s fails although no allocation failed (op %u)", o.str.c_str(), o.uid);
            probe(PR_OOM_NULL);
            if (!(o.flag & 1)) break;
        }
        return;
    }
    case O_WRITE: {
        if (!live_ctx(o.c)) SKIP;
        F v = (F) atof(o.val.c_str());
        std::string l = lower(o.str);
        op_begin(o.uid, nullptr);
        if (is_reg(l)) {
            int n = atoi(l.c_str() + 3);
            F* p = c.r >= 0 ? regarr[c.r] + n : breg[n];
            if (!p) SKIP;
            *p = v;
            c.m->regs[n] = v;
        } else {
            auto it = c.m->vars.find(l);
            if (it == c.m->vars.end() || !it->second.real) SKIP;
            *it->second.real = v;
            it->second.v = v;
        }
        op_end();
        probe(PR_WRITES);
        return;
    }
    case O_RESET: {
        if (!live_ctx(o.c)) SKIP;
        Busy bs(c.busy);
        op_begin(o.uid, &o.fs);
#ifdef SIM_SHIM
        if (useshim(o)) { LibCall l; NSEEL_VM_resetvars((NSEEL_VMCTX) c.h); }
        else
#endif
        { LibCall l; projectm_eval_context_reset_variables(c.h); }
        op_end();
        for (auto& kv : c.m->vars) kv.second.v = 0;
        check_vars(o, c);
        probe(PR_RESETS);
        return;
    }
    case O_FREEM: {
        if (!live_ctx(o.c)) SKIP;
        Busy bs(c.busy);
        op_begin(o.uid, &o.fs);
#ifdef SIM_SHIM
        if (useshim(o)) { LibCall l; NSEEL_VM_freeRAM((NSEEL_VMCTX) c.h); }
        else
#endif
        { LibCall l; projectm_eval_context_free_memory(c.h); }
        op_end();
        c.m->local.clear();
        check_vars(o, c);
        probe(PR_FREEMS);
        return;
    }
    case O_GETERR: {
        if (!live_ctx(o.c)) SKIP;
        Busy bs(c.busy);
        op_begin(o.uid, &o.fs);
        check_error(o, c);
        op_end();
        return;
    }
    case O_VERIFY: {
        if (!live_ctx(o.c)) SKIP;
        Busy bs(c.busy);
        op_begin(o.uid, nullptr);
        verify_ctx(o, c, o.flag & 1);
        op_end();
        return;
    }
    case O_SHX: {
        if (!live_code(o.k)) SKIP;
        CtxS& x = ctx[k.ctx];
        Busy bs(x.busy), bk(k.busy);
        op_begin(o.uid, nullptr);
        F wv = (F) atof(o.val.c_str());
        for (auto& a : o.acc) {
            F* p = varptr(o, x, a.v);
            if (a.t == 'w' || a.t == 'a') { *p = wv; x.m->vars[a.v].v = wv; }
            if (a.i >= 0) regions.insert({x.m->glob->id, (int) (a.i >> 16)});
        }
        uint64_t inv = now();
        F res, si[MAXT];
        for (int t = 0; t < MAXT; t++) si[t] = running[t] ? *running[t] : 0;
        Op oo = o;
        call_exec(oo, k.h, res);
        uint64_t ret = now();
        probe(PR_EXECS);
        for (auto& a : o.acc) {
            F* p = varptr(o, x, a.v);
            Hist h;
            h.t = a.t == 'r' ? 'r' : 'w';
            h.inv = inv;
            h.ret = ret;
            h.thr = me();
            for (int t = 0; t < MAXT; t++) { h.si[t] = si[t]; h.st[t] = running[t] ? *running[t] : 0; }
            auto key = std::make_pair(a.i < 0 ? -1 : x.m->glob->id, a.i);
            if (a.i < 0 && a.t == 'w') x.m->regs[-1 - a.i] = wv; // one writer
            if (a.t == 'r') { h.v = *p; x.m->vars[a.v].v = *p; }
            else if (a.t == 'w') h.v = wv;
            else { F& s = adders[key]; s += wv; h.v = s; }
            evF(h.v);
            hist[key].push_back(h);
        }
        check_vars(o, x);
        op_end();
        return;
    }
    case O_RND: {
        if (!live_code(o.k)) SKIP;
        CtxS& x = ctx[k.ctx];
        Busy bs(x.busy), bk(k.busy);
        op_begin(o.uid, nullptr);
        for (auto& a : o.acc) varptr(o, x, a.v);
        RndRec r;
        r.inv = now();
        F res;
        call_exec(o, k.h, res);
        r.ret = now();
        r.thr = me();
        r.n = (int) o.acc.size();
        probe(PR_EXECS);
        probe(PR_RANDS, o.acc.size());
        for (auto& a : o.acc) {
            F v = *varptr(o, x, a.v);
            x.m->vars[a.v].v = v;
            evF(v);
            if (a.t == 'd') r.v.push_back(v);
            else if (!(v >= 0 && v <= (F) a.i)) violation("rand:range", "rand delivers %.17g for a limit of %lld (op %u)", (double) v, a.i, o.uid);
        }
        rnds.push_back(r);
        op_end();
        return;
    }
    case O_RNDADV: {
        if (!live_code(o.k)) SKIP;
        CtxS& x = ctx[k.ctx];
        Busy bs(x.busy), bk(k.busy);
        op_begin(o.uid, nullptr);
        RndRec r;
        r.inv = now();
        F res;
        call_exec(o, k.h, res);
        r.ret = now();
        r.thr = me();
        r.n = o.flag;
        for (auto& kv : x.m->vars) if (kv.second.real) kv.second.v = *kv.second.real;
        probe(PR_RANDS, (uint64_t) o.flag);
        rnds.push_back(r);
        op_end();
        return;
    }
    case O_FUN: {
        if (!live_code(o.k) || o.acc.empty() || k.prog != o.prog) SKIP;
        CtxS& x = ctx[k.ctx];
        Busy bs(x.busy), bk(k.busy);
        op_begin(o.uid, nullptr);
        const std::string& out = o.acc.back().v;
        F* p = varptr(o, x, out);
        FunRec f;
        f.b = x.m->glob;
        f.o = &o;
        f.inv = now();
        F res;
        call_exec(o, k.h, res);
        f.ret = now();
        f.thr = me();
        f.v = *p;
        evF(f.v);
        x.m->vars[out].v = *p;
        probe(PR_FUNS);
        check_vars(o, x);
        funs.push_back(f);
        op_end();
        return;
    }
    case O_STOP: {
        if (!live_code(o.k) || o.acc.size() != 1) SKIP;
        CtxS& x = ctx[k.ctx];
        Busy bs(x.busy), bk(k.busy);
        op_begin(o.uid, nullptr);
        F* p = varptr(o, x, o.acc[0].v);
        StopRec s;
        s.b = x.m->glob;
        s.i = o.acc[0].i;
        *p = 0;
        s.inv = now();
        F res;
        running[me()] = p;
        call_exec(o, k.h, res);
        running[me()] = nullptr;
        s.ret = now();
        s.thr = me();
        s.n = *p;
        s.mode = o.flag & 1;
        s.uid = o.uid;
        evF(s.n);
        x.m->vars[o.acc[0].v].v = *p;
        check_vars(o, x);
        if (s.n >= 1048576) probe(PR_CAPPED_LOOPS);
        stops.push_back(s);
        op_end();
        return;
    }
    default: return;
    }
}
} // namespace

void execute(const Plan& p) {
    P = &p;
    builtin = new MBuf();
    mt = new std::mt19937(0x4141f00d);
    for (int i = 0; i < NREGS; i++) {
        regarr[i] = (F*) host_alloc(100 * sizeof(F));
        mregs[i] = new F[100]();
    }
    mregs[NREGS] = new F[100]();
    std::vector<std::vector<std::vector<const Op*>>> q((size_t) p.nthr, std::vector<std::vector<const Op*>>((size_t) p.nph));
    for (auto& o : p.ops)
        if (o.ph >= 0 && o.ph < p.nph && o.thr < p.nthr) q[(size_t) o.thr][(size_t) o.ph].push_back(&o);
    std::function<void(int, int)> body = [&](int t, int ph) {
        if (ph < p.nph) {
            for (auto* o : q[(size_t) t][(size_t) ph]) do_op(*o);
            return;
        }
        if (t) return;
        check_errors();
        check_linear();
        check_rand();
        check_stops();
        check_funs();
        teardown();
    };
    run(p.nthr, p.nph + 1, body);
    finish();
}
