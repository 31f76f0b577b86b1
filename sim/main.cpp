// Command line of the simulator: seeded search, replay, minimisation.
#include "plan.h"
#include <csignal>
#include <ctime>
#include <fstream>
#include <sstream>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace rt;

#ifndef SIM_VARIANT
#define SIM_VARIANT "?"
#endif
#ifdef SIM_SHIM
static const bool SHIM = true;
#else
static const bool SHIM = false;
#endif

static double mono() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}

struct Repl { // everything a replay file holds
    Plan plan;
    std::string variant = SIM_VARIANT, cls, msg;
    uint64_t seed = 1;
    unsigned junk = 0xCB;
    uint32_t shift = 0;
    bool reuse = false;
    int locale = 0;
    std::vector<Dec> dec;
    std::vector<Flt> flt;
    std::string text() const {
        std::ostringstream o;
        o << "# projectm-eval simulation replay\nvariant " << variant << "\nclass " << cls << "\n";
        std::string m = msg;
        for (auto& c : m) if ((unsigned char) c < 32) c = ' ';
        o << "# " << m << "\nconfig " << seed << " " << junk << " " << shift << " " << reuse << " " << locale << "\n" << plan.text();
        o << "# scheduling decisions: in operation OP of thread THR, at its PT-th point, hand over to TO\n";
        for (auto& d : dec) o << "dec " << d.op << " " << d.pt << " " << (int) d.thr << " " << (int) d.to << "\n";
        o << "# failing allocations: in operation OP, the IDX-th allocation\n";
        for (auto& f : flt) o << "flt " << f.op << " " << f.idx << "\n";
        return o.str();
    }
    bool parse(const std::string& s, std::string& err) {
        std::istringstream in(s);
        std::string line, w, rest;
        while (std::getline(in, line)) {
            std::istringstream l(line);
            if (!(l >> w) || w[0] == '#') continue;
            if (w == "variant") l >> variant;
            else if (w == "class") l >> cls;
            else if (w == "config") { l >> seed >> junk >> shift >> reuse; if (!(l >> locale)) locale = 0; }
            else if (w == "dec") {
                unsigned a, b, c, d;
                l >> a >> b >> c >> d;
                dec.push_back(Dec{a, b, (uint8_t) c, (uint8_t) d});
            } else if (w == "flt") {
                unsigned a, b;
                l >> a >> b;
                flt.push_back(Flt{a, b});
            } else
                rest += line + "\n";
        }
        return plan.parse(rest, err);
    }
};

static volatile pid_t kid;
static volatile bool timed_out;
static void on_alarm(int) {
    timed_out = true;
    if (kid > 0) kill(kid, SIGKILL);
}

static void reset_shared() {
    memset((void*) S, 0, offsetof(Shared, dec));
}

// Runs one plan in a child process. Returns 0 fine, 1 violation, 2 harness trouble.
static int run_child(const Plan& p, const Config& cfg, int limit) {
    reset_shared();
    timed_out = false;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(9); }
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGALRM, SIG_DFL);
        C = cfg;
        C.large = 65536 * sizeof(F) / 2;
        C.check_output = p.check_output;
        C.check_blocklock = p.check_blocklock;
        init_child(p.nthr);
        execute(p);
        _exit(0);
    }
    kid = pid;
    struct itimerval it = {{0, 0}, {limit, 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    kid = 0;
    it.it_value.tv_sec = 0;
    setitimer(ITIMER_REAL, &it, nullptr);
    if (S->viol == 1) return strncmp(S->cls, "harness:", 8) == 0 ? 2 : 1;
    if (S->viol == 2) return 2;
    if (S->finished) return 0;
    if (timed_out) { snprintf(S->cls, sizeof S->cls, "harness:timeout"); snprintf(S->msg, sizeof S->msg, "no result within %d s", limit); return 2; }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGABRT)) {
        // died without a report: the handler itself could not run
        snprintf(S->cls, sizeof S->cls, "crash:unreported");
        snprintf(S->msg, sizeof S->msg, "the process died from signal %d in operation %u", WTERMSIG(st), S->curop[S->curthr % MAXT]);
        return 1;
    }
    snprintf(S->cls, sizeof S->cls, "harness:died");
    snprintf(S->msg, sizeof S->msg, "child ended with status %d in operation %u", st, S->curop[S->curthr % MAXT]);
    return 2;
}

static uint64_t run_seed(uint64_t seed, const std::string& prof, uint64_t i) {
    uint64_t h = mix(seed, 0x51);
    for (char c : prof) h = mix(h, (uint64_t) c);
    return mix(h, i) >> 1;
}
static Config config_for(const Plan& p) {
    Config c;
    c.sc = p.sc;
    c.seed = p.seed;
    c.reuse = mix(p.seed, 0x2E) % 4 == 0;
    if (p.profile == "C16" || p.profile == "C09" || p.profile == "C10" || p.profile == "C15") {
        static const uint8_t L[] = {0, 0, 0, 0, 1, 2, 3, 3};
        c.locale = L[mix(p.seed, 0x10C) % 8];
    }
    return c;
}
// Second execution of the same history under different addresses and uninitialised contents.
static bool differs(const Plan& p, Config cfg, uint64_t h, uint64_t sh, int limit, bool vary, std::string& how) {
    if (vary) { cfg.junk = 0x35; cfg.shift = 37; cfg.locale = 3 - cfg.locale; }
    int r = run_child(p, cfg, limit);
    if (r == 0 && S->hash == h && (cfg.replay || S->schedhash == sh)) return false;
    char b[200];
    snprintf(b, sizeof b, "second execution: %s, results %s, schedule %s", r == 0 ? "no violation" : S->cls, S->hash == h ? "equal" : "differ", S->schedhash == sh ? "equal" : "differs");
    how = b;
    return true;
}

static const char* DIVERGED = "host:not-reproducible";

static int do_replay(const Repl& r, std::string& cls, std::string& msg, int limit) {
    Config c;
    c.replay = true;
    c.seed = r.seed;
    c.junk = (unsigned char) r.junk;
    c.shift = r.shift;
    c.reuse = r.reuse;
    c.locale = r.locale;
    c.rdec = r.dec;
    c.rflt = r.flt;
    int x = run_child(r.plan, c, limit);
    cls = S->cls;
    msg = S->msg;
    if (x == 0 && r.cls == DIVERGED) {
        uint64_t h = S->hash, sh = S->schedhash;
        if (differs(r.plan, c, h, sh, limit, true, msg)) { cls = DIVERGED; return 1; }
    }
    return x;
}

static std::string slurp(const std::string& f) {
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r + "\"";
}

// ---------------------------------------------------------------- minimisation
struct Shrinker {
    Repl cur;
    double until;
    int tries = 0;
    bool test(const Repl& r) {
        if (mono() > until) return false;
        tries++;
        std::string c, m;
        if (do_replay(r, c, m, 30) == 1 && c == cur.cls) return true;
        return false;
    }
    template<class V> bool ddmin(V Repl::*field) { return ddmin_get([&](Repl& r) -> V& { return r.*field; }); }
    template<class G> bool ddmin_get(G get) {
        bool any = false;
        size_t n = get(cur).size(), chunk = n;
        while (chunk >= 1 && n) {
            bool removed = false;
            for (size_t i = 0; i < get(cur).size() && mono() < until;) {
                Repl t = cur;
                auto& v = get(t);
                size_t e = std::min(i + chunk, v.size());
                v.erase(v.begin() + (long) i, v.begin() + (long) e);
                if (test(t)) { cur = t; removed = any = true; }
                else i = e;
            }
            n = get(cur).size();
            if (chunk == 1 && !removed) break;
            chunk = removed && chunk == 1 ? 1 : chunk / 2;
            if (chunk > n) chunk = n;
        }
        return any;
    }
    static NP clone(const NP& n) {
        auto r = std::make_shared<Node>(*n);
        for (auto& c : r->a) c = clone(c);
        return r;
    }
    // all places where something can be simplified, numbered; applies the k-th, false if there is none
    static bool simplify(NP& n, int& k, bool rvalue) {
        if (n->k == N_SEQ)
            for (size_t i = 0; i + 1 < n->a.size(); i++)
                if (k-- == 0) {
                    n->a.erase(n->a.begin() + (long) i);
                    if (n->a.size() == 1) { NP x = n->a[0]; n = x; }
                    return true;
                }
        if (rvalue && n->k != N_NUM && node_count(n) < 200 && pure(n))
            for (const char* v : {"0", "1"})
                if (k-- == 0) { n = num(v); return true; }
        for (size_t i = 0; i < n->a.size(); i++) {
            bool rv = n->k == N_BIN || n->k == N_UN || n->k == N_F1 || (n->k == N_F2 && n->s[0] != '_') || ((n->k == N_SET || n->k == N_COP) && i == 1) ||
                      (n->k == N_IF && i == 0);
            if (n->k == N_MEM || n->k == N_GMEM || n->k == N_MSET || n->k == N_MCPY || n->k == N_LOOP || n->k == N_WHILE || n->k == N_RAND) rv = false;
            if (n->k == N_BIN && n->s == "%") rv = false;
            if (simplify(n->a[i], k, rv)) return true;
        }
        return false;
    }
    static bool pure(const NP& n) {
        if (n->k == N_SET || n->k == N_COP || n->k == N_LOOP || n->k == N_WHILE || n->k == N_MSET || n->k == N_MCPY || n->k == N_FREEM || n->k == N_RAND) return false;
        for (auto& c : n->a) if (!pure(c)) return false;
        return true;
    }
    void programs() {
        for (size_t i = 0; i < cur.plan.progs.size() && mono() < until; i++) {
            bool used = false;
            for (auto& o : cur.plan.ops) used |= o.prog == (int) i;
            if (!used || !cur.plan.progs[i].ast) continue;
            bool pinned = false; // the judgement of these operations knows what their program does
            for (auto& o : cur.plan.ops)
                if (o.kind == O_SHX || o.kind == O_STOP || o.kind == O_RND || o.kind == O_FUN)
                    for (auto& c : cur.plan.ops) pinned |= c.prog == (int) i && c.k == o.k;
            if (cur.plan.progs[i].style) {
                Repl t = cur;
                t.plan.progs[i].style = 0;
                if (test(t)) cur = t;
            }
            for (int k = 0; !pinned && mono() < until;) {
                Repl t = cur;
                t.plan.progs[i].ast = clone(t.plan.progs[i].ast);
                int kk = k;
                if (!simplify(t.plan.progs[i].ast, kk, false)) break;
                if (test(t)) cur = t;
                else k++;
            }
        }
    }
    void texts() {
        for (size_t i = 0; i < cur.plan.ops.size() && mono() < until; i++) {
            if (cur.plan.ops[i].kind != O_BAD) continue;
            // shorter texts could become valid programs, so only cut long runs from the deep ones is not attempted;
            // the repetition flag can go
            Repl t = cur;
            if (!t.plan.ops[i].flag) continue;
            t.plan.ops[i].flag = 0;
            if (test(t)) cur = t;
        }
    }
    void run() {
        for (int pass = 0; pass < 4 && mono() < until; pass++) {
            size_t before = cur.text().size();
            ddmin_get([](Repl& r) -> std::vector<Op>& { return r.plan.ops; });
            ddmin_get([](Repl& r) -> std::vector<Dec>& { return r.dec; });
            ddmin_get([](Repl& r) -> std::vector<Flt>& { return r.flt; });
            programs();
            texts();
            if (cur.text().size() == before) break;
        }
        // keep only fault specifications as facts: the listed failures decide
        Repl t = cur;
        for (auto& o : t.plan.ops) o.fs = FaultSpec();
        if (test(t)) cur = t;
        // trailing decisions about operations that are gone
        std::set<uint32_t> uids;
        for (auto& o : cur.plan.ops) uids.insert(o.uid);
        t = cur;
        t.dec.clear();
        for (auto& d : cur.dec) if (d.op >= 0xE0000000u || uids.count(d.op & 0x0FFFFFFFu)) t.dec.push_back(d);
        if (t.dec.size() != cur.dec.size() && test(t)) cur = t;
    }
};

int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num_ = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGALRM, on_alarm);
    init_parent();

    if (mode == "run") {
        std::string prof = a["-p"];
        uint64_t seed = strtoull(a["-s"].c_str(), nullptr, 10), start = (uint64_t) num_("-i", 0), stride = (uint64_t) num_("-k", 1), count = (uint64_t) num_("-n", 100);
        double secs = num_("-t", 60), t0 = mono();
        int limit = (int) num_("-l", 120);
        uint64_t selfcheck = (uint64_t) num_("-c", 50);
        uint64_t runs = 0, steps = 0, points = 0, switches = 0, allocs = 0, ops = 0, checked = 0, doubles = 0, truncated = 0, mt = 0;
        uint64_t probes[PR_N] = {}, faults[FK_N] = {};
        std::unordered_set<uint64_t> hashes, scheds;
        std::map<std::string, uint64_t> strat, fruns;
        std::string result = "ok", cls, msg, samples;
        uint64_t vi = 0, i = start;
        const char* sn[] = {"call_boundary", "random", "pct", "stall", "duel"};
        for (; i < count; i += stride) {
            if (mono() - t0 > secs) break;
            Plan p;
            generate(p, prof, run_seed(seed, prof, i), SHIM);
            Config cfg = config_for(p);
            int r = run_child(p, cfg, limit);
            runs++;
            if (p.nthr > 1) { strat[sn[p.sc.strat]]++; mt++; }
            else strat["single_thread"]++;
            steps += S->steps; points += S->points; switches += S->switches; allocs += S->allocs; ops += S->nops;
            for (int j = 0; j < PR_N; j++) probes[j] += S->probes[j];
            for (int j = 0; j < FK_N; j++) { faults[j] += S->faults[j]; if (S->faults[j]) fruns[fault_names[j]]++; }
            uint64_t h = S->hash, sh = S->schedhash;
            hashes.insert(h);
            if (p.nthr > 1) scheds.insert(mix(sh, h));
            if (S->ndec >= MAXDEC) truncated++;
            if (r) {
                result = r == 1 ? "violation" : "trouble";
                cls = S->cls; msg = S->msg; vi = i;
                Repl rp;
                rp.plan = p; rp.cls = cls; rp.msg = msg; rp.seed = cfg.seed; rp.junk = cfg.junk; rp.shift = cfg.shift; rp.reuse = cfg.reuse; rp.locale = cfg.locale;
                rp.dec.assign(S->dec, S->dec + S->ndec);
                rp.flt.assign(S->flt, S->flt + S->nflt);
                if (a.count("-o")) std::ofstream(a["-o"]) << rp.text();
                break;
            }
            if (runs <= 3) {
                std::string s = "run " + std::to_string(i) + ": seed " + std::to_string(p.seed) + ", " + std::to_string(p.nthr) + " threads, " + std::to_string(S->nops) + " calls, " +
                                std::to_string(S->switches) + " switches, strategy " + (p.nthr > 1 ? sn[p.sc.strat] : "none") + ", " + std::to_string(S->nflt) + " failed allocations, result hash " + std::to_string(h);
                for (auto& o : p.ops) if (o.prog >= 0) { std::string t = print_program(p.progs[(size_t) o.prog].ast, 0); s += ", e.g. program: " + t.substr(0, 160); break; }
                samples += (samples.empty() ? "" : ",") + jstr(s);
            }
            bool vary = p.check_output, self = !vary && selfcheck && i / stride % selfcheck == 0;
            if (vary || self) {
                std::vector<Dec> dec(S->dec, S->dec + S->ndec);
                std::vector<Flt> flt(S->flt, S->flt + S->nflt);
                std::string how;
                (vary ? doubles : checked)++;
                if (differs(p, cfg, h, sh, limit, vary, how)) {
                    vi = i;
                    msg = how;
                    if (!vary) { result = "trouble"; cls = "harness:not-deterministic"; }
                    else { result = "violation"; cls = DIVERGED; }
                    Repl rp;
                    rp.plan = p; rp.cls = cls; rp.msg = msg; rp.seed = cfg.seed; rp.junk = cfg.junk; rp.shift = cfg.shift; rp.reuse = cfg.reuse; rp.locale = cfg.locale;
                    rp.dec = dec; rp.flt = flt;
                    if (a.count("-o")) std::ofstream(a["-o"]) << rp.text();
                    break;
                }
            }
        }
        std::ostringstream o;
        o << "{\"variant\":" << jstr(SIM_VARIANT) << ",\"result\":" << jstr(result) << ",\"class\":" << jstr(cls) << ",\"msg\":" << jstr(msg) << ",\"index\":" << vi << ",\"complete\":" << (i >= count ? "true" : "false")
          << ",\"runs\":" << runs << ",\"mt\":" << mt << ",\"steps\":" << steps << ",\"points\":" << points << ",\"switches\":" << switches << ",\"allocs\":" << allocs << ",\"ops\":" << ops << ",\"selfchecks\":" << checked << ",\"doubles\":" << doubles << ",\"truncated\":" << truncated
          << ",\"secs\":" << mono() - t0 << ",\"probes\":{";
        for (int j = 0; j < PR_N; j++) o << (j ? "," : "") << jstr(probe_names[j]) << ":" << probes[j];
        o << "},\"faults\":{";
        for (int j = 0; j < FK_N; j++) o << (j ? "," : "") << jstr(fault_names[j]) << ":" << faults[j];
        o << "},\"fault_runs\":{";
        bool f = true;
        for (auto& x : fruns) { o << (f ? "" : ",") << jstr(x.first) << ":" << x.second; f = false; }
        o << "},\"strategies\":{";
        f = true;
        for (auto& x : strat) { o << (f ? "" : ",") << jstr(x.first) << ":" << x.second; f = false; }
        o << "},\"hashes\":[";
        f = true;
        for (auto x : hashes) { o << (f ? "" : ",") << x; f = false; }
        o << "],\"scheds\":[";
        f = true;
        for (auto x : scheds) { o << (f ? "" : ",") << x; f = false; }
        o << "],\"samples\":[" << samples << "]}\n";
        if (a.count("-j")) std::ofstream(a["-j"]) << o.str();
        else fputs(o.str().c_str(), stdout);
        return 0;
    }
    if (mode == "show") {
        Plan p;
        generate(p, a["-p"], run_seed(strtoull(a["-s"].c_str(), nullptr, 10), a["-p"], (uint64_t) num_("-i", 0)), SHIM);
        fputs(p.text().c_str(), stdout);
        printf("# strategy %d\n", p.sc.strat);
        return 0;
    }
    if (mode == "replay" || mode == "shrink") {
        Repl r;
        std::string err;
        if (!r.parse(slurp(a["-f"]), err)) { fprintf(stderr, "cannot read the replay file: %s\n", err.c_str()); return 2; }
        if (r.variant != SIM_VARIANT) { fprintf(stderr, "replay file is for variant %s, this is %s\n", r.variant.c_str(), SIM_VARIANT); return 2; }
        std::string c, m;
        int x = do_replay(r, c, m, 120);
        if (mode == "replay") {
            printf("%s class=%s %s\n", x == 0 ? "no violation" : x == 1 ? "violation" : "trouble", c.c_str(), m.c_str());
            if (x == 1 && !r.cls.empty() && c != r.cls) { printf("expected class %s\n", r.cls.c_str()); return 3; }
            return x;
        }
        if (x != 1 || c != r.cls) { fprintf(stderr, "does not reproduce: %d %s (expected %s)\n", x, c.c_str(), r.cls.c_str()); return 2; }
        Shrinker s;
        s.cur = r;
        s.until = mono() + num_("-t", 40);
        s.run();
        x = do_replay(s.cur, c, m, 120);
        if (x == 1) s.cur.msg = m;
        std::ofstream(a["-o"]) << s.cur.text();
        printf("minimised: %zu -> %zu operations, %zu -> %zu decisions, %zu -> %zu faults, %d candidates\n", r.plan.ops.size(), s.cur.plan.ops.size(), r.dec.size(), s.cur.dec.size(),
               r.flt.size(), s.cur.flt.size(), s.tries);
        return 0;
    }
    fprintf(stderr, "usage: sim run|show|replay|shrink ...\n");
    return 2;
}
