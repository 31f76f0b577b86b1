// Executable reference model: variables, registers, memories, programs. Written from the documentation.
#pragma once
#include "ast.h"
#include <cmath>
#include <random>
#include <unordered_map>

#if SIM_F == 4
typedef float F;
#else
typedef double F;
#endif

constexpr long long MEMN = 8388608;

inline bool same(F a, F b) { // bitwise, any NaN equals any NaN
#ifdef SIM_FASTMATH
    return true; // values are not judged
#endif
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return memcmp(&a, &b, sizeof a) == 0;
}

struct MBuf {
    int id = serial()++; // order of creation, so that nothing depends on host addresses
    static int& serial() { static int n = 0; return n; }
    std::unordered_map<int, std::vector<F>> blk;
    std::vector<long long> touched; // interesting locations
    F get(long long i) const {
        auto b = blk.find((int) (i >> 16));
        return b == blk.end() ? (F) 0 : b->second[i & 65535];
    }
    F& at(long long i) {
        auto& b = blk[(int) (i >> 16)];
        if (b.empty()) b.resize(65536, (F) 0);
        return b[i & 65535];
    }
    void touch(long long i) {
        if (i < 0 || i >= MEMN) return;
        for (auto t : touched) if (t == i) return;
        if (touched.size() < 160) touched.push_back(i);
        else touched[(size_t) i * 31 % 160] = i;
    }
    void clear() { blk.clear(); }
};

struct MRegs { F r[100]; };

struct MVar { F v = 0; F* real = nullptr; };

struct MCtx {
    std::map<std::string, MVar> vars; // lower-case names; std::map never moves its nodes
    MBuf local;
    MBuf* glob = nullptr;
    F* regs = nullptr; // model storage of the 100 registers
};

struct WriteLog { // memory writes of one top-level statement
    MBuf* b;
    long long i;
    F old, neu;
    int stmt;
};

struct Interp {
    MCtx& c;
    std::mt19937* mt = nullptr;
    std::vector<WriteLog>* wlog = nullptr;
    int stmt = 0;
    bool top = true;
    uint64_t iters = 0;
    bool capped = false;
    uint64_t rands = 0;
    std::function<void(MBuf*, long long)> access; // memory accesses, for statistics
    explicit Interp(MCtx& c) : c(c) {}

    struct R { // value or reference
        int kind = 0; // 0 value, 1 direct storage, 2 memory
        F v = 0;
        F* p = nullptr;
        MBuf* b = nullptr;
        long long i = 0;
    };
    static R val(double) = delete;
    static R V(F v) { R r; r.v = v; return r; }
    F get(const R& r) { return r.kind == 0 ? r.v : r.kind == 1 ? *r.p : r.b->get(r.i); }
    R put(const R& l, F v) {
        if (l.kind == 0) return V(v);
        if (l.kind == 1) *l.p = v;
        else store(l.b, l.i, v);
        return l;
    }
    void store(MBuf* b, long long i, F v) {
        F& x = b->at(i);
        if (wlog) wlog->push_back(WriteLog{b, i, x, v, stmt});
        x = v;
        b->touch(i);
    }
    static long long index(F v) { // location of an index value, -1 outside
        double d = floor(v + 0.0001);
        return d >= 0 && d < (double) MEMN ? (long long) d : -1;
    }
    static long long clampll(F v) {
        double d = floor(v + 0.0001);
        if (!(d > -4503599627370496.0)) return -4503599627370496ll;
        if (d > 4503599627370496.0) return 4503599627370496ll;
        return (long long) d;
    }
    static int toint(F v) { return v >= -2147483648.0 && v < 2147483648.0 ? (int) v : INT32_MIN; }
    R memref(MBuf* b, F ix) {
        long long i = index(ix);
        if (access) access(b, i);
        if (i < 0) return V(0);
        b->touch(i);
        R r;
        r.kind = 2; r.b = b; r.i = i;
        return r;
    }
    static constexpr F low() { return sizeof(F) == 4 ? (F) 1e-41 : (F) 1e-300; }
    static constexpr F close() { return (F) 0.00001; }
    F mod(F a, F b) {
        int d = toint(b);
        if (d == 0 || d == -1) return 0;
        return (F) (toint(a) % d);
    }

    R eval(const NP& n) {
        bool t = top;
        top = false;
        if (t && n->k == N_SEQ) {
            R r = V(0);
            for (auto& s : n->a) { stmt++; r = eval(s); }
            return r;
        }
        auto A = [&](size_t i) { return eval(n->a[i]); };
        auto G = [&](size_t i) { R r = eval(n->a[i]); return get(r); };
        switch (n->k) {
        case N_NUM: return V((F) atof(n->s.c_str()));
        case N_VAR: { R r; r.kind = 1; r.p = &c.vars[n->s].v; return r; }
        case N_REG: { R r; r.kind = 1; r.p = &c.regs[atoi(n->s.c_str())]; return r; }
        case N_MEM: return memref(&c.local, G(0));
        case N_GMEM: return memref(c.glob, G(0));
        case N_UN: {
            F x = G(0);
            if (n->s == "-") return V(-x);
            if (n->s == "!") return V(fabs(x) < low() ? 1 : 0);
            return V(x);
        }
        case N_BIN: {
            R ra = A(0), rb = A(1);
            F a = get(ra), b = get(rb);
            const std::string& o = n->s;
            if (o == "+") return V(a + b);
            if (o == "-") return V(a - b);
            if (o == "*") return V(a * b);
            if (o == "/") return V(fabs(b) < low() ? (F) 0 : a / b);
            if (o == "%") return V(mod(a, b));
            if (o == "==") return V(fabs(a - b) < low() ? 1 : 0);
            if (o == "!=") return V(fabs(a - b) > low() ? 1 : 0);
            if (o == "<") return V(a < b ? 1 : 0);
            if (o == ">") return V(a > b ? 1 : 0);
            if (o == "<=") return V(a <= b ? 1 : 0);
            if (o == ">=") return V(a >= b ? 1 : 0);
            if (o == "&&") return V(fabs(a) > close() && fabs(b) > close() ? 1 : 0);
            if (o == "||") return V(fabs(a) > close() || fabs(b) > close() ? 1 : 0);
            abort();
        }
        case N_F1: {
            F x = G(0);
            const std::string& o = n->s;
            if (o == "sin") return V((F) sin((double) x));
            if (o == "cos") return V((F) cos((double) x));
            if (o == "tan") return V((F) tan((double) x));
            if (o == "asin") return V((F) asin((double) x));
            if (o == "acos") return V((F) acos((double) x));
            if (o == "atan") return V((F) atan((double) x));
            if (o == "sqr") return V(x * x);
            if (o == "sqrt") return V((F) sqrt((double) x));
            if (o == "exp") return V((F) exp((double) x));
            if (o == "log") return V((F) log((double) x));
            if (o == "log10") return V((F) log10((double) x));
            if (o == "abs") return V((F) fabs((double) x));
            if (o == "sign") return V(x == 0 ? (F) 0 : x < 0 ? (F) -1 : (F) 1);
            if (o == "floor") return V((F) floor((double) x));
            if (o == "ceil") return V((F) ceil((double) x));
            if (o == "invsqrt") {
                F h = x * (F) .5, y;
                if (sizeof(F) == 4) { uint32_t i; memcpy(&i, &x, 4); i = 0x5f3759df - (i >> 1); memcpy(&y, &i, 4); }
                else { uint64_t i; memcpy(&i, &x, 8); i = 0x5fe6eb50c7b537a9 - (i >> 1); memcpy(&y, &i, 8); }
                return V(y * ((F) 1.5 - (h * y * y)));
            }
            abort();
        }
        case N_F2: {
            const std::string& o = n->s;
            if (o == "_and") { F a = G(0); if (!(fabs(a) > low())) return V(0); F b = G(1); return V(fabs(b) > low() ? 1 : 0); }
            if (o == "_or") { F a = G(0); if (!(fabs(a) < low())) return V(1); F b = G(1); return V(fabs(b) > low() ? 1 : 0); }
            R ra = A(0), rb = A(1);
            F a = get(ra), b = get(rb);
            if (o == "band") return V(fabs(a) > close() && fabs(b) > close() ? 1 : 0);
            if (o == "bor") return V(fabs(a) > close() || fabs(b) > close() ? 1 : 0);
            if (o == "atan2") return V((F) atan2((double) a, (double) b));
            if (o == "pow") return V((F) pow((double) a, (double) b));
            if (o == "min") return V(a < b ? a : b);
            if (o == "max") return V(a > b ? a : b);
            if (o == "sigmoid") {
                double t = 1 + exp((double) -a * b);
                return V((F) (fabs(t) > close() ? 1.0 / t : .0));
            }
            abort();
        }
        case N_SET: {
            R l = A(0), r = A(1);
            return put(l, get(r));
        }
        case N_COP: {
            R l = A(0), r = A(1);
            F a = get(l), b = get(r), v = 0;
            const std::string& o = n->s;
            if (o == "+=") v = a + b;
            else if (o == "-=") v = a - b;
            else if (o == "*=") v = a * b;
            else if (o == "/=") v = fabs(b) < low() ? (F) 0 : a / b;
            else if (o == "%=") v = mod(a, b);
            else if (o == "|=") v = (F) (toint(a) | toint(b));
            else if (o == "&=") v = (F) (toint(a) & toint(b));
            else if (o == "^=") v = (F) pow((double) a, (double) b);
            else abort();
            return put(l, v);
        }
        case N_IF: return G(0) != 0 ? A(1) : A(2);
        case N_LOOP: {
            F x = G(0);
            long long k = !(x >= 1) ? 0 : x > 1048576 ? 1048576 : (long long) x;
            if (x > 1048576) capped = true;
            R r = V(x);
            for (long long i = 0; i < k; i++) { iters++; r = A(1); }
            return r;
        }
        case N_WHILE: {
            R r;
            long long k = 1048576;
            do { iters++; r = A(0); } while (fabs(get(r)) > low() && --k);
            if (!k) capped = true;
            return r;
        }
        case N_EX2: A(0); return A(1);
        case N_EX3: A(0); A(1); return A(2);
        case N_SEQ: {
            R r = V(0);
            for (auto& s : n->a) r = eval(s);
            return r;
        }
        case N_MSET: {
            F fd = G(0), v = G(1), fn = G(2);
            long long d = clampll(fd), cnt = clampll(fn);
            long long a = d < 0 ? 0 : d, e = d + cnt;
            if (e > MEMN) e = MEMN;
            MBuf* b = &c.local;
            for (long long i = a; i < e; i++) {
                F& x = b->at(i);
                if (wlog) wlog->push_back(WriteLog{b, i, x, v, stmt});
                x = v;
            }
            if (e > a) mark(b, a, e);
            return V(0);
        }
        case N_MCPY: {
            long long d = clampll(G(0)), s = clampll(G(1)), cnt = clampll(G(2));
            if (s < 0) { cnt += s; d -= s; s = 0; }
            if (d < 0) { cnt += d; s -= d; d = 0; }
            if (d + cnt > MEMN) cnt = MEMN - d;
            if (s + cnt > MEMN) cnt = MEMN - s;
            MBuf* b = &c.local;
            if (cnt > 0) {
                std::vector<F> tmp((size_t) cnt);
                for (long long i = 0; i < cnt; i++) tmp[(size_t) i] = b->get(s + i);
                for (long long i = 0; i < cnt; i++) {
                    F& x = b->at(d + i);
                    if (wlog) wlog->push_back(WriteLog{b, d + i, x, tmp[(size_t) i], stmt});
                    x = tmp[(size_t) i];
                }
                mark(b, d, d + cnt);
                mark(b, s, s + cnt);
            }
            return V(0);
        }
        case N_FREEM: G(0); return V(0);
        case N_RAND: {
            F x = G(0);
            double mx = floor((double) x);
            if (!(mx >= 1)) mx = 1;
            rands++;
            if (!mt) abort();
            F m = (F) mx;
            return V((F) ((*mt)() * (1.0 / (double) 0xFFFFFFFF) * m));
        }
        default: abort();
        }
    }
    static void mark(MBuf* b, long long a, long long e) {
        for (long long x : {a - 1, a, a + 1, (a + e) / 2, e - 2, e - 1, e, (a | 65535) - 1, a | 65535, (a | 65535) + 1, ((e - 1) & ~65535ll) - 1, (e - 1) & ~65535ll})
            b->touch(x);
    }
};
