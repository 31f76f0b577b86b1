// Generates plans: histories of API calls on several threads, the programs they compile, the faults to inject and the
// scheduling strategy, all from one seed. One generator with knobs per property, plus special ones.
#include "plan.h"
#include <algorithm>

using namespace rt;

namespace {

const long long BASES[] = {0, 65536, 131072, 65536ll * 77, MEMN - 65536};
const char* NAMES[] = {"a", "b", "c", "x", "y", "foo", "bar1", "_q", "reg3", "reg123", "regx1", "t_2", "wave_mystery", "sinx", "iff", "memory", "r00", "reg1x", "q32", "zoom", "e", "pi", "mem", "loops", "ab", "ba", "bar", "bra", "abc", "acb"};
const int NNAMES = sizeof NAMES / sizeof *NAMES;

NP neg(NP a) { return mk(N_UN, "-", {a}); }
NP bin(const std::string& o, NP a, NP b) { return mk(N_BIN, o, {a, b}); }
NP set(NP a, NP b) { return mk(N_SET, "", {a, b}); }
NP reg(int n) { char b[4]; snprintf(b, sizeof b, "%02d", n); return mk(N_REG, b); }
NP memat(long long i) { return mk(N_MEM, "", {num(i)}); }
NP gmemat(long long i) { return mk(N_GMEM, "", {num(i)}); }
NP seq(std::vector<NP> a) { return a.size() == 1 ? a[0] : mk(N_SEQ, "", std::move(a)); }

struct Env {
    int t = 0;          // owning thread
    int nthr = 1;
    std::vector<std::string> vars;
    bool lm = true, gm = true, rg = true, rnd = false;
    int ctl = 3;        // weight of control flow
    int memw = 2;       // weight of memory
    int regw = 1;
    bool bulk = true;
    bool big = false;   // large ranges
    bool oob = true;
    bool frac = false;  // indices and counts that are no integers
    bool huge = false;  // counts and indices beyond the range of int
    bool freem = true;
    bool fns = true;
    std::set<long long>* wrote = nullptr; // blocks earlier programs of the context write
};

struct PG { // program generator
    Rng& g;
    Env e;
    int nest = 0, nthru = 0;
    PG(Rng& g, const Env& e) : g(g), e(e) {}
    bool ch(int a, int b) { return g.chance(a, b); }

    NP numv() {
        switch (g.below(12)) {
        case 0: return num(0ll);
        case 1: return num(1ll);
        case 2: return num("0.5");
        case 3: return num(std::to_string(g.range(0, 9)) + "." + std::to_string(g.range(0, 99)));
        case 4: return num("1e3");
        case 5: return num(".25");
        case 6: return num("7.");
        case 7: return num(-(long long) g.range(1, 50));
        case 8: return num((long long) g.range(1000, 60000));
        default: return num((long long) g.range(2, 100));
        }
    }
    NP anyvar() { return var(g.pick(e.vars)); }
    int ownreg() {
        for (;;) { int n = ch(1, 3) ? (ch(1, 2) ? 0 : 99) : g.range(0, 99); if (n % e.nthr == e.t) return n; if (ch(1, 2)) { n = g.range(0, 99 / e.nthr) * e.nthr + e.t; if (n < 100) return n; } }
    }
    long long ownglob() {
        for (;;) {
            long long i = BASES[g.below(5)] + (ch(1, 6) ? 65535 - (long long) g.below(6) : (long long) g.below(32));
            if (i % e.nthr == e.t) return i;
        }
    }
    long long loc() {
        long long b = BASES[g.below(5)];
        return b + (ch(1, 4) ? 65535 - (long long) g.below(6) : (long long) g.below(24));
    }
    NP clampe(NP x) { return mk(N_F2, "min", {mk(N_F2, "max", {x, num(-1000ll)}), num(1000ll)}); }
    NP oobix() {
        if (e.huge && ch(1, 2)) {
            static const char* v[] = {"1e10", "3e9", "4294967296", "4294967297", "1e300", "2147483648", "1e30"};
            NP x = num(v[g.below(7)]);
            return ch(1, 3) ? neg(x) : x;
        }
        switch (g.below(5)) {
        case 0: return num(-1ll);
        case 1: return num(-2ll - g.below(70000));
        case 2: return num(MEMN);
        case 3: return num(MEMN + g.below(100000));
        default: return num(20000000ll);
        }
    }
    // indices are rounded down, after adding 0.0001
    NP frac(long long i, bool any) {
        if (!e.frac || !ch(1, 6) || (!any && i > 1000)) return num(i);
        static const char* up[] = {".5", ".25", ".00005", ".9998", ".99", ".0001", ".75", ".99989"};
        static const char* down[] = {".99995", ".9999", ".99991", ".999999", ".99999"};
        if (i > 0 && ch(1, 3)) return num(std::to_string(i - 1) + down[g.below(5)]);
        if (i == 0 && ch(1, 3)) { static const char* z[] = {"0.00005", "0.0001", "0.0002", "0.5", "0.00009", "1e-9"}; return neg(num(z[g.below(any ? 6 : 1)])); }
        return num(std::to_string(i) + up[g.below(8)]);
    }
    NP thru(NP i) { return ch(1, 8) ? set(var("ix" + std::to_string(nthru++ % 60)), i) : i; } // the index is a variable's value, the variable stays as it is
    NP locix(int d) { return thru(locix0(d)); }
    NP globix(int d) { return thru(globix0(d)); }
    NP locix0(int d) {
        if (e.oob && ch(1, 24)) return oobix();
        NP b = frac(loc(), true);
        if (d > 0 && ch(1, 4)) return bin("+", b, bin("%", mk(N_F1, "floor", {clampe(pe(d - 1))}), num((long long) g.range(2, 9))));
        return b;
    }
    NP globix0(int d) {
        if (e.oob && ch(1, 30)) return oobix();
        NP b = frac(ownglob(), e.nthr == 1);
        if (e.nthr == 1 && d > 0 && ch(1, 5)) return bin("+", b, bin("%", mk(N_F1, "floor", {clampe(pe(d - 1))}), num((long long) g.range(2, 9))));
        return b;
    }
    NP memread(int d) {
        if (e.gm && (!e.lm || ch(1, 2))) return mk(N_GMEM, "", {globix(d)});
        return mk(N_MEM, "", {locix(d)});
    }
    // pure expression
    NP pe(int d) {
        int w = (int) g.below(d <= 0 ? 10 : 30);
        if (w < 3) return numv();
        if (w < 7) return anyvar();
        if (w < 8) return e.rg ? reg(ownreg()) : anyvar();
        if (w < 10) return e.memw && (e.lm || e.gm) && d > -1 ? memread(d) : anyvar();
        if (w < 19) {
            static const char* o[] = {"+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "+", "-", "*", "+"};
            return bin(o[g.below(16)], pe(d - 1), pe(d - 1));
        }
        if (w < 20) return mk(N_BIN, "%", {clampe(pe(d - 1)), ch(1, 2) ? num((long long) g.range(1, 12)) : ch(1, 3) ? num(-1ll) : clampe(pe(d - 1))});
        if (w < 22) { static const char* o[] = {"-", "!", "+"}; return mk(N_UN, o[g.below(3)], {pe(d - 1)}); }
        if (w < 25) {
            static const char* o[] = {"abs", "floor", "ceil", "sign", "sqr", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "log10", "invsqrt"};
            return mk(N_F1, o[g.below(e.fns ? 16 : 5)], {pe(d - 1)});
        }
        if (w < 27) {
            static const char* o[] = {"min", "max", "band", "bor", "_and", "_or", "atan2", "pow", "sigmoid"};
            return mk(N_F2, o[g.below(e.fns ? 9 : 6)], {pe(d - 1), pe(d - 1)});
        }
        if (w < 28) return mk(N_IF, "", {pe(d - 1), pe(d - 1), pe(d - 1)});
        if (w < 29) return ch(1, 2) ? mk(N_EX2, "", {pe(d - 1), pe(d - 1)}) : mk(N_EX3, "", {pe(d - 1), pe(d - 1), pe(d - 1)});
        return mk(N_SEQ, "", {pe(d - 1), pe(d - 1)});
    }
    NP target(int d) { // assignable
        int w = (int) g.below((uint32_t) (4 + e.memw + e.regw));
        if (w < 4) return anyvar();
        if (w < 4 + e.memw && (e.lm || e.gm)) return e.gm && (!e.lm || ch(1, 2)) ? mk(N_GMEM, "", {globix(d)}) : mk(N_MEM, "", {locix(d)});
        return e.rg ? reg(ownreg()) : anyvar();
    }
    NP simpletarget() { // variable, register or memory at a constant place inside the array
        int w = (int) g.below((uint32_t) (4 + e.memw + e.regw));
        if (w < 4) return anyvar();
        if (w < 4 + e.memw && (e.lm || e.gm)) return e.gm && (!e.lm || ch(1, 2)) ? gmemat(ownglob()) : memat(loc());
        return e.rg ? reg(ownreg()) : anyvar();
    }
    NP cop(int d) {
        static const char* o[] = {"+=", "-=", "*=", "/=", "^="};
        return mk(N_COP, o[g.below(5)], {target(d), pe(d)});
    }
    NP intcop(int d) { // on a bounded value
        static const char* o[] = {"%=", "|=", "&="};
        NP v = simpletarget();
        NP r = clampe(pe(d));
        if (ch(1, 6)) r = num(-1ll);
        return mk(N_SEQ, "", {set(v, clampe(pe(d))), mk(N_COP, o[g.below(3)], {v, r})});
    }
    NP range() { // a position for memset and memcpy
        switch (g.below(8)) {
        case 0: return num(-(long long) g.range(1, 20));
        case 1: return num(MEMN - g.range(0, 40));
        case 2: return bin("+", num(loc()), mk(N_F1, "floor", {bin("/", clampe(pe(1)), num(100ll))}));
        case 3: if (e.huge) return oobix(); return num(loc());
        default: return frac(loc(), true);
        }
    }
    NP count() {
        if (e.big && ch(1, 6)) return num((long long) g.range(60000, 140000));
        switch (g.below(8)) {
        case 0: return num(0ll);
        case 1: return num(-(long long) g.range(1, 10));
        case 2: return num((long long) g.range(100, 700));
        default: return frac((long long) g.range(1, 24), true);
        }
    }
    NP bulk() {
        if (e.huge && ch(1, 8)) {
            NP at = ch(7, 8) ? num(MEMN - g.range(1, 66000)) : num(loc());
            if (ch(1, 2)) return mk(N_MSET, "", {at, pe(1), hugecount()});
            return ch(1, 2) ? mk(N_MCPY, "", {at, num(MEMN - g.range(1, 3000)), hugecount()}) : mk(N_MCPY, "", {num(MEMN - g.range(1, 3000)), at, hugecount()});
        }
        if (ch(1, 2)) { NP a = thru(range()), v = pe(1); return mk(N_MSET, "", {a, v, thru(count())}); }
        if (ch(1, 2)) { // overlapping ranges, often across a block border
            long long b = BASES[g.below(4)] + 65536;
            int n = e.big && ch(1, 4) ? g.range(2000, ch(1, 3) ? 200000 : 90000) : g.range(2, 60), sh = n > 65536 && ch(1, 2) ? ch(1, 2) ? 65536 : g.range(65536, n) : g.range(1, n);
            long long s = b - (long long) g.below((uint32_t) (n + sh + 4)), d = s + (ch(1, 2) ? sh : -sh);
            if (n > 65536 && ch(1, 2)) return seq({set(memat(std::max(0ll, std::min(s + g.range(0, n), MEMN - 1))), pe(1)), set(memat(std::max(0ll, std::min(s + (ch(1, 2) ? 65536 : 65535 - (s & 65535)), MEMN - 1))), pe(1)), mk(N_MCPY, "", {num(d), num(s), num((long long) n)})});
            return mk(N_MCPY, "", {num(d), num(s), num((long long) n)});
        }
        NP a = thru(range()), b = thru(range());
        return mk(N_MCPY, "", {a, b, thru(count())});
    }
    NP hugecount() {
        static const char* v[] = {"1e10", "3e9", "2147483647", "4294967301", "1e300"};
        NP x = num(v[g.below(5)]);
        return ch(1, 3) ? neg(x) : x;
    }
    std::string counter() { return "lc" + std::to_string(nest); }
    NP stmt(int d) {
        if (e.huge && ch(1, 30)) { // the most negative integer divided by -1
            NP lo = bin("-", num(-2147483647ll), num(1ll)), v = simpletarget();
            if (ch(1, 2)) return set(v, bin("%", lo, num(-1ll)));
            return mk(N_SEQ, "", {set(v, lo), mk(N_COP, "%=", {v, num(-1ll)})});
        }
        int w = (int) g.below((uint32_t) (10 + e.ctl + (e.bulk && e.lm && e.memw ? e.memw : 0)));
        if (w < 5) return set(target(2), pe(3));
        if (w < 7) return cop(2);
        if (w < 8) return intcop(2);
        if (w < 9) {
            if (ch(1, 3)) return set(simpletarget(), ch(1, 2) ? set(simpletarget(), pe(2)) : mk(N_COP, "+=", {simpletarget(), pe(2)}));
            if (ch(1, 2)) return set(mk(N_IF, "", {pe(2), simpletarget(), simpletarget()}), pe(2));
            if (e.rnd) return set(anyvar(), mk(N_F1, "floor", {bin("+", mk(N_RAND, "", {num((long long) (ch(1, 4) ? g.range(0, 2) : g.range(1, 1000)))}), num("0.5"))}));
            return set(mk(N_EX2, "", {pe(1), simpletarget()}), pe(2));
        }
        if (w < 10) return e.freem && ch(1, 4) && e.lm ? mk(N_FREEM, "", {ch(1, 2) ? anyvar() : pe(1)}) : pe(2);
        w -= 10;
        if (w >= e.ctl) return bulk();
        if (d <= 0) return set(anyvar(), pe(2));
        switch (g.below(7)) {
        case 0:
        case 1: return mk(N_IF, "", {pe(2), block(d - 1), ch(1, 3) ? pe(1) : block(d - 1)});
        case 2: {
            nest++;
            NP c = ch(1, 3) ? mk(N_F1, "floor", {bin("%", clampe(pe(1)), num(5ll))}) : num((long long) g.range(0, 5));
            NP r = mk(N_LOOP, "", {c, block(d - 1)});
            nest--;
            return r;
        }
        case 3: {
            nest++;
            std::string c = counter();
            NP b = block(d - 1);
            std::vector<NP> s;
            if (b->k == N_SEQ) s = b->a; else s.push_back(b);
            s.push_back(set(var(c), bin("-", var(c), num(1ll))));
            s.push_back(ch(1, 2) ? bin(">", var(c), num(0ll)) : var(c));
            NP r = mk(N_SEQ, "", {set(var(c), num((long long) g.range(1, 5))), mk(N_WHILE, "", {mk(N_SEQ, "", s)})});
            nest--;
            return r;
        }
        case 4: return mk(N_EX2, "", {stmt(d - 1), stmt(d - 1)});
        case 5: return mk(N_EX3, "", {stmt(d - 1), stmt(d - 1), stmt(d - 1)});
        default: return mk(N_F2, ch(1, 2) ? "_and" : "_or", {pe(2), set(simpletarget(), pe(2))});
        }
    }
    NP block(int d) {
        int n = g.range(1, 3);
        std::vector<NP> s;
        for (int i = 0; i < n; i++) s.push_back(stmt(d));
        return seq(s);
    }
    NP fin() {
        if (ch(1, 4)) return set(anyvar(), pe(2));
        return pe(2);
    }
    // condition values and selections whose evaluation must not modify anything
    NP pattern() {
        NP v = anyvar(), u = anyvar();
        if (ch(1, 3)) return wild(v, u);
        switch (g.below(10)) {
        case 9: { // while with a very small condition
            NP n = var("lc1");
            long long k = g.range(1, 3);
            NP c = mk(N_IF, "", {bin("<", n, num(k)), num(1ll), mk(N_IF, "", {bin("<", n, num(k + g.range(1, 3))), ch(1, 3) ? neg(tiny()) : tiny(), num(0ll)})});
            return mk(N_SEQ, "", {set(n, num(0ll)), mk(N_WHILE, "", {mk(N_SEQ, "", {set(n, bin("+", n, num(1ll))), c})}), set(v, n)});
        }
        case 0: { // while over a bare variable reference, then arithmetic
            std::string c = "lc1";
            return mk(N_SEQ, "", {set(var(c), num((long long) g.range(1, 4))), mk(N_WHILE, "", {mk(N_SEQ, "", {mk(N_COP, "-=", {var(c), num(1ll)}), var(c)})})});
        }
        case 1: // while whose value is a computed expression after a reference
            return mk(N_SEQ, "", {set(var("lc1"), num((long long) g.range(1, 4))), mk(N_WHILE, "", {mk(N_COP, "-=", {var("lc1"), num(1ll)})})});
        case 2: return mk(N_WHILE, "", {mk(N_IF, "", {bin(">", mk(N_COP, "-=", {var("lc2"), num(1ll)}), num(0ll)), mk(N_MEM, "", {num(loc())}), num(0ll)})});
        case 3: return mk(N_EX3, "", {v, bin("*", u, num(2ll)), v});
        case 4: return mk(N_EX3, "", {mk(N_MEM, "", {num(loc())}), bin("+", u, num(1ll)), set(v, u)});
        case 5: return mk(N_EX3, "", {set(u, pe(1)), bin("-", v, num(3ll)), mk(N_COP, "+=", {v, num(1ll)})});
        case 6: return set(u, mk(N_EX3, "", {v, mk(N_F1, "sin", {v}), u}));
        case 7: return set(u, mk(N_IF, "", {v, mk(N_EX2, "", {v, bin("+", v, num(1ll))}), mk(N_EX3, "", {v, v, num(2ll)})}));
        default: return mk(N_LOOP, "", {num((long long) g.range(1, 4)), mk(N_EX2, "", {v, bin("*", v, num(3ll))})});
        }
    }
    NP tiny() { // about where numbers begin to count as 0
        static const char* x[] = {"1e-300", "9.9999e-301", "1.00001e-300", "2e-300", "1e-41", "2e-41", "9e-42", "1e-308", "4e-320", "1e-45", "0.00001", "0.0000099999", "0.0000100001"};
        return num(x[g.below(sizeof x / sizeof *x)]);
    }
    NP extreme() {
        static const char* x[] = {"5e9", "50000", "0.5", "0.00001", "1e-20", "1e300", "2147483647", "2147483648", "3", "1e10", "7.5", "0", "1", "0.99999", "65536", "4294967296", "2.9999"};
        if (ch(1, 6)) return ch(1, 3) ? neg(tiny()) : tiny();
        if (ch(1, 8)) return mk(N_F1, "log", {num(-1ll)});
        if (ch(1, 10)) return mk(N_F1, "exp", {num(10000ll)});
        NP n = num(x[g.below(sizeof x / sizeof *x)]);
        return ch(1, 3) ? neg(n) : n;
    }
    // an operation on bare variables of unusual value; its result is not looked at where it is not specified
    NP wild(NP v, NP u) {
        static const char* b[] = {"+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "&&", "||"};
        static const char* f1[] = {"abs", "floor", "ceil", "sign", "sqr", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "log10", "invsqrt"};
        static const char* f2[] = {"min", "max", "band", "bor", "_and", "_or", "atan2", "pow", "sigmoid"};
        static const char* co[] = {"+=", "-=", "*=", "/=", "^="};
        static const char* ci[] = {"%=", "|=", "&="};
        std::vector<NP> s;
        if (ch(3, 4)) s.push_back(set(v, extreme()));
        if (ch(3, 4)) s.push_back(set(u, extreme()));
        NP o = var("lc3");
        NP wipe = set(o, num((long long) g.range(0, 9)));
        switch (g.below(e.rnd ? 14 : 12)) {
        case 0: case 1: s.push_back(set(o, bin(b[g.below(12)], v, u))); break;
        case 2: case 3: s.push_back(set(o, mk(N_F1, f1[g.below(e.fns ? 16 : 5)], {v}))); break;
        case 4: case 5: s.push_back(set(o, mk(N_F2, f2[g.below(e.fns ? 9 : 6)], {v, u}))); break;
        case 6: s.push_back(set(o, bin("%", v, u))); s.push_back(wipe); break;
        case 7: s.push_back(wipe); s.push_back(mk(N_COP, ci[g.below(3)], {o, v})); s.push_back(set(o, num(1ll))); break;
        case 8: s.push_back(wipe); s.push_back(mk(N_COP, co[g.below(5)], {o, v})); break;
        case 9: s.push_back(set(o, mk(N_IF, "", {v, u, v}))); break;
        case 10: s.push_back(set(o, mk(N_UN, ch(1, 2) ? "-" : "!", {v}))); break;
        case 11: if (e.lm) s.push_back(set(o, mk(N_MEM, "", {v}))); else s.push_back(set(o, mk(N_F1, "floor", {v}))); break;
        default: s.push_back(set(o, mk(N_RAND, "", {ch(1, 2) ? v : ch(1, 2) ? bin("*", v, u) : mk(N_IF, "", {u, v, v})}))); s.push_back(wipe); break;
        }
        return mk(N_SEQ, "", s);
    }
    NP program(int n) {
        std::vector<NP> s;
        for (int i = 0; i < n; i++) s.push_back(e.ctl > 3 && ch(1, 5) ? pattern() : stmt(2));
        s.push_back(fin());
        return seq(s);
    }
    // Nested deeper than any initial stack of the parser, or just long.
    NP deep(int n, bool longer) {
        static const char* F[] = {"abs", "floor", "ceil", "sign", "sqr"};
        static const char* F2[] = {"min", "max", "band", "bor", "_and", "_or"};
        static const char* O[] = {"+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">="};
        auto leaf = [&]() -> NP { return ch(1, 2) ? anyvar() : numv(); };
        NP x = leaf();
        int kind = (int) g.below(e.lm && e.memw ? 10 : 9);
        if (longer) { kind = 8; n *= 4; } // up to 1680 instructions
        else if (kind == 8) n /= 2;
        std::vector<NP> s;
        for (int i = 0; i < n; i++) {
            switch (kind) {
            case 0: x = mk(N_F1, F[g.below(5)], {x}); break;
            case 1: x = bin(O[g.below(10)], leaf(), x); break;
            case 2: x = bin(O[g.below(10)], x, leaf()); break;
            case 3: x = mk(N_F2, F2[g.below(6)], {leaf(), x}); break;
            case 4: x = mk(N_IF, "", {leaf(), ch(1, 2) ? x : leaf(), x}); if (x->a[1] == x->a[2]) x->a[1] = leaf(); break;
            case 5: x = mk(N_SEQ, "", {set(anyvar(), leaf()), x}); break;
            case 6: x = set(anyvar(), x); break;
            case 7: x = mk(N_UN, ch(1, 2) ? "-" : "!", {x}); break;
            case 8: s.push_back(set(anyvar(), ch(1, 2) ? bin("+", anyvar(), numv()) : leaf())); break;
            default: x = mk(N_MEM, "", {x}); break;
            }
        }
        s.push_back(ch(1, 2) ? x : set(anyvar(), x));
        return seq(s);
    }
    // Every statement writes locations of its own, nothing reads a block the program writes.
    NP faultsafe(int n) {
        std::vector<long long> W, R;
        if (!e.wrote || ch(1, 3)) {
            for (long long b : BASES) (ch(2, 3) ? W : R).push_back(b);
        } else { // read where earlier programs wrote, write where none did
            static const int X[] = {0, 1, 2, 3, 4, 17, 40, 41, 76, 77, 78, 100, 126, 127};
            for (int x : X) {
                long long b = 65536ll * x;
                if (e.wrote->count(b)) { if (ch(2, 3)) R.push_back(b); else if (ch(1, 3)) W.push_back(b); }
                else if (ch(1, 3)) W.push_back(b);
                else if (ch(1, 8)) R.push_back(b);
            }
        }
        if (W.empty() && R.empty()) W.push_back(0);
        if (W.empty()) { W.push_back(R.back()); R.pop_back(); }
        if (e.wrote) e.wrote->insert(W.begin(), W.end());
        std::set<long long> border;
        std::vector<NP> s;
        int slot = 0;
        Env keep = e;
        e.memw = 0; // no memory inside expressions
        auto rdix = [&](long long i) -> NP { return ch(1, 6) ? set(var("ixr" + std::to_string(g.below(3))), num(i)) : num(i); };
        auto rd = [&]() -> NP {
            if (R.empty()) return numv();
            long long b = g.pick(R) + (ch(2, 3) ? 200 + 400 * (long long) g.range(1, 6) : (long long) g.below(24)); // where other programs write
            if (e.gm && ch(1, 2)) { while (b % e.nthr != e.t) b++; return mk(N_GMEM, "", {rdix(b)}); }
            return mk(N_MEM, "", {rdix(b)});
        };
        auto val = [&]() -> NP { NP x = pe(2); if (ch(1, 6)) return mk(N_IF, "", {mk(N_IF, "", {anyvar(), numv(), rd()}), pe(1), pe(1)}); return ch(1, 3) ? bin("+", rd(), x) : x; };
        int nix = 0;
        auto at = [&](long long i) -> NP { // the place, perhaps through a variable
            if (!ch(1, 4)) return num(i);
            std::string v = "ix" + std::to_string(nix++);
            if (ch(1, 2)) return set(var(v), num(i));
            s.push_back(set(var(v), num(i)));
            return var(v);
        };
        for (int i = 0; i < n; i++) {
            long long b = g.pick(W);
            slot++;
            long long off = 200 + slot * 400;
            switch (g.below(9)) {
            case 0:
            case 1: { NP ix = at(b + off); s.push_back(set(mk(N_MEM, "", {ix}), val())); break; }
            case 2:
            case 3: {
                long long o = b + off;
                while (o % e.nthr != e.t) o++;
                if (!e.gm) o = b + off;
                NP ix = at(o);
                s.push_back(set(mk(e.gm ? N_GMEM : N_MEM, "", {ix}), val()));
                break;
            }
            case 4: s.push_back(mk(N_COP, ch(1, 2) ? "+=" : "*=", {memat(b + off), pe(1)})); break;
            case 5: {
                NP m = mk(N_MSET, "", {at(b + off), pe(1), num((long long) g.range(1, 300))});
                if (ch(1, 3)) { NP x = numv(); s.push_back(set(anyvar(), mk(N_IF, "", {m, x, x}))); } // it yields something, nobody says what
                else s.push_back(m);
                break;
            }
            case 6: // across a border into the next block
                if (b + 65536 < MEMN && !R.empty() && ch(1, 2)) { // copies across a border, values from where other programs write
                    bool ok = true;
                    for (long long r : R) if (r == b + 65536) ok = false;
                    for (long long w2 : W) if (w2 == b + 65536 && border.count(w2)) ok = false;
                    if (ok && border.insert(b).second) {
                        s.push_back(mk(N_MCPY, "", {num(b + 65536 - g.range(1, 150)), num(g.pick(R) + 200 + 400 * (long long) g.range(1, 6) - (long long) g.range(0, 200)), num((long long) g.range(160, 300))}));
                        break;
                    }
                }
                if (b + 65536 < MEMN && border.insert(b).second) {
                    // the next block must not be read
                    bool ok = true;
                    for (long long r : R) if (r == b + 65536 || r == b) ok = false;
                    if (ok) { s.push_back(mk(N_MSET, "", {num(b + 65536 - g.range(1, 150)), pe(1), num((long long) g.range(160, 300))})); break; }
                }
                s.push_back(set(anyvar(), val()));
                break;
            case 7:
                if (!R.empty()) {
                NP d = at(b + off), f = at(g.pick(R) + (ch(2, 3) ? 200 + 400 * (long long) g.range(1, 6) - (long long) g.below(20) : (long long) g.below(24)));
                NP m = mk(N_MCPY, "", {d, f, num((long long) g.range(1, 300))});
                if (ch(1, 4)) { NP x = numv(); s.push_back(set(anyvar(), mk(N_IF, "", {m, x, x}))); }
                else s.push_back(m);
                break;
            }
                // fall through
            default:
                if (e.rnd && ch(1, 3)) s.push_back(set(anyvar(), mk(N_F1, "floor", {bin("+", mk(N_RAND, "", {num((long long) (ch(1, 4) ? 1 : g.range(0, 1000)))}), num("0.5"))})));
                else s.push_back(set(anyvar(), val()));
                break;
            }
        }
        s.push_back(pe(2));
        e = keep;
        return seq(s);
    }
};

struct Knobs {
    int tlo = 1, thi = 1;         // threads
    int rounds = 1;
    int nlo = 6, nhi = 18;        // operations per thread and round
    int w[O_KINDS] = {};
    int gd = 0;                   // chance (of 100) of destroying the global memory between rounds
    int pbuf = 30, preg = 25;     // percent of contexts with a buffer / register array of their own
    bool safe = false;            // fault-safe programs only
    int fexec = 0;                // percent of executions with failing block allocations
    int fsmall = 0;               // percent of creates, compiles, registrations with failing allocations
    int flocal = 0;               // percent of free/destroy... unused
    int stmts = 5;
    int bad3 = 40;                // percent of rejected texts tried three times
    int deepbad = 10;
    int setupc = 70;              // percent of threads whose contexts exist before the parallel phase
    int names = 6;
    int longn = 3;                // percent of names that are very long
    int nearreg = 5;              // percent of names that look nearly like registers
    Env env;
};

#ifndef CROWD
#define CROWD 40 // one in so many runs has more threads than usual
#endif
struct Gen {
    Plan& p;
    Rng g;
    bool shim;
    uint32_t uid = 1;
    Knobs k;
    struct CS { bool alive = false; int b = -1, r = -1; bool compiled = false; std::vector<std::string> names; } cs[NCTX];
    struct KS { bool alive = false; int ctx = 0; int prog = -1; } ks[NCODE];
    bool bufs[NBUF] = {};
    std::set<long long> wrote[NCTX];
    std::vector<std::vector<int>> tprogs; // programs by owning thread

    Gen(Plan& p, uint64_t seed, bool shim) : p(p), g(seed * 0x2545F4914F6CDD1Dull + 77), shim(shim) {}
    bool pc(int x) { return (int) g.below(100) < x; }
    bool ch(int a, int b) { return g.chance(a, b); }
    int owner(int c) { return (c / 3) % p.nthr; }

    Op& op(int ph, int thr, OpK kind) {
        Op o;
        o.uid = uid++;
        o.ph = ph;
        o.thr = thr;
        o.kind = kind;
        o.shim = shim && ch(1, 2);
        p.ops.push_back(o);
        return p.ops.back();
    }
    FaultSpec fault(int cat, int scale) {
        FaultSpec f;
        f.cat = cat;
        f.mode = (int) g.below(4);
        uint32_t a = ch(1, 3) ? g.below(4) : g.below((uint32_t) scale + 1);
        f.a = a;
        f.b = a + 1 + g.below(5);
        if (f.mode == 3) { static const uint32_t pr[] = {200, 2000, 16000, 45000}; f.a = pr[g.below(4)]; }
        return f;
    }
    std::string cased(std::string s) {
        int m = (int) g.below(3);
        for (auto& c : s) if (m == 1 || (m == 2 && ch(1, 2))) c = (char) toupper(c);
        return s;
    }
    std::string aname() {
        if (pc(k.longn)) { // names that differ only at the end or only in length
            static const int L[] = {7, 8, 15, 16, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 1023};
            int n = L[g.below(17)];
            std::string x;
            for (int i = 0; i < n; i++) x += (char) ('a' + (i * 7 + 3) % 23);
            if (ch(3, 4)) x += ch(1, 2) ? "_1" : "_2";
            return x;
        }
        if (pc(k.nearreg)) {
            static const char* R[] = {"reg_1", "reg1_", "regs12", "reg012", "_reg12", "rreg12", "reg0", "reg", "re12", "reg9a", "rega9", "reg00_", "reg000", "regg1", "r99", "eg12", "reg12x", "rag12", "rex12"};
            return R[g.below(sizeof R / sizeof *R)];
        }
        return NAMES[g.below((uint32_t) NNAMES)];
    }
    Env envfor(int c) {
        Env e = k.env;
        e.t = owner(c);
        e.nthr = p.nthr;
        if (p.nthr > 1) e.rnd = false;
        if (cs[c].names.empty())
        {
            for (int i = 0; i < k.names; i++) cs[c].names.push_back(aname());
            if (k.names > 4 && ch(1, 5)) { // equal length and ends, or equal under a usual hash function (FNV, CRC-32, one-at-a-time, *33, *31)
                static const char* P[] = {"mid_a_dle", "mid_b_dle", "bne5", "bppq_x", "bf9x_x", "byw8", "et___x", "ggdv", "ahcp_x", "bqp8", "aaar", "aac0", "aaa2", "aacp", "aaan", "aac0"};
                int i = (int) g.below(sizeof P / sizeof *P / 2);
                cs[c].names.push_back(P[i * 2]);
                cs[c].names.push_back(P[i * 2 + 1]);
            }
        }
        e.vars = cs[c].names;
        if (k.safe) e.wrote = &wrote[c];
        return e;
    }
    int newprog(NP ast) {
        Prog pr;
        pr.ast = ast;
        pr.style = ch(1, 3) ? 0 : 1 + g.below(1000000);
        p.progs.push_back(pr);
        return (int) p.progs.size() - 1;
    }
    int program(int c) {
        auto& tp = tprogs[(size_t) owner(c)];
        if (!tp.empty() && ch(1, 5)) return g.pick(tp);
        Env e = envfor(c);
        if (ch(1, 4)) cs[c].names.push_back(aname());
        PG pg(g, e);
        int n = g.range(1, k.stmts);
        int i;
        if (ch(1, 60)) i = newprog(mk(N_SEQ, "")); // no instruction at all
        else if (!k.safe && ch(1, 30)) i = newprog(pg.deep(ch(1, 4) ? g.range(150, 420) : g.range(8, 90), ch(1, 12)));
        else i = newprog(k.safe ? pg.faultsafe(n + 1) : pg.program(n));
        tp.push_back(i);
        return i;
    }

    // ---- texts that are not valid programs
    std::string bad(int c) {
        static const char* T[] = {
            "x = unknownfn(1)", "nosuch(a, b)", "x = sin(1, 2)", "if(1, 2)", "rand()", "memset(1)", "memcpy(1, 2)", "loop(3)", "while(1, 2)", "x = (1 + 2", "x = 1)",
            "x = 1 @ 2", "x = #1", "\x01", "x = \"abc\"", "x = a \\ b", "{ x = 1 }", "x = \xC3\xA4", "x = 1 +", "* 2", "x = 1 2", "a b", "x = sin", "sin + 1", "sin = 3",
            "if(1, 2, 3, 4)", "gmem = 3", "x = gmem", "megabuf[3]", "a ? b", "x = 3 = ", "a[1", "a]1[", "x = ,", "sin(,)", "pow(1,)", "x += ", "= 5", "a ? : b", "a ! b",
            "exec2(1)", "exec3(1, 2)", "x = 1 : 2", "loop = 2", "while", "(", ")", "[", "a = = b", "/ 3", "atan2(1)", "sqr(1, 2, 3)", "x = $q", "x = $", "x = 1..2.3 4"};
        std::string t = T[g.below(sizeof T / sizeof *T)];
        if (ch(1, 4)) { // errors that quote the text
            static const char* F[] = {"sin", "if", "pow", "loop", "rand", "memset", "exec3", "_add", "gmegabuf", "while", "sigmoid"};
            if (ch(2, 5)) { std::string n = "nofn_"; for (int i = 0, m = ch(1, 6) ? g.range(100, 900) : g.range(0, 12); i < m; i++) n += (char) ('a' + g.below(26)); t = n + "(a)"; t = ch(1, 2) ? "x = " + t : t; }
            else {
                t = std::string(F[g.below(11)]) + "(1";
                for (int i = 0, m = g.range(3, 9); i < m; i++) t += ", " + std::to_string(i);
                t += ")";
            }
            if (ch(1, 2)) t = std::string(g.below(4), '\n') + std::string(g.below(20), ' ') + t;
        }
        if (ch(1, 4)) { // arguments that are whole programs
            Env e = envfor(c);
            auto prog = [&]() -> std::string {
                PG pg(g, e);
                if (ch(1, 3)) return "a";
                std::string s = print_program(pg.program(g.range(1, 2)), ch(1, 2) ? 0 : 1 + g.below(100000));
                return ch(1, 2) ? "(" + s + ")" : s;
            };
            static const char* F[] = {"pow", "sin", "if", "loop", "while", "memset", "rand", "_set", "exec2", "exec3", "megabuf", "min"};
            static const int N[] = {2, 1, 3, 2, 1, 3, 1, 2, 2, 3, 1, 2};
            int f = (int) g.below(12), m = ch(1, 2) ? N[f] + g.range(1, 2) : g.range(1, N[f] - 1);
            if (m == N[f] || m < 1) m = N[f] + 1;
            bool unk = ch(1, 3);
            std::string s = unk ? "nosuch(" : std::string(F[f]) + "(";
            if (unk) m = g.range(1, 3);
            for (int i = 0; i < m; i++) s += (i ? ", " : "") + prog();
            t = s + ")";
        }
        if (pc(k.deepbad)) {
            int n = ch(1, 4) ? g.range(150, 420) : g.range(3, 40);
            std::string s;
            switch (g.below(4)) {
            case 0: s = std::string((size_t) n, '('); s += "1 +"; break;
            case 1: for (int i = 0; i < n; i++) s += "sin("; s += "a b"; break;
            case 2: for (int i = 0; i < n; i++) s += "min(a,"; break;
            default: for (int i = 0; i < n; i++) s += "if(a,b="; s += "sin(1,2)"; break;
            }
            t = s;
        }
        if (ch(1, 3)) { // inside something larger
            switch (g.below(5)) {
            case 0: t = "x = min(a + 1, (" + t + "))"; break;
            case 1: t = "if(a, b = 2, (" + t + "))"; break;
            case 2: t = "loop(3, " + t + "; y = 1)"; break;
            case 3: t = "megabuf(" + t + ") = 3"; break;
            default: t = "exec3(a = 1, " + t + ", b)"; break;
            }
            // the frame must not make it valid
        }
        if (ch(1, 2)) {
            Env e = envfor(c);
            PG pg(g, e);
            uint32_t st = ch(1, 2) ? 0 : 1 + g.below(100000);
            t = print_program(pg.program(g.range(1, 3)), st) + ";\n" + t;
        }
        if (ch(1, 4)) { Env e = envfor(c); PG pg(g, e); t += ch(1, 2) ? "; " : " ;\n"; t += print_program(pg.program(1), 0); }
        if (ch(1, 6)) t += " fresh_name_" + std::to_string(g.below(50)) + " = = 1";
        return t;
    }

    // ---- single operations
    void create(int ph, int thr, int c) {
        if (cs[c].alive) return;
        Op& o = op(ph, thr, O_CREATE);
        o.c = c;
        if (pc(k.pbuf)) { int b = (int) g.below(NBUF); if (bufs[b]) o.b = b; }
        if (pc(k.preg)) o.r = (int) g.below(NREGS);
        if (pc(k.fsmall)) { o.fs = fault(ch(1, 4) ? 3 : 1, 240); o.flag = ch(3, 4); }
        cs[c] = CS();
        cs[c].alive = true;
        cs[c].b = o.b;
        cs[c].r = o.r;
    }
    void destroy(int ph, int thr, int c) {
        if (!cs[c].alive) return;
        Op& o = op(ph, thr, O_DESTROY);
        o.c = c;
        cs[c].alive = false;
    }
    void bufnew(int ph, int b) {
        if (bufs[b]) return;
        Op& o = op(ph, 0, O_BUFNEW);
        o.b = b;
        if (pc(k.fsmall)) { o.fs = fault(3, 2); o.flag = ch(3, 4); }
        bufs[b] = true;
    }
    void gdestroy(int ph) { op(ph, 0, O_GDESTROY); }
    int freecode(int c) {
        for (int i = 0; i < 4; i++) if (!ks[c * 4 + i].alive) return c * 4 + i;
        return -1;
    }
    void del(int ph, int thr, int kk) {
        Op& o = op(ph, thr, O_DEL);
        o.k = kk;
        o.c = ks[kk].ctx;
        ks[kk].alive = false;
    }
    void compile(int ph, int thr, int c, int prog = -1) {
        int s = freecode(c);
        if (s < 0) { del(ph, thr, c * 4 + (int) g.below(4)); s = freecode(c); }
        int pr = prog >= 0 ? prog : program(c);
        Op& o = op(ph, thr, O_COMPILE);
        o.c = c;
        o.k = s;
        o.prog = pr;
        if (pc(k.fsmall)) { o.fs = fault(ch(1, 6) ? 3 : 1, 20 + (int) node_count(p.progs[(size_t) pr].ast) * 6); o.flag = ch(3, 4); }
        ks[s].alive = true;
        ks[s].ctx = c;
        ks[s].prog = pr;
        cs[c].compiled = true;
    }
    int pickcode(int c) {
        std::vector<int> v;
        for (int i = 0; i < 4; i++) if (ks[c * 4 + i].alive) v.push_back(c * 4 + i);
        return v.empty() ? -1 : g.pick(v);
    }
    void exec(int ph, int thr, int c, bool fresh = false) {
        int kk = pickcode(c);
        if (kk < 0) { compile(ph, thr, c); kk = pickcode(c); }
        int n = ch(1, 3) ? 2 : 1;
        for (int i = 0; i < n; i++) {
            Op& o = op(ph, thr, fresh && i == n - 1 ? O_FRESH : O_EXEC);
            o.k = kk;
            o.c = c;
            if (o.kind == O_FRESH) o.flag = ch(1, 2) ? 4 : 0;
            else if (k.safe && pc(k.fexec)) {
                o.fs = fault(2, 4);
                if (o.fs.mode == 3) o.fs.a = ch(1, 2) ? 20000 : 45000;
            }
        }
    }
    void verify(int ph, int thr, int c, int flag) {
        Op& o = op(ph, thr, O_VERIFY);
        o.c = c;
        o.flag = flag;
    }
    std::string val() {
        static const char* v[] = {"0", "1", "-1", "0.5", "-3.25", "17", "1000", "1e-5", "65536", "2.75", "-0.125", "123456"};
        return v[g.below(12)];
    }
    std::string regname(int t) {
        int n = g.range(0, 99 / p.nthr) * p.nthr + t;
        if (n > 99) n = t;
        char b[8];
        snprintf(b, sizeof b, "reg%02d", n);
        return b;
    }
    std::string anyname(int c) {
        Env e = envfor(c);
        if (k.env.rg && ch(k.env.regw, k.env.regw + 4)) return regname(owner(c));
        if (ch(1, 4)) { std::string n = aname(); cs[c].names.push_back(n); return n; }
        return g.pick(e.vars);
    }
    void badop(int ph, int thr, int c) {
        std::string t = bad(c);
        Op& o = op(ph, thr, O_BAD);
        o.c = c;
        o.str = t;
        o.flag = pc(k.bad3) ? 1 : 0;
        if (pc(k.fsmall)) o.fs = fault(1, 60);
        cs[c].compiled = true;
        if (ch(1, 2)) { Op& q = op(ph, thr, O_GETERR); q.c = c; }
    }
    void regop(int ph, int thr, int c) {
        std::string n = anyname(c);
        Op& o = op(ph, thr, O_REG);
        o.c = c;
        o.str = cased(n);
        if (pc(k.fsmall)) { o.fs = fault(1, 3); o.flag = ch(3, 4); }
        if (ch(1, 2)) {
            Op& q = op(ph, thr, O_WRITE);
            q.c = c;
            q.str = n;
            q.val = val();
        }
    }
    void plain(int ph, int thr, OpK kind, int c) { Op& o = op(ph, thr, kind); o.c = c; }

    void step(int ph, int thr, bool solo) { // one random operation on the contexts of `thr` (solo: of anybody)
        std::vector<int> mine, alive;
        for (int c = 0; c < 3 * p.nthr; c++)
            if (solo || owner(c) == thr) { mine.push_back(c); if (cs[c].alive) alive.push_back(c); }
        int tot = 0;
        for (int i = 0; i < O_KINDS; i++) tot += k.w[i];
        int x = (int) g.below((uint32_t) tot), kind = 0;
        while (x >= k.w[kind]) x -= k.w[kind++];
        if (alive.empty()) kind = O_CREATE;
        int c = alive.empty() ? g.pick(mine) : g.pick(alive);
        switch (kind) {
        case O_CREATE: {
            int d = g.pick(mine);
            if (cs[d].alive && ch(1, 2)) destroy(ph, thr, d);
            create(ph, thr, d);
            break;
        }
        case O_DESTROY: destroy(ph, thr, c); break;
        case O_BUFNEW: if (solo) bufnew(ph, (int) g.below(NBUF)); break;
        case O_BUFDEL: if (solo) {
            int b = (int) g.below(NBUF);
            if (!bufs[b]) break;
            for (int i = 0; i < NCTX; i++) if (cs[i].alive && cs[i].b == b) destroy(ph, thr, i);
            Op& o = op(ph, thr, O_BUFDEL);
            o.b = b;
            bufs[b] = false;
            break;
        } else break;
        case O_GDESTROY: if (solo) killglobal(ph); break;
        case O_COMPILE: compile(ph, thr, c); if (ch(1, 2)) exec(ph, thr, c); break;
        case O_BAD: badop(ph, thr, c); break;
        case O_EXEC: exec(ph, thr, c); break;
        case O_FRESH: exec(ph, thr, c, true); break;
        case O_DEL: {
            std::vector<int> v; // also programs whose context is gone
            for (int d : mine) for (int i = 0; i < 4; i++) if (ks[d * 4 + i].alive) v.push_back(d * 4 + i);
            if (!v.empty()) del(ph, thr, g.pick(v));
            break;
        }
        case O_REG: regop(ph, thr, c); break;
        case O_WRITE: { Op& o = op(ph, thr, O_WRITE); o.c = c; o.str = anyname(c); o.val = val(); break; }
        case O_RESET: plain(ph, thr, O_RESET, c); break;
        case O_FREEM: plain(ph, thr, O_FREEM, c); break;
        case O_GETERR: plain(ph, thr, O_GETERR, c); break;
        case O_VERIFY: verify(ph, thr, c, solo ? 1 : 0); break;
        case O_SETGRAM: if (!cs[c].compiled) {
            int b = (int) g.below(NBUF);
            if (!bufs[b]) break;
            Op& o = op(ph, thr, O_SETGRAM);
            o.c = c;
            o.b = b;
            cs[c].b = b;
            break;
        } else break;
        default: break;
        }
    }
    void killglobal(int ph) {
        std::vector<int> back;
        for (int c = 0; c < NCTX; c++) if (cs[c].alive && cs[c].b < 0) { destroy(ph, 0, c); back.push_back(c); }
        gdestroy(ph);
        if (ch(1, 3)) gdestroy(ph);
        for (int c : back) if (ch(3, 4)) { create(ph, 0, c); if (ch(1, 2)) verify(ph, 0, c, 3); }
    }
    void sched() {
        auto& s = p.sc;
        s.seed = g.next();
        if (p.nthr == 1) return;
        auto logu = [&](uint32_t m) { // log-uniform in 1..m
            uint32_t bits = 1;
            while ((1u << bits) < m) bits++;
            uint32_t b = g.below(bits + 1);
            uint32_t v = 1 + g.below(1u << b);
            return v > m ? m : v;
        };
        int w = (int) g.below(100);
        if (w < 12) { s.strat = 0; s.p_op = 20000; }
        else if (w < 50) {
            s.strat = 1;
            static const uint32_t pm[] = {0, 0, 13, 130, 1000}, pq[] = {600, 3000, 12000, 32000}, pa[] = {0, 0, 600, 12000};
            s.p_mem = pm[g.below(5)];
            s.p_cont = pq[g.below(4)];
            s.p_lock = ch(1, 3) ? 60000 : 20000;
            s.p_alloc = pa[g.below(4)];
            s.p_op = 15000;
        } else if (w < 86) {
            s.strat = 2;
            s.pct_cls = ch(3, 4);
            int d = g.range(1, 6);
            for (int i = 0; i < d; i++) s.change.push_back(s.pct_cls ? logu(ch(1, 2) ? 60 : 3000) : logu(200000));
            std::sort(s.change.begin(), s.change.end());
        } else {
            s.strat = 3;
            s.p_lock = ch(1, 2) ? 10000 : 0;
            s.p_op = ch(1, 2) ? 8000 : 0;
            s.p_cont = ch(1, 3) ? 3000 : 0;
            int d = g.range(1, 3);
            for (int i = 0; i < d; i++) {
                Stall x;
                x.thr = (uint8_t) g.below((uint32_t) p.nthr);
                x.cls = (uint8_t) g.below(5);
                x.nth = x.cls == 0 ? logu(60000) : x.cls == 1 ? logu(400) : x.cls == 2 ? logu(30) : x.cls == 3 ? logu(600) : logu(12);
                s.stalls.push_back(x);
            }
        }
    }
    // something of everything, whatever the profile is about
    void mix() {
        for (int i = 0; i < O_KINDS; i++)
            if (i == O_CREATE || i == O_DESTROY || i == O_BUFNEW || i == O_BUFDEL || i == O_GDESTROY || i == O_COMPILE || i == O_BAD || i == O_EXEC || i == O_FRESH || i == O_DEL || i == O_REG || i == O_WRITE || i == O_RESET || i == O_FREEM || i == O_GETERR || i == O_VERIFY)
                k.w[i] = std::max(k.w[i], g.range(1, 3));
        auto& e = k.env;
        e.big = ch(1, 3);
        e.huge = ch(1, 3);
        e.frac = ch(1, 2);
        e.bulk = e.fns = e.rg = e.lm = e.gm = e.oob = true;
        e.rnd = ch(1, 2);
        e.memw = std::max(e.memw, g.range(1, 8));
        e.regw = std::max(e.regw, g.range(1, 3));
        e.ctl = std::max(e.ctl, g.range(2, 9));
        if (ch(1, 4) && !k.fsmall) { k.fsmall = 10; k.bad3 = 0; }
        if (k.gd < 20) k.gd = 20;
    }
    // the same thing very often
    void burst(int ph, int thr) {
        int c = -1;
        for (int i = 0; i < 3; i++) if (cs[thr * 3 + i].alive) c = thr * 3 + i;
        int n = ch(1, 2) ? g.range(10, 40) : ch(1, 6) ? g.range(200, 300) : g.range(40, 140), what = (int) g.below(8), keep = k.fsmall;
        k.fsmall = 0;
        if (c < 0) what = 0;
        if (what <= 1) {
            int d = thr * 3 + 2;
            if (n > 140) n = 140;
            if (p.nthr > 1) n = 10 + n / 4;
            for (int i = 0; i < n; i++) { destroy(ph, thr, d); create(ph, thr, d); if (ch(1, 10)) compile(ph, thr, d); }
        } else if (what <= 3) {
            exec(ph, thr, c);
            Op o = p.ops.back();
            if (o.kind == O_EXEC)
                for (int i = 0; i < n; i++) { Op& q = op(ph, thr, O_EXEC); q.k = o.k; q.c = o.c; }
        } else if (what == 4) {
            int pr = program(c);
            for (int i = 0; i < n; i++) { compile(ph, thr, c, pr); if (ch(1, 8)) exec(ph, thr, c); }
        } else if (what == 5) {
            std::string t = bad(c);
            for (int i = 0; i < n; i++) { Op& o = op(ph, thr, O_BAD); o.c = c; o.str = t; if (ch(1, 8)) plain(ph, thr, O_GETERR, c); }
            cs[c].compiled = true;
        } else if (what == 6) {
            for (int i = 0; i < n; i++) plain(ph, thr, ch(1, 2) ? O_RESET : O_FREEM, c);
        } else {
            for (int i = 0; i < n; i++) regop(ph, thr, c);
        }
        k.fsmall = keep;
    }
    void general() {
        p.nthr = k.thi > 1 && ch(1, CROWD) ? g.range(5, MAXT) : g.range(k.tlo, k.thi);
        if (!k.safe && ch(1, 7)) mix();
        int bursty = ch(1, 70) ? (int) g.below((uint32_t) p.nthr) : -1;
        tprogs.resize((size_t) p.nthr);
        sched();
        int ph = 0;
        int nb = (int) g.below(NBUF + 1);
        for (int b = 0; b < nb; b++) bufnew(ph, b);
        for (int t = 0; t < p.nthr; t++) {
            if (!pc(k.setupc)) continue;
            int n = g.range(1, 2);
            for (int i = 0; i < n; i++) {
                create(ph, 0, t * 3 + i);
                int m = (int) g.below(3);
                for (int j = 0; j < m; j++) compile(ph, 0, t * 3 + i);
            }
        }
        ph++;
        int rounds = g.range(1, k.rounds);
        for (int r = 0; r < rounds; r++) {
            for (int t = 0; t < p.nthr; t++) {
                int n = g.range(k.nlo, k.nhi);
                for (int i = 0; i < n; i++) step(ph, t, p.nthr == 1);
                if (t == bursty && ch(2, 3)) {
                    burst(ph, t);
                    for (int i = 0; i < 3; i++) step(ph, t, p.nthr == 1);
                }
            }
            ph++;
            for (int c = 0; c < NCTX; c++) if (cs[c].alive) verify(ph, 0, c, ch(1, 3) ? 3 : 1);
            if (pc(k.gd)) killglobal(ph);
            if (r + 1 < rounds) { int n = (int) g.below(4); for (int i = 0; i < n; i++) step(ph, 0, true); }
            ph++;
        }
        p.nph = ph;
        p.teardown = 1 + g.below(1000000);
    }
    void weights(std::initializer_list<std::pair<OpK, int>> l) {
        for (auto& x : l) k.w[x.first] = x.second;
    }

    // many contexts, or many programs of one context, alive at the same time
    void crowd() {
        p.nthr = 1;
        tprogs.resize(1);
        k.stmts = g.range(1, 3);
        k.safe = false;
        k.env.huge = false;
        k.fsmall /= 8;
        int nb = (int) g.below(NBUF + 1);
        for (int b = 0; b < nb; b++) bufnew(0, b);
        if (ch(1, 2)) {
            int n = ch(1, 2) ? g.range(13, 40) : g.range(40, NCTX);
            for (int c = 0; c < n; c++) {
                create(0, 0, c);
                if (ch(3, 4)) compile(0, 0, c);
                if (ch(1, 4)) exec(0, 0, c);
            }
            for (int j = 0, m = g.range(20, 90); j < m; j++) {
                int c = (int) g.below((uint32_t) n), x = (int) g.below(16);
                if (!cs[c].alive) { create(0, 0, c); compile(0, 0, c); }
                else if (x < 6) exec(0, 0, c);
                else if (x < 8) compile(0, 0, c);
                else if (x < 10) regop(0, 0, c);
                else if (x < 12) destroy(0, 0, c);
                else if (x == 12) { Op& o = op(0, 0, O_BAD); o.c = c; o.str = bad(c); cs[c].compiled = true; }
                else if (x == 13) plain(0, 0, O_GETERR, c);
                else plain(0, 0, x == 14 ? O_RESET : O_FREEM, c);
            }
            for (int c = 0; c < n; c++) if (cs[c].alive) { if (ch(1, 3)) exec(0, 0, c); verify(0, 0, c, ch(1, 8) ? 3 : 1); }
        } else {
            int nc = g.range(1, 2), n = ch(1, 2) ? g.range(5, 60) : g.range(60, NCODE);
            for (int c = 0; c < nc; c++) create(0, 0, c);
            auto mkcode = [&](int s) {
                int c = (int) g.below((uint32_t) nc), pr = program(c);
                Op& o = op(0, 0, O_COMPILE);
                o.c = c; o.k = s; o.prog = pr;
                if (pc(k.fsmall)) { o.fs = fault(1, 20 + (int) node_count(p.progs[(size_t) pr].ast) * 6); o.flag = ch(3, 4); }
                ks[s].alive = true; ks[s].ctx = c; ks[s].prog = pr;
                cs[c].compiled = true;
            };
            auto run = [&](int s) { Op& o = op(0, 0, O_EXEC); o.c = ks[s].ctx; o.k = s; };
            for (int s = 0; s < n; s++) { mkcode(s); if (ch(1, 8)) run((int) g.below((uint32_t) s + 1)); }
            for (int j = 0, m = g.range(20, 120); j < m; j++) {
                int s = (int) g.below((uint32_t) n), x = (int) g.below(12);
                if (!ks[s].alive) mkcode(s);
                else if (x < 7) run(s);
                else if (x < 10) del(0, 0, s);
                else if (x == 10) plain(0, 0, ch(1, 2) ? O_RESET : O_FREEM, ks[s].ctx);
                else if (cs[1].alive && ch(1, 8)) destroy(0, 0, 1);
                else regop(0, 0, 0);
                if (!cs[1].alive) nc = 1;
            }
            for (int c = 0; c < nc; c++) verify(0, 0, c, 3);
        }
        p.nph = 1;
        p.teardown = 1 + g.below(1000000);
    }
    void manyvars() {
        p.nthr = 1;
        tprogs.resize(1);
        create(0, 0, 0);
        if (ch(1, 2)) create(0, 0, 1);
        int n = ch(1, 3) ? g.range(200, ch(1, 6) ? 1100 : 300) : g.range(20, 140), base = g.range(0, 1000);
        auto nm = [&](int i) { return (i % 3 ? "mv" : "Mw_") + std::to_string(base + i * (i % 5 ? 1 : 1000)); };
        auto wr = [&](int i) { Op& q = op(0, 0, O_WRITE); q.c = 0; q.str = nm(i); q.val = std::to_string(i + 1); };
        for (int i = 0; i < n; i++) {
            if (i % 7 == 3) { compile(0, 0, 0, newprog(set(var(lowered(nm(i))), num((long long) i + 1)))); if (ch(1, 2)) exec(0, 0, 0); continue; }
            Op& o = op(0, 0, O_REG);
            o.c = 0;
            o.str = cased(nm(i));
            wr(i);
        }
        int rounds = g.range(1, 3);
        for (int r = 0; r < rounds; r++) {
            for (int j = 0; j < 6; j++) step(0, 0, true);
            if (ch(2, 3)) plain(0, 0, O_RESET, 0);
            for (int j = 0, m = g.range(3, 30); j < m; j++) {
                int i = (int) g.below((uint32_t) n);
                Op& o = op(0, 0, O_REG);
                o.c = 0;
                o.str = cased(nm(i));
                if (ch(1, 2)) wr(i);
            }
            verify(0, 0, 0, 1);
        }
        p.nph = 1;
        p.teardown = 1 + g.below(1000000);
    }
    static std::string lowered(std::string s) { for (auto& c : s) c = (char) tolower(c); return s; }

    // ---- special: words shared between threads
    void shared_words(bool builtin_race) {
        p.nthr = ch(1, CROWD) ? g.range(5, MAXT) : g.range(2, 4);
        tprogs.resize((size_t) p.nthr);
        sched();
        bool own = !builtin_race && ch(1, 2);
        if (own) { bufnew(0, 0); }
        int words = g.range(1, 4);
        std::vector<long long> w;
        long long common = BASES[g.below(5)];
        for (int i = 0; i < words; i++) w.push_back((ch(2, 3) ? common : BASES[g.below(5)]) + 40 + i);
        bool pre = ch(1, 4);
        int rounds = g.range(1, 3), ph = 0, wv = 1;
        std::vector<int> cc;
        auto mkctx = [&](int ph, int thr, int c) {
            Op& o = op(ph, thr, O_CREATE);
            o.c = c;
            o.b = own ? 0 : -1;
            cs[c] = CS();
            cs[c].alive = true;
            cs[c].b = o.b;
        };
        auto shx = [&](int ph, int thr, int c, char t, std::vector<int> ws, bool loopread) {
            // one program per operation kind and word set
            std::vector<NP> s;
            std::vector<Acc> acc;
            for (int i : ws) {
                std::string v = "s" + std::to_string(i);
                if (t == 'w') s.push_back(ch(1, 3) ? mk(N_SEQ, "", {set(gmemat(w[(size_t) i]), var(v))}) : set(gmemat(w[(size_t) i]), var(v)));
                else if (t == 'a') s.push_back(mk(N_COP, "+=", {gmemat(w[(size_t) i]), var(v)}));
                else s.push_back(set(var(v), gmemat(w[(size_t) i])));
                acc.push_back(Acc{t, w[(size_t) i], v});
            }
            (void) loopread;
            NP ast = s.size() == 1 && s[0]->k == N_SEQ ? s[0]->a[0] : seq(s);
            int slot = freecode(c);
            if (slot < 0) { del(ph, thr, c * 4 + (int) g.below(4)); slot = freecode(c); }
            Op& o = op(ph, thr, O_COMPILE);
            o.c = c; o.k = slot; o.prog = newprog(ast);
            ks[slot].alive = true; ks[slot].ctx = c;
            return std::make_pair(slot, acc);
        };
        // contexts
        for (int t = 0; t < p.nthr; t++) mkctx(ch(3, 4) ? 0 : 1, builtin_race ? t : 0, t * 3);
        for (auto& o : p.ops) if (o.kind == O_CREATE && o.ph == 1) o.thr = o.c / 3;
        std::vector<std::pair<int, std::vector<Acc>>> wr((size_t) p.nthr), rd((size_t) p.nthr), ad((size_t) p.nthr);
        std::vector<int> all;
        for (int i = 0; i < words; i++) all.push_back(i);
        int adder = ch(1, 3) && words > 1 ? (int) g.below((uint32_t) p.nthr) : -1; // last word has a single writer that adds
        std::vector<int> wset = all;
        if (adder >= 0) wset.pop_back();
        for (int t = 0; t < p.nthr; t++) {
            bool late = false;
            for (auto& o : p.ops) if (o.kind == O_CREATE && o.c == t * 3 && o.ph == 1) late = true;
            int cph = late ? 1 : 0, ct = late ? t : 0;
            std::vector<int> a = {g.pick(wset)};
            if (ch(1, 4) && wset.size() > 1) a = wset;
            // keep at most one slot of each kind
            wr[(size_t) t] = shx(cph, ct, t * 3, 'w', a, false);
            std::vector<int> b = ch(1, 3) ? all : std::vector<int>{g.pick(all)};
            rd[(size_t) t] = shx(cph, ct, t * 3, 'r', b, false);
            if (t == adder) ad[(size_t) t] = shx(cph, ct, t * 3, 'a', {words - 1}, false);
        }
        auto run1 = [&](int ph, int t) {
            int x = (int) g.below(10);
            auto& q = t == adder && x < 4 ? ad[(size_t) t] : x < 5 ? wr[(size_t) t] : rd[(size_t) t];
            Op& o = op(ph, t, O_SHX);
            o.c = t * 3;
            o.k = q.first;
            o.acc = q.second;
            o.val = std::to_string(wv++) + ".3";
        };
        if (pre) for (int t = 0; t < p.nthr; t++) { bool ok = true; for (auto& o : p.ops) if (o.kind == O_CREATE && o.c == t * 3 && o.ph == 1) ok = false; if (ok) { run1(0, t); p.ops.back().thr = 0; } }
        ph = 1;
        for (int r = 0; r < rounds; r++) {
            for (int t = 0; t < p.nthr; t++) {
                int n = g.range(1, 6);
                for (int i = 0; i < n; i++) run1(ph, t);
            }
            ph++;
            int t = (int) g.below((uint32_t) p.nthr);
            verify(ph, 0, t * 3, 1);
            ph++;
        }
        p.nph = ph;
        p.check_once = true;
        p.teardown = 1 + g.below(1000000);
        (void) cc;
    }

    // ---- special: all threads use the same few functions, in contexts of their own, at the same time
    void twins() {
        p.nthr = ch(1, CROWD) ? g.range(4, MAXT) : g.range(2, 3);
        tprogs.resize((size_t) p.nthr);
        sched();
        if (ch(1, 2)) { // statics shared by accident are touched by few instructions
            p.sc = SchedCfg();
            p.sc.seed = g.next();
            p.sc.strat = 1;
            static const uint32_t pm[] = {20, 200, 1500};
            p.sc.p_mem = pm[g.below(3)];
            p.sc.p_cont = ch(1, 2) ? 16000 : 3000;
            p.sc.p_lock = 30000;
            p.sc.p_op = 20000;
        }
        k.names = 3;
        for (int t = 0; t < p.nthr; t++) create(0, 0, t * 3);
        int nf = g.range(1, 2), kinds[2];
        for (int i = 0; i < nf; i++) kinds[i] = ch(1, 4) ? g.range(54, 61) : (int) g.below(62);
        int rounds = g.range(1, 2), ph = 1;
        bool mem = false;
        for (int i = 0; i < nf; i++) mem |= kinds[i] >= 54;
        bool full = mem && ch(2, 3);
        if (mem || ch(1, 4))
            for (int t = 0; t < p.nthr; t++) // memory with something in it
                for (int i = 0, n = full ? 5 : g.range(1, 3); i < n; i++) {
                    long long b = full ? BASES[i] : BASES[g.below(5)] + (ch(1, 3) ? 65536 - 30 : 0);
                    if (b + 30 > MEMN) b = 0;
                    NP at = mk(N_MEM, "", {bin("+", num(b), var("lc3"))});
                    compile(0, 0, t * 3, newprog(seq({set(var("lc3"), num(0ll)), mk(N_LOOP, "", {num(30ll), mk(N_SEQ, "", {set(at, bin("+", bin("*", var("lc3"), num((long long) g.range(2, 9))), num((long long) g.range(1, 500)))), mk(N_COP, "+=", {var("lc3"), num(1ll)})})}), var("lc3")})));
                    exec(0, 0, t * 3);
                }
        for (int r = 0; r < rounds; r++) {
            for (int t = 0; t < p.nthr; t++) {
                int c = t * 3, n = g.range(1, 2);
                for (int j = 0; j < n; j++) {
                    Env e = envfor(c);
                    e.oob = false;
                    PG pg(g, e);
                    std::vector<NP> b;
                    int m = g.range(1, 2);
                    for (int i = 0; i < m; i++) b.push_back(focus(pg, kinds[g.below((uint32_t) nf)]));
                    NP body = mk(N_LOOP, "", {num((long long) g.range(2, 10)), seq(b)});
                    std::vector<NP> s;
                    for (auto& v : e.vars) if (ch(2, 3)) s.push_back(set(var(v), pg.numv()));
                    s.push_back(body);
                    s.push_back(pg.anyvar());
                    compile(ch(1, 3) ? ph : ph == 1 ? 0 : ph, t, c, newprog(seq(s)));
                    if (p.ops.back().ph == 0) for (size_t q = p.ops.size() - 2; q < p.ops.size(); q++) if (p.ops[q].ph == 0) p.ops[q].thr = 0;
                }
                int x = g.range(1, 4);
                for (int i = 0; i < x; i++) {
                    exec(ph, t, c, ch(1, 5));
                    if (ch(1, 8)) badop(ph, t, c);
                    if (ch(1, 8)) plain(ph, t, ch(1, 2) ? O_RESET : O_FREEM, c);
                }
            }
            ph++;
            for (int t = 0; t < p.nthr; t++) verify(ph, 0, t * 3, 1);
            ph++;
        }
        p.nph = ph;
        p.teardown = 1 + g.below(1000000);
    }
    // ---- special: all threads compile small programs, valid and invalid, in contexts of their own, at the same time
    void twincompile() {
        p.nthr = ch(1, CROWD) ? g.range(4, MAXT) : g.range(2, 3);
        tprogs.resize((size_t) p.nthr);
        sched();
        if (ch(3, 4)) {
            p.sc = SchedCfg();
            p.sc.seed = g.next();
            p.sc.strat = 1;
            static const uint32_t pm[] = {10, 60, 300, 1200};
            p.sc.p_mem = pm[g.below(4)];
            p.sc.p_cont = ch(1, 2) ? 16000 : 3000;
            p.sc.p_alloc = ch(1, 2) ? 6000 : 500;
            p.sc.p_op = 20000;
        }
        k.names = 3;
        for (int t = 0; t < p.nthr; t++) create(0, 0, t * 3);
        int flavour = (int) g.below(3), ph = 1; // 0 valid, 1 invalid, 2 both
        int nf = g.range(1, 3), kinds[3];
        for (int i = 0; i < nf; i++) kinds[i] = (int) g.below(62);
        for (int t = 0; t < p.nthr; t++) {
            int c = t * 3, n = g.range(3, 8);
            for (int i = 0; i < n; i++) {
                bool bd = flavour == 1 || (flavour == 2 && ch(1, 2));
                if (bd) { badop(ph, t, c); continue; }
                Env e = envfor(c);
                PG pg(g, e);
                std::vector<NP> s;
                for (int j = 0, m = g.range(1, 4); j < m; j++) s.push_back(focus(pg, kinds[g.below((uint32_t) nf)]));
                s.push_back(pg.anyvar());
                compile(ph, t, c, newprog(seq(s)));
                if (ch(1, 2)) exec(ph, t, c);
                if (ch(1, 6)) regop(ph, t, c);
            }
        }
        ph++;
        for (int t = 0; t < p.nthr; t++) { verify(ph, 0, t * 3, 1); exec(ph, 0, t * 3); }
        p.nph = ph + 1;
        p.teardown = 1 + g.below(1000000);
    }
    NP focus(PG& pg, int kind) {
        static const char* b[] = {"+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "%"};
        static const char* f1[] = {"abs", "floor", "ceil", "sign", "sqr", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "log10", "invsqrt"};
        static const char* f2[] = {"min", "max", "band", "bor", "_and", "_or", "atan2", "pow", "sigmoid"};
        static const char* co[] = {"+=", "-=", "*=", "/=", "^=", "%=", "|=", "&="};
        NP v = pg.anyvar();
        auto a = [&]() { return pg.pe(ch(1, 3) ? 1 : 0); };
        if (kind == 12) return set(v, bin("%", pg.clampe(a()), pg.clampe(a())));
        if (kind < 13) return set(v, bin(b[kind], a(), a()));
        if (kind < 29) return set(v, mk(N_F1, f1[kind - 13], {a()}));
        if (kind < 38) return set(v, mk(N_F2, f2[kind - 29], {a(), a()}));
        if (kind < 43) return mk(N_COP, co[kind - 38], {ch(1, 2) ? v : memat(pg.loc()), a()});
        if (kind < 46) return seq({set(v, pg.clampe(a())), mk(N_COP, co[kind - 38], {v, pg.clampe(a())})});
        switch (kind) {
        case 46: return set(v, mk(N_IF, "", {a(), a(), a()}));
        case 47: return mk(N_IF, "", {a(), set(pg.anyvar(), a()), set(pg.anyvar(), a())});
        case 48: return set(v, mk(N_EX2, "", {a(), a()}));
        case 49: return set(v, mk(N_EX3, "", {a(), set(pg.anyvar(), a()), a()}));
        case 50: return set(v, mk(N_LOOP, "", {num((long long) g.range(0, 3)), mk(N_COP, "+=", {pg.anyvar(), a()})}));
        case 51: return seq({set(var("lc1"), num((long long) g.range(1, 4))), mk(N_WHILE, "", {mk(N_SEQ, "", {mk(N_COP, "+=", {v, a()}), set(var("lc1"), bin("-", var("lc1"), num(1ll)))})})});
        case 52: return set(v, mk(N_UN, ch(1, 2) ? "-" : "!", {a()}));
        case 53: return set(v, set(pg.anyvar(), a()));
        case 54: case 55: return mk(N_MSET, "", {num(pg.loc()), a(), num((long long) g.range(1, 20))});
        case 56: case 57: return mk(N_MCPY, "", {num(pg.loc()), ch(1, 2) ? num(pg.loc()) : bin("+", num(pg.loc()), num((long long) g.range(0, 4))), num((long long) g.range(1, 20))});
        case 58: return set(memat(pg.loc()), a());
        case 59: return set(v, bin("+", pg.e.lm ? memat(pg.loc()) : v, a()));
        case 60: return set(gmemat(pg.ownglob()), a());
        default: return set(v, gmemat(pg.ownglob()));
        }
    }

    // ---- special: random numbers
    void rands() {
        p.nthr = ch(1, 6) ? 1 : ch(1, CROWD) ? g.range(5, MAXT) : g.range(2, 4);
        sched();
        if (p.nthr > 1 && ch(1, 2)) { // the interesting points are few
            p.sc = SchedCfg();
            p.sc.seed = g.next();
            p.sc.strat = 1;
            static const uint32_t pm[] = {200, 2000, 10000};
            p.sc.p_mem = pm[g.below(3)];
            p.sc.p_cont = 8000;
            p.sc.p_lock = 30000;
            p.sc.p_op = 20000;
        }
        bool late = ch(1, 3);
        for (int t = 0; t < p.nthr; t++) {
            int ph = late ? 1 : 0, th = late ? t : 0;
            { Op& o = op(ph, th, O_CREATE); o.c = t * 3; }
            for (int j = 0; j < 2; j++) {
                int n = j ? g.range(2, 6) : 1;
                std::vector<NP> s;
                for (int i = 0; i < n; i++) {
                    std::string v = std::string("d") + std::to_string(i);
                    s.push_back(set(var(v), mk(N_RAND, "", {num(4294967295ll)})));
                }
                Op& o = op(ph, th, O_COMPILE);
                o.c = t * 3; o.k = t * 12 + j; o.prog = newprog(seq(s));
            }
            { // limits of all kinds
                static const char* lim[] = {"0", "1", "10", "2.9", "0.3", "1000000", "65536"};
                int x = (int) g.below(8);
                NP a = x < 7 ? num(lim[x]) : num(-5ll);
                Op& o = op(ph, th, O_COMPILE);
                o.c = t * 3; o.k = t * 12 + 2; o.prog = newprog(set(var("r0"), mk(N_RAND, "", {a})));
                o.flag = x;
            }
            int adv = ch(1, 2) ? g.range(600, 626) : g.range(1, 40);
            Op& o = op(ph, th, O_COMPILE);
            o.c = t * 3; o.k = t * 12 + 3; o.prog = newprog(mk(N_SEQ, "", {mk(N_LOOP, "", {num((long long) adv), set(var("d9"), mk(N_RAND, "", {num(1ll)}))}), var("d9")}));
            o.flag = adv;
        }
        std::map<int, int> flag;
        std::map<int, int> size, prog;
        for (auto& o : p.ops) if (o.kind == O_COMPILE) {
            prog[o.k] = o.prog;
            flag[o.k] = o.flag;
            o.flag = 0;
            NP a = p.progs[(size_t) o.prog].ast;
            size[o.k] = a->k == N_SEQ ? (int) a->a.size() : 1;
        }
        auto draw = [&](int ph, int thr, int t, bool lim) {
            int k = t * 12 + (lim ? 2 : (int) g.below(2));
            Op& o = op(ph, thr, O_RND);
            o.c = t * 3; o.k = k;
            if (lim) { static const long long L[] = {1, 1, 10, 2, 1, 1000000, 65536, 1}; o.acc.push_back(Acc{'b', L[flag[k]], "r0"}); }
            else for (int i = 0; i < size[k]; i++) o.acc.push_back(Acc{'d', 4294967295ll, "d" + std::to_string(i)});
        };
        auto advance = [&](int ph, int thr, int t) {
            Op& o = op(ph, thr, O_RNDADV);
            o.c = t * 3; o.k = t * 12 + 3; o.flag = flag[t * 12 + 3];
        };
        bool lims = ch(1, 3);
        int ph = 1;
        int rounds = g.range(1, 2);
        if (!late && ch(1, 2)) advance(0, 0, 0);
        for (int r = 0; r < rounds; r++) {
            for (int t = 0; t < p.nthr; t++) {
                int n = g.range(1, 8);
                for (int i = 0; i < n; i++) {
                    if (ch(1, 14)) advance(ph, t, t);
                    else draw(ph, t, t, lims && ch(1, 4));
                }
            }
            ph++;
            draw(ph, 0, (int) g.below((uint32_t) p.nthr), false);
            ph++;
            if (ch(1, 12)) // many contexts come and go
                for (int i = 0, n = ch(1, 4) ? g.range(30, 150) : g.range(5, 30), t = (int) g.below((uint32_t) p.nthr); i < n; i++) {
                    op(ph, 0, O_CREATE).c = t * 3 + 1;
                    op(ph, 0, O_DESTROY).c = t * 3 + 1;
                }
            if (ch(1, 3)) { // nothing but a draw advances or restarts the sequence
                if (ch(1, 2)) { // contexts (and the global memory) come and go
                    std::vector<int> gone;
                    bool all = ch(1, 2);
                    for (int t = 0; t < p.nthr; t++) if (all || ch(1, 2)) { op(ph, 0, O_DESTROY).c = t * 3; gone.push_back(t); }
                    if (all) { op(ph, 0, O_GDESTROY); if (ch(1, 4)) op(ph, 0, O_GDESTROY); }
                    for (int t : gone) {
                        for (int j = 0; j < 4; j++) { Op& o = op(ph, 0, O_DEL); o.k = t * 12 + j; o.c = t * 3; }
                        op(ph, 0, O_CREATE).c = t * 3;
                        for (int j = 0; j < 4; j++) { Op& o = op(ph, 0, O_COMPILE); o.c = t * 3; o.k = t * 12 + j; o.prog = prog[t * 12 + j]; }
                    }
                } else {
                    int t = (int) g.below((uint32_t) p.nthr);
                    op(ph, 0, ch(1, 2) ? O_RESET : O_FREEM).c = t * 3;
                    Op& o = op(ph, 0, O_BAD);
                    o.c = t * 3;
                    o.str = ch(1, 2) ? "x = rand(" : "x = rand(1, rand(2))";
                    Op& q = op(ph, 0, O_COMPILE); // compiled, never executed
                    q.c = t * 3; q.k = t * 12 + 4; q.prog = newprog(seq({set(var("dd"), mk(N_RAND, "", {num(10ll)})), mk(N_F1, "floor", {mk(N_RAND, "", {num(5ll)})})}));
                    Op& w = op(ph, 0, O_DEL);
                    w.k = t * 12 + 4; w.c = t * 3;
                }
                ph++;
                draw(ph, 0, (int) g.below((uint32_t) p.nthr), false);
                ph++;
            }
        }
        p.nph = ph;
        p.teardown = 1 + g.below(1000000);
    }

    NP odd() { // values at the edge of being zero
        switch (g.below(6)) {
        case 0: return mk(N_F1, "log", {num(-1ll)});
        case 1: return neg(mk(N_F1, "log", {num(-1ll)}));
        case 2: return mk(N_F1, "exp", {num(10000ll)});
        case 3: return bin("*", num("1e-20"), num("1e-20"));
        case 4: return bin("*", mk(N_F2, "pow", {num(10ll), num(-160ll)}), mk(N_F2, "pow", {num(10ll), num(-155ll)}));
        default: return neg(num(0ll));
        }
    }
    // ---- special: operators and functions on shared operands
    void operands() {
        p.nthr = ch(1, CROWD) ? g.range(4, MAXT) : g.range(2, 3);
        tprogs.resize((size_t) p.nthr);
        sched();
        bool own = ch(1, 3), sup = ch(1, 3);
        if (own) bufnew(0, 0);
        for (int t = 0; t < p.nthr; t++) { Op& o = op(0, 0, O_CREATE); o.c = t * 3; o.b = own ? 0 : -1; o.r = sup ? 0 : -1; }
        int nw = g.range(1, 2), nwr = p.nthr == 2 ? 1 : g.range(1, 2); // threads 0..nwr-1 write, the others compute
        if (nwr > nw) nwr = nw;
        std::vector<long long> w;
        for (int i = 0; i < nw; i++) w.push_back(ch(1, 3) ? -1 - g.range(0, 99) : BASES[g.below(5)] + 40 + i);
        if (nw == 2 && w[0] == w[1]) nw = 1, nwr = 1;
        auto word = [&](int i) { return w[(size_t) i] < 0 ? reg((int) (-1 - w[(size_t) i])) : gmemat(w[(size_t) i]); };
        bool duel = ch(3, 5), focused = ch(3, 5);
        if (duel || ch(3, 4)) {
            auto& s = p.sc;
            s = SchedCfg();
            s.seed = g.next();
            if (duel) {
                static const uint32_t pc[] = {6000, 16000, 32000, 52000}, po[] = {65536, 50000, 30000};
                s.strat = 4;
                s.duel = nwr;
                s.p_cont = pc[g.below(4)];
                s.p_op = po[g.below(3)];
                s.p_mem = ch(1, 2) ? 6000 : 0;
            } else if (ch(1, 2)) {
                s.strat = 1;
                static const uint32_t pc[] = {4000, 12000, 25000, 40000}, pm[] = {0, 0, 200, 2000};
                s.p_cont = pc[g.below(4)];
                s.p_mem = pm[g.below(4)];
                s.p_op = ch(1, 2) ? 25000 : 8000;
                s.p_lock = 20000;
            } else {
                s.strat = 3;
                s.p_op = ch(1, 2) ? 20000 : 0;
                for (int t = 0; t < p.nthr; t++)
                    for (int i = 0, n = g.range(1, 4); i < n; i++)
                        s.stalls.push_back(t < nwr ? Stall{(uint8_t) t, 4, (uint32_t) g.range(1, 8)} : ch(2, 3) ? Stall{(uint8_t) t, 1, (uint32_t) g.range(1, 16)} : Stall{(uint8_t) t, 0, (uint32_t) g.range(1, 500)});
            }
        }
        for (int i = 0; i < nw; i++) {
            int t = i % nwr;
            Op& o = op(0, 0, O_COMPILE);
            o.c = t * 3; o.k = t * 12 + i; o.prog = newprog(set(word(i), var("v" + std::to_string(i))));
        }
        static const char* V[] = {"0", "1", "-1", "2.5", "-3", "7", "1e10", "0.5", "-0.5", "3", "nan", "inf", "1e-305", "0.00001", "100000", "-7.25", "4294967296", "12"};
        int pool = ch(1, 2) ? 10 : 18;
        std::vector<std::string> few; // sharply different values
        if (focused)
            for (int i = 0, n = g.range(2, 4); i < n; i++) few.push_back(ch(1, 3) ? "0" : V[g.below(ch(4, 5) ? 10 : 18)]);
        auto wr = [&](int ph, int thr, int i) {
            int t = i % nwr;
            Op& o = op(ph, thr, O_SHX);
            o.c = t * 3; o.k = t * 12 + i; o.val = few.empty() ? V[g.below((uint32_t) pool)] : g.pick(few);
            o.acc.push_back(Acc{'w', w[(size_t) i], "v" + std::to_string(i)});
        };
        for (int i = 0; i < nw; i++) if (ch(4, 5)) wr(0, 0, i);
        struct Fn { int k, prog; std::vector<Acc> acc; int flag; };
        std::vector<std::vector<Fn>> fns((size_t) p.nthr);
        static const char* b[] = {"+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "%"};
        static const char* f1[] = {"abs", "floor", "ceil", "sign", "sqr", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "log", "log10", "invsqrt"};
        static const char* f2[] = {"min", "max", "band", "bor", "_and", "_or", "atan2", "pow", "sigmoid"};
        static const char* co[] = {"+=", "-=", "*=", "/=", "^=", "%=", "|=", "&="};
        int kinds[2];
        for (int& x : kinds) { static const int risky[] = {12, 43, 45, 44, 46, 47, 48, 49, 50, 51, 52, 53, 54, 58, 29, 30, 31, 32, 33, 34, 10, 11, 16, 24, 26, 28, 36, 37, 3, 41}; x = ch(1, 2) ? risky[g.below(sizeof risky / sizeof *risky)] : (int) g.below(60); }
        for (int t = nwr; t < p.nthr; t++) {
            int n = focused ? g.range(1, 4) : g.range(2, 7);
            for (int q = 0; q < n; q++) {
                std::vector<Acc> acc;
                int left = 3;
                auto sh = [&]() -> NP { int i = (int) g.below((uint32_t) nw); acc.push_back(Acc{'f', w[(size_t) i], "s"}); left--; return word(i); };
                auto any = [&]() -> NP { // mostly shared
                    if (left > 0 && ch(3, 4)) return sh();
                    switch (g.below(5)) { case 0: return num(0ll); case 1: return num((long long) g.range(1, 9)); case 2: return num("0.75"); case 3: return neg(num((long long) g.range(1, 5))); default: return num("1e9"); }
                };
                NP e;
                std::vector<NP> pre;
                Fn f;
                f.flag = 0;
                int kind = focused ? kinds[g.below(2)] : (int) g.below(60);
                NP x = var("x");
                bool done = false;
                // operands are created in the order in which they appear in the program
                auto two = [&](std::function<NP(NP, NP)> m) { NP l = any(), r = acc.empty() ? sh() : any(); return m(l, r); };
                if (kind < 13) e = two([&](NP l, NP r) { return bin(b[kind], l, r); });
                else if (kind < 29) e = mk(N_F1, f1[kind - 13], {sh()});
                else if (kind < 38) e = two([&](NP l, NP r) { return mk(N_F2, f2[kind - 29], {l, r}); });
                else if (kind < 46) { pre.push_back(set(x, num((long long) g.range(1, 9)))); pre.push_back(mk(N_COP, co[kind - 38], {x, sh()})); done = true; }
                else if (kind < 47) e = mk(N_UN, "-", {sh()});
                else if (kind < 48) e = mk(N_UN, "!", {sh()});
                else if (kind < 50) { NP c = sh(), l = any(), r = any(); e = mk(N_IF, "", {c, l, r}); }
                else if (kind < 51) { // index
                    pre.push_back(mk(N_MSET, "", {num(0ll), num(0ll), num(64ll)}));
                    for (int i = 0; i < 4; i++) { static const int at[] = {0, 2, 3, 7}; pre.push_back(set(memat(at[i]), num((long long) (31 + at[i])))); }
                    e = mk(N_MEM, "", {sh()});
                } else if (kind < 53) { // memset and memcpy
                    if (ch(1, 2)) { pre.push_back(mk(N_MSET, "", {num(11ll), sh(), num(3ll)})); }
                    else {
                        pre.push_back(mk(N_MSET, "", {num(0ll), num(5ll), num(40ll)}));
                        pre.push_back(mk(N_MSET, "", {num(1ll), num(8ll), mk(N_F2, "min", {sh(), num(20ll)})}));
                    }
                    e = bin("+", bin("+", bin("*", memat(11), num(100ll)), bin("*", memat(12), num(10ll))), memat(13));
                } else if (kind < 55) { f.flag = 1; e = mk(N_RAND, "", {sh()}); }
                else if (kind < 57) { NP l = two([&](NP l, NP r) { return bin(b[g.below(4)], l, r); }); e = mk(N_F2, f2[g.below(2)], {l, any()}); }
                else if (kind < 58) { NP a1 = sh(), a2 = any(); e = mk(N_EX2, "", {a1, a2}); }
                else if (kind < 59) { // counted loop of a shared, limited count
                    pre.push_back(set(var("n"), num(0ll)));
                    pre.push_back(mk(N_LOOP, "", {mk(N_F2, "min", {sh(), num(50ll)}), mk(N_COP, "+=", {var("n"), num(1ll)})}));
                    e = var("n");
                } else e = sh();
                if (!done) pre.push_back(set(x, e));
                Op& o = op(0, 0, O_COMPILE);
                f.k = t * 12 + q;
                f.prog = newprog(seq(pre));
                o.c = t * 3; o.k = f.k; o.prog = f.prog;
                f.acc = acc;
                f.acc.push_back(Acc{'o', 0, "x"});
                fns[(size_t) t].push_back(f);
            }
        }
        int rounds = g.range(1, 2);
        for (int r = 1; r <= rounds; r++) {
            for (int t = 0; t < p.nthr; t++) {
                int n = !duel ? g.range(2, 8) : t < nwr ? g.range(10, 40) : g.range(4, 12);
                for (int j = 0; j < n; j++) {
                    if (t < nwr) { int i = nw > nwr ? (int) g.below((uint32_t) nw) : t; if (i % nwr == t) wr(r, t, i); continue; }
                    auto& f = g.pick(fns[(size_t) t]);
                    Op& o = op(r, t, O_FUN);
                    o.c = t * 3; o.k = f.k; o.prog = f.prog; o.acc = f.acc; o.flag = f.flag;
                }
            }
        }
        p.nph = rounds + 1;
        p.teardown = 1 + g.below(1000000);
    }
    // ---- special: loops
    void loops() {
        int mode = (int) g.below(10);
        if (mode < 4) { // caps and strange counts, alone
            p.nthr = 1;
            tprogs.resize(1);
            create(0, 0, 0);
            int n = g.range(1, 3);
            for (int i = 0; i < n; i++) {
                std::vector<NP> s;
                static const char* big[] = {"1e10", "3e9", "2147483648", "4294967297", "1e300", "1048577", "1048576", "2147483647", "9e18"};
                static const char* small[] = {"0", "0.5", "1", "1.9", "5", "1000", "0.99999"};
                int x = (int) g.below(11);
                s.push_back(set(var("n"), num(0ll)));
                NP body = mk(N_COP, "+=", {var("n"), num(1ll)});
                bool wrap = ch(1, 8);
                NP lp;
                if (x < 3) lp = mk(N_LOOP, "", {num(big[g.below(9)]), body});
                else if (x < 5) lp = mk(N_LOOP, "", {num(small[g.below(7)]), body});
                else if (x < 6) lp = mk(N_LOOP, "", {neg(num(ch(1, 2) ? big[g.below(9)] : small[g.below(7)])), body});
                else if (x < 7) lp = mk(N_LOOP, "", {ch(1, 2) ? mk(N_F1, "log", {num(-1ll)}) : mk(N_F1, "exp", {num(10000ll)}), body});
                else if (x < 8) lp = mk(N_WHILE, "", {mk(N_SEQ, "", {body, ch(1, 2) ? num(1ll) : ch(1, 3) ? var("n") : ch(1, 2) ? neg(num("0.001")) : mk(N_IF, "", {bin("<", var("n"), num((long long) g.range(1, 5))), num(1ll), odd()})})});
                else if (x < 9) lp = mk(N_WHILE, "", {mk(N_SEQ, "", {body, bin("<", var("n"), num((long long) g.range(0, 2000)))})});
                else if (x < 10) { // the count changes while the loop runs
                    s.push_back(set(var("m"), num((long long) g.range(0, 9))));
                    lp = mk(N_LOOP, "", {var("m"), mk(N_SEQ, "", {body, set(var("m"), ch(1, 2) ? bin("+", var("m"), num(5ll)) : num(0ll))})});
                } else { // nested entries are counted separately
                    lp = mk(N_LOOP, "", {num(2ll), mk(N_LOOP, "", {num((long long) g.range(600000, 1200000)), body})});
                }
                if (wrap) lp = mk(N_IF, "", {num(1ll), lp, num(0ll)});
                s.push_back(lp);
                s.push_back(var("n"));
                int pr = newprog(mk(N_SEQ, "", s));
                compile(1, 0, 0, pr);
                Op& o = op(1, 0, O_EXEC);
                o.c = 0;
                for (int q = 0; q < 4; q++) if (ks[q].alive && ks[q].prog == pr) o.k = q;
            }
            verify(1, 0, 0, 1);
            p.nph = 2;
            return;
        }
        if (mode < 6) { // bodies of all kinds, short loops
            k.tlo = 1; k.thi = 2; k.env.ctl = 8; k.rounds = 1;
            weights({{O_COMPILE, 4}, {O_EXEC, 8}, {O_CREATE, 1}, {O_RESET, 1}, {O_REG, 1}, {O_WRITE, 2}, {O_VERIFY, 1}});
            general();
            return;
        }
        p.nthr = ch(1, CROWD) ? g.range(4, MAXT) : g.range(2, 3);
        sched();
        bool pounce = ch(1, 2); // the word changes just while it is read
        if (pounce) {
            auto& s = p.sc;
            s.strat = 3;
            s.p_mem = s.p_cont = s.p_lock = s.p_alloc = 0;
            s.p_op = ch(1, 2) ? 8000 : 0;
            s.change.clear();
            s.stalls.clear();
            if (ch(2, 3)) s.stalls.push_back(Stall{0, 4, (uint32_t) g.range(1, 3)});
            for (int t = 1; t < p.nthr; t++) {
                int n = g.range(1, 3);
                for (int i = 0; i < n; i++) s.stalls.push_back(ch(2, 3) ? Stall{(uint8_t) t, 1, (uint32_t) g.range(1, 8)} : Stall{(uint8_t) t, 0, (uint32_t) g.range(1, 200)});
            }
        }
        bool own = ch(1, 2);
        if (own) bufnew(0, 0);
        int nw = pounce ? 1 : g.range(1, 2);
        std::vector<long long> w;
        for (int i = 0; i < nw; i++) w.push_back(BASES[g.below(5)] + 40 + i);
        for (int t = 0; t < p.nthr; t++) { Op& o = op(0, 0, O_CREATE); o.c = t * 3; o.b = own ? 0 : -1; }
        int wtag = 0;
        auto wrprog = [&](int t, int i) { Op& o = op(0, 0, O_COMPILE); o.c = t * 3; o.k = t * 12 + i; o.prog = newprog(set(gmemat(w[(size_t) i]), var("v" + std::to_string(i)))); };
        for (int t = 0; t < p.nthr; t++) {
            for (int i = 0; i < nw; i++) wrprog(t, i);
            for (int m = 0; m < 2; m++) {
                long long wi = g.pick(w);
                NP body = mk(N_COP, "+=", {var("n"), num(1ll)});
                NP a;
                if (m == 0) a = mk(N_WHILE, "", {mk(N_SEQ, "", {body, gmemat(wi)})});
                else a = mk(N_LOOP, "", {gmemat(wi), body});
                Op& o = op(0, 0, O_COMPILE);
                o.c = t * 3; o.k = t * 12 + 2 + m; o.prog = newprog(mk(N_SEQ, "", {set(var("n"), num(0ll)), a, var("n")}));
                o.flag = 0;
                o.val = std::to_string(wi);
            }
        }
        std::map<int, long long> word;
        for (auto& o : p.ops) if (o.kind == O_COMPILE && !o.val.empty()) { word[o.k] = atoll(o.val.c_str()); o.val.clear(); }
        // all values written to one word differ, except the final zero
        auto wr = [&](int ph, int thr, int t, int i, const std::string& v) {
            Op& o = op(ph, thr, O_SHX);
            o.c = t * 3; o.k = t * 12 + i; o.val = v;
            o.acc.push_back(Acc{'w', w[(size_t) i], "v" + std::to_string(i)});
        };
        auto fresh = [&]() -> std::string { static const char* f[] = {"1e10", "3000000000", "7e9", "1e12", "-3", "0.25", "-1e9"}; wtag++; if (wtag <= 7 && ch(1, 2)) return f[wtag - 1]; return std::to_string(100 + wtag); };
        static const char* huge[] = {"2e6", "1e10", "3e9", "1048577", "5e18"};
        if (pounce) { // small when the loop is entered, then huge, or the other way round, or nothing
            int x = (int) g.below(8);
            wr(0, 0, 0, 0, x < 5 ? std::to_string(g.range(1, 9)) : x < 7 ? (ch(1, 2) ? "0.5" : "-3") : huge[g.below(5)]);
        } else
            for (int i = 0; i < nw; i++) wr(0, 0, 0, i, fresh());
        int writer = pounce ? 0 : (int) g.below((uint32_t) p.nthr);
        for (int t = 0; t < p.nthr; t++) {
            if (t == writer && pounce) {
                int n = g.range(1, 3);
                for (int j = 0; j < n; j++) wr(1, t, t, 0, ch(1, 2) ? std::string(huge[g.below(5)]) : std::to_string(20 + 10 * j + g.range(0, 9)));
            } else if (t == writer) {
                for (int i = 0; i < nw; i++) {
                    int n = (int) g.below(4);
                    for (int j = 0; j < n; j++) wr(1, t, t, i, fresh());
                    if (ch(4, 5)) wr(1, t, t, i, "0");
                }
            } else {
                int n = g.range(1, 2);
                for (int j = 0; j < n; j++) {
                    int m = !pounce && ch(2, 3) ? 0 : 1, kk = t * 12 + 2 + m;
                    Op& o = op(1, t, O_STOP);
                    o.c = t * 3; o.k = kk; o.flag = m;
                    o.acc.push_back(Acc{'r', word[kk], "n"});
                }
            }
        }
        p.nph = 2;
        p.teardown = 1 + g.below(1000000);
    }
};
} // namespace

void generate(Plan& p, const std::string& profile, uint64_t seed, bool shim) {
    p = Plan();
    p.profile = profile;
    p.seed = seed;
    p.shim = shim;
    Gen G(p, seed, shim);
    auto& k = G.k;
    auto W = [&](std::initializer_list<std::pair<OpK, int>> l) { G.weights(l); };
    if (profile == "C01") {
        G.shared_words(false);
    } else if (profile == "C22") {
        G.operands();
    } else if (profile == "C02") {
        if (G.ch(1, 4)) G.shared_words(true);
        else {
            k.tlo = 1; k.thi = 4; k.rounds = 3; k.nlo = 1; k.nhi = 5; k.gd = 70; k.pbuf = 10; k.preg = 5; k.setupc = 15; k.stmts = 3;
            k.env.memw = 8; k.env.lm = false; k.env.bulk = false; k.env.ctl = 1;
            W({{O_CREATE, 8}, {O_DESTROY, 3}, {O_COMPILE, 4}, {O_EXEC, 6}, {O_VERIFY, 2}, {O_FREEM, 1}, {O_RESET, 1}, {O_GDESTROY, 2}, {O_BUFNEW, 1}, {O_BUFDEL, 1}});
            if (G.ch(1, 4)) W({{O_COMPILE, 0}, {O_EXEC, 0}}); // nothing but creation and destruction
            G.general();
        }
    } else if (profile == "C03" && G.ch(2, 5)) {
        if (G.ch(1, 3)) G.twincompile();
        else G.twins();
    } else if (profile == "C03") {
        k.tlo = 2; k.thi = 4; k.rounds = 2; k.nlo = 3; k.nhi = 9; k.env.ctl = 4;
        W({{O_CREATE, 3}, {O_DESTROY, 2}, {O_COMPILE, 6}, {O_BAD, 4}, {O_EXEC, 8}, {O_DEL, 2}, {O_REG, 3}, {O_WRITE, 2}, {O_RESET, 2}, {O_FREEM, 2}, {O_GETERR, 3}, {O_VERIFY, 2}, {O_FRESH, 2}});
        G.general();
    } else if (profile == "C04") {
        p.check_blocklock = true;
        k.env.rnd = true;
        k.tlo = 1; k.thi = 3; k.rounds = 2; k.nlo = 3; k.nhi = 9; k.gd = 40; k.safe = true; k.fexec = 45; k.fsmall = 15; k.env.oob = false;
        W({{O_CREATE, 3}, {O_DESTROY, 3}, {O_COMPILE, 4}, {O_EXEC, 10}, {O_BAD, 1}, {O_DEL, 1}, {O_RESET, 1}, {O_FREEM, 4}, {O_VERIFY, 2}, {O_GDESTROY, 1}, {O_BUFNEW, 2}, {O_BUFDEL, 2}});
        if (G.ch(1, 3)) { k.safe = false; k.fexec = 0; k.env.oob = true; k.env.big = G.ch(1, 2); k.env.memw = 6; k.env.freem = true; W({{O_REG, 1}}); } // and programs of all kinds without faults
        G.general();
    } else if (profile == "C05") {
        k.tlo = 1; k.thi = 3; k.rounds = 2; k.nlo = 4; k.nhi = 12; k.gd = 30; k.safe = true; k.fexec = 60; k.stmts = 7; k.env.oob = false;
        W({{O_CREATE, 2}, {O_DESTROY, 1}, {O_COMPILE, 4}, {O_EXEC, 14}, {O_FREEM, 3}, {O_VERIFY, 3}, {O_REG, 1}, {O_WRITE, 1}, {O_RESET, 1}, {O_FRESH, 1}, {O_GDESTROY, 1}, {O_BUFNEW, 1}, {O_BUFDEL, 1}});
        G.general();
    } else if (profile == "C06" && G.ch(1, 6)) {
        k.fsmall = 50; k.bad3 = 0; k.env.oob = false;
        G.twincompile();
    } else if (profile == "C06") {
        k.tlo = 1; k.thi = G.ch(1, 4) ? 3 : 1; k.rounds = 1; k.nlo = 5; k.nhi = 14; k.gd = 30; k.fsmall = 70; k.env.oob = false; k.env.ctl = 4; k.deepbad = 20; k.setupc = 50; k.bad3 = 0;
        W({{O_CREATE, 4}, {O_DESTROY, 2}, {O_COMPILE, 10}, {O_BAD, 5}, {O_EXEC, 4}, {O_DEL, 2}, {O_REG, 5}, {O_WRITE, 2}, {O_GETERR, 2}, {O_VERIFY, 3}, {O_RESET, 1}, {O_FREEM, 1}, {O_GDESTROY, 1}, {O_BUFNEW, 3}, {O_BUFDEL, 2}});
        if (G.ch(1, 60)) G.crowd();
        else G.general();
    } else if (profile == "C07") {
        k.tlo = 1; k.thi = G.ch(1, 4) ? 3 : 1; k.rounds = 2; k.nlo = 4; k.nhi = 14; k.deepbad = 25;
        W({{O_CREATE, 2}, {O_DESTROY, 1}, {O_COMPILE, 4}, {O_BAD, 14}, {O_EXEC, 4}, {O_DEL, 2}, {O_REG, 1}, {O_WRITE, 1}, {O_GETERR, 8}, {O_VERIFY, 2}, {O_RESET, 1}, {O_FREEM, 1}});
        G.general();
    } else if (profile == "C08") {
        k.tlo = 1; k.thi = G.ch(1, 3) ? 3 : 1; k.rounds = 2; k.nlo = 4; k.nhi = 18; k.gd = 40; k.env.ctl = 4; k.env.huge = G.ch(1, 4);
        W({{O_CREATE, 4}, {O_DESTROY, 4}, {O_COMPILE, 7}, {O_BAD, 4}, {O_EXEC, 8}, {O_DEL, 5}, {O_REG, 2}, {O_WRITE, 1}, {O_RESET, 2}, {O_FREEM, 2}, {O_GETERR, 2}, {O_VERIFY, 2}, {O_FRESH, 1}, {O_GDESTROY, 2}, {O_BUFNEW, 2}, {O_BUFDEL, 2}});
        if (G.ch(1, 60)) G.crowd();
        else G.general();
    } else if (profile == "C09") {
        k.tlo = 1; k.thi = G.ch(1, 4) ? 3 : 1; k.rounds = 2; k.nlo = 5; k.nhi = 20; k.names = 14; k.env.regw = 1; k.env.memw = 1; k.env.bulk = false;
        k.longn = G.ch(1, 3) ? 30 : 3;
        k.nearreg = 8;
        W({{O_CREATE, 2}, {O_DESTROY, 1}, {O_COMPILE, 6}, {O_BAD, 3}, {O_EXEC, 7}, {O_DEL, 3}, {O_REG, 10}, {O_WRITE, 5}, {O_RESET, 4}, {O_FREEM, 1}, {O_VERIFY, 3}});
        if (G.ch(1, 25)) G.manyvars();
        else if (G.ch(1, 60)) G.crowd();
        else G.general();
    } else if (profile == "C10") {
        k.tlo = 1; k.thi = G.ch(1, 3) ? 3 : 1; k.rounds = 3; k.nlo = 4; k.nhi = 14; k.preg = 55; k.gd = 40; k.env.regw = 10; k.env.memw = 1; k.env.bulk = false; k.env.ctl = 2; k.names = 5; k.nearreg = 40;
        W({{O_CREATE, 5}, {O_DESTROY, 4}, {O_COMPILE, 6}, {O_EXEC, 8}, {O_REG, 10}, {O_WRITE, 8}, {O_RESET, 4}, {O_FREEM, 2}, {O_VERIFY, 3}, {O_BAD, 1}, {O_GDESTROY, 2}, {O_DEL, 1}});
        if (G.ch(1, 60)) G.crowd();
        else G.general();
    } else if (profile == "C11") {
        k.tlo = 1; k.thi = G.ch(1, 5) ? 3 : 1; k.rounds = 2; k.nlo = 4; k.nhi = 14; k.env.memw = 12; k.env.regw = 0; k.env.rg = false; k.env.ctl = 2; k.env.big = G.ch(1, 4); k.env.huge = G.ch(1, 3); k.env.frac = G.ch(1, 2); k.gd = 20; k.stmts = 6; k.pbuf = 45;
        k.env.fns = false;
        W({{O_CREATE, 2}, {O_DESTROY, 1}, {O_COMPILE, 5}, {O_EXEC, 10}, {O_FREEM, 3}, {O_VERIFY, 4}, {O_RESET, 2}, {O_REG, 1}, {O_WRITE, 1}, {O_BUFNEW, 1}, {O_BUFDEL, 1}, {O_GDESTROY, 1}});
        if (G.ch(1, 60)) G.crowd();
        else G.general();
    } else if (profile == "C12") {
        G.loops();
    } else if (profile == "C13") {
        G.rands();
    } else if (profile == "C14") {
        k.tlo = 1; k.thi = G.ch(1, 4) ? 3 : 1; k.rounds = 2; k.nlo = 4; k.nhi = 14; k.env.ctl = 9; k.env.rnd = k.thi == 1; k.gd = 10; k.stmts = 6;
        W({{O_CREATE, 1}, {O_DESTROY, 1}, {O_COMPILE, 5}, {O_EXEC, 10}, {O_FRESH, 7}, {O_BAD, 1}, {O_DEL, 1}, {O_REG, 1}, {O_WRITE, 3}, {O_RESET, 3}, {O_FREEM, 2}, {O_VERIFY, 2}});
        if (G.ch(1, 60)) G.crowd();
        else G.general();
    } else if (profile == "C15") {
        k.tlo = 1; k.thi = G.ch(1, 3) ? 3 : 1; k.rounds = 2; k.nlo = 4; k.nhi = 16; k.gd = 40; k.pbuf = 20; k.preg = 10;
        W({{O_CREATE, 4}, {O_DESTROY, 3}, {O_COMPILE, 6}, {O_BAD, 3}, {O_EXEC, 8}, {O_DEL, 3}, {O_REG, 4}, {O_WRITE, 3}, {O_RESET, 3}, {O_FREEM, 3}, {O_GETERR, 3}, {O_VERIFY, 3}, {O_GDESTROY, 2}, {O_BUFNEW, 3}, {O_BUFDEL, 2}, {O_SETGRAM, 5}});
        if (G.ch(1, 60)) G.crowd();
        else G.general();
    } else if (profile == "C16") {
        p.check_output = true;
        k.tlo = 1; k.thi = G.ch(1, 3) ? 3 : 1; k.rounds = 2; k.nlo = 4; k.nhi = 14; k.gd = 20; k.deepbad = 20; k.env.huge = G.ch(1, 3);
        W({{O_CREATE, 3}, {O_DESTROY, 2}, {O_COMPILE, 7}, {O_BAD, 6}, {O_EXEC, 8}, {O_DEL, 2}, {O_REG, 3}, {O_WRITE, 2}, {O_RESET, 2}, {O_FREEM, 2}, {O_GETERR, 2}, {O_VERIFY, 2}, {O_FRESH, 1}, {O_GDESTROY, 1}, {O_BUFNEW, 2}, {O_BUFDEL, 1}});
        if (G.ch(1, 3)) { k.fsmall = 40; k.bad3 = 0; }
        if (G.ch(1, 3)) { k.safe = true; k.fexec = 50; k.env.huge = false; k.env.oob = false; }
        else k.env.rnd = k.thi == 1;
        if (G.ch(1, 60)) G.crowd();
        else G.general();
    }
    p.check_blocklock |= profile == "C04" || profile == "C15";
}
