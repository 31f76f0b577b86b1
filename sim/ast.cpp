#include "ast.h"
using rt::Rng;

const char* nk_names[N_KINDS] = {"num", "var", "reg", "mem", "gmem", "un", "bin", "f1", "f2", "set", "cop", "if", "loop", "while", "ex2", "ex3", "seq", "mset", "mcpy", "freem", "rand"};

std::string sexpr(const NP& n) {
    std::string r = std::string("(") + nk_names[n->k];
    if (!n->s.empty()) r += " " + n->s;
    for (auto& c : n->a) r += " " + sexpr(c);
    return r + ")";
}
NP parse_sexpr(const char*& p) {
    while (*p == ' ') p++;
    if (*p != '(') return nullptr;
    p++;
    std::string k, s;
    while (*p && *p != ' ' && *p != ')') k += *p++;
    auto n = std::make_shared<Node>();
    n->k = N_KINDS;
    for (int i = 0; i < N_KINDS; i++) if (k == nk_names[i]) n->k = (NK) i;
    if (n->k == N_KINDS) return nullptr;
    while (*p == ' ') p++;
    if (*p != '(' && *p != ')') while (*p && *p != ' ' && *p != ')') n->s += *p++;
    for (;;) {
        while (*p == ' ') p++;
        if (*p == ')') { p++; break; }
        NP c = parse_sexpr(p);
        if (!c) return nullptr;
        n->a.push_back(c);
    }
    return n;
}
size_t node_count(const NP& n) {
    size_t c = 1;
    for (auto& x : n->a) c += node_count(x);
    return c;
}

namespace {
struct Printer {
    Rng g;
    bool plain;
    explicit Printer(uint32_t style) : g(style * 77ull + 5), plain(style == 0) {}
    bool ch(int a, int b) { return !plain && g.chance(a, b); }

    // long or unusual white space and comments
    std::string filler() {
        static const char* P[] = {"x", "1", "=", ";", "(", ")", "\"", "'", "*", "/ ", "$x", "\\", "\xe4", "\xff", "\x01", "reg07", ",", "{", "#", "?", " ", "\t", "/* ", "//", "\n"};
        size_t n = 1ull << g.range(3, 15);
        n += g.below((uint32_t) n);
        int k = (int) g.below(4);
        if (k == 3) { // white space only
            std::string r;
            int m = (int) g.below(3);
            while (r.size() < n) r += m == 0 ? ' ' : m == 1 ? '\n' : "\t \n\r"[g.below(4)];
            return r;
        }
        std::string r = k == 2 ? "//" : "/*";
        while (r.size() < n) {
            const char* p = P[g.below(sizeof P / sizeof *P - (k == 2 ? 1 : 0))];
            if (k == 1 && !g.chance(1, 50)) p = "* ";
            if (k != 2 && r.back() == '*' && *p == '/') continue;
            if (k != 2 && r.size() == 2 && *p == '/') continue;
            r += p;
        }
        return r + (k == 2 ? "\n" : " */");
    }
    std::string ws() {
        if (plain || g.chance(5, 7)) return "";
        if (g.chance(1, 3000)) return filler();
        switch (g.below(9)) {
        case 0: return " ";
        case 1: return "\n";
        case 2: return "\t";
        case 3: return " /* c */ ";
        case 4: return "/**/";
        case 5: return " // note; x = 1\n";
        case 6: return "/* a\n * b */";
        case 7: return "\r\n";
        default: return "  ";
        }
    }
    std::string cs(const std::string& s) { // letter case
        if (plain || g.chance(2, 3)) return s;
        std::string r = s;
        int m = (int) g.below(3);
        for (auto& c : r)
            if (m == 0) c = (char) toupper(c);
            else if (g.chance(1, 2)) c = (char) (isupper(c) ? tolower(c) : toupper(c));
        return r;
    }
    std::string call(const std::string& f, const std::vector<std::string>& a) {
        std::string r = cs(f) + ws() + "(";
        for (size_t i = 0; i < a.size(); i++) r += (i ? "," : "") + ws() + a[i] + ws();
        return r + ")";
    }
    std::string par(const std::string& s) { return "(" + ws() + s + ws() + ")"; }
    std::string seq(const NP& n) {
        std::string r;
        for (size_t i = 0; i < n->a.size(); i++) {
            r += (i ? ";" : "") + ws() + stmt(n->a[i]) + ws();
            if (ch(1, 25)) r += ch(1, 2) ? ";" + ws() : ";" + ws() + "()"; // an empty instruction changes nothing
        }
        if (ch(1, 8)) r += ";";
        return r;
    }
    std::string arg(const NP& n) { // function argument: a list may stand without parentheses
        if (n->k == N_SEQ) return ch(1, 3) ? par(seq(n)) : seq(n);
        return ch(1, 2) ? stmt(n) : e(n);
    }
    std::string stmt(const NP& n) { // no outer parentheses needed
        std::string r = e(n);
        if (r.size() > 2 && r[0] == '(' && n->k != N_SEQ && closes(r)) return ch(1, 4) ? r : r.substr(1, r.size() - 2);
        return r;
    }
    static bool closes(const std::string& r) { // the first parenthesis closes at the very end (no comments inside)
        int d = 0;
        if (r.find('/') != std::string::npos && (r.find("/*") != std::string::npos || r.find("//") != std::string::npos)) return false;
        for (size_t i = 0; i < r.size(); i++) {
            if (r[i] == '(') d++;
            if (r[i] == ')') { d--; if (!d) return i + 1 == r.size(); }
        }
        return false;
    }
    // the same decimal number with other digits and exponent
    std::string fraction(const std::string& v) {
        size_t i = 0;
        std::string d, f;
        while (i < v.size() && isdigit(v[i])) d += v[i++];
        if (i < v.size() && v[i] == '.') { i++; while (i < v.size() && isdigit(v[i])) f += v[i++]; }
        int x = 0;
        if (i < v.size() && (v[i] == 'e' || v[i] == 'E')) { char* end; x = (int) strtol(v.c_str() + i + 1, &end, 10); i = (size_t) (end - v.c_str()); }
        if (i != v.size() || d.empty()) return v;
        int m = (int) g.below(6), n = (int) (g.chance(1, 20) ? g.range(50, 400) : g.range(1, 12));
        if (m == 0 || m == 4) f += std::string((size_t) n, '0');
        if (m == 1 || m == 4) d = std::string((size_t) n, '0') + d;
        if (m == 2 || m == 4) { // move the point to the left
            d = std::string((size_t) n, '0') + d;
            f = d.substr(d.size() - (size_t) n) + f;
            d.resize(d.size() - (size_t) n);
            x += n;
        }
        if (m == 3) { // and to the right
            f += std::string((size_t) n, '0');
            d += f.substr(0, (size_t) n);
            f = f.substr((size_t) n);
            x -= n;
        }
        if (g.chance(1, 2) && d.find_first_not_of('0') == std::string::npos && !f.empty()) d.clear();
        std::string r = d;
        if (!f.empty() || g.chance(1, 3)) r += "." + f;
        if (x || g.chance(1, 8)) r += (g.chance(1, 2) ? "e" : "E") + std::string(x >= 0 && g.chance(1, 2) ? "+" : "") + std::to_string(x);
        return r;
    }
    std::string lit(const std::string& v) { // the same number in another notation
        if (plain || g.chance(3, 4)) return v;
        bool integer = !v.empty() && v.size() <= 6;
        for (char c : v) integer = integer && isdigit(c);
        if (!integer) return fraction(v);
        char b[32];
        switch (g.below(5)) {
        case 0: snprintf(b, sizeof b, g.chance(1, 2) ? "$x%x" : "$X%X", (unsigned) atoi(v.c_str())); return b;
        case 1: return v + ".0";
        case 2: return v + ".";
        case 3: return "0" + v;
        default: return v + (g.chance(1, 2) ? "e0" : "E+00");
        }
    }
    std::string e(const NP& n) {
        switch (n->k) {
        case N_NUM: return lit(n->s);
        case N_VAR: return cs(n->s);
        case N_REG: return cs("reg" + n->s);
        case N_MEM: {
            uint32_t o = plain ? 0 : g.below(4);
            auto& ix = n->a[0];
            if (o == 0) return call("megabuf", {arg(ix)});
            if (o == 1) return call("_mem", {arg(ix)});
            std::string i = e(ix);
            if (ix->k == N_BIN && ix->s == "+") { // base[offset]
                return par(e(ix->a[0])) + ws() + "[" + ws() + e(ix->a[1]) + ws() + "]";
            }
            if (o == 2) return par(i) + ws() + "[" + ws() + "]";
            return par(i) + "[" + ws() + "0" + ws() + "]";
        }
        case N_GMEM: {
            uint32_t o = plain ? 0 : g.below(4);
            auto& ix = n->a[0];
            if (o == 0) return call("gmegabuf", {arg(ix)});
            if (o == 1) return call("_gmem", {arg(ix)});
            if (ix->k == N_NUM && ix->s == "0" && ch(1, 2)) return cs("gmem") + ws() + "[" + ws() + "]";
            return cs("gmem") + ws() + "[" + ws() + e(ix) + ws() + "]";
        }
        case N_UN:
            if (n->s == "-") return ch(1, 3) ? call("_neg", {arg(n->a[0])}) : par("-" + ws() + e(n->a[0]));
            if (n->s == "!") return ch(1, 3) ? call(ch(1, 2) ? "bnot" : "_not", {arg(n->a[0])}) : par("!" + ws() + e(n->a[0]));
            return par("+" + ws() + e(n->a[0]));
        case N_BIN: {
            static const char* alt[][3] = {{"+", "_add", 0}, {"-", "_sub", 0}, {"*", "_mul", 0}, {"/", "_div", 0}, {"%", "_mod", 0}, {"==", "equal", "_equal"}, {"!=", "_noteq", 0}, {"<", "below", "_below"}, {">", "above", "_above"}, {"<=", "_beleq", 0}, {">=", "_aboeq", 0}};
            if (ch(1, 4))
                for (auto& a : alt)
                    if (n->s == a[0]) {
                        const char* f = a[2] && g.chance(1, 2) ? a[2] : a[1];
                        return call(f, {arg(n->a[0]), arg(n->a[1])});
                    }
            return par(e(n->a[0]) + ws() + n->s + (n->s == "/" ? " " : "") + ws() + e(n->a[1]));
        }
        case N_F1: return call(n->s == "floor" && ch(1, 2) ? "int" : n->s, {arg(n->a[0])});
        case N_F2:
            if (ch(1, 3)) {
                const char* o = n->s == "pow" ? "^" : n->s == "band" ? "&&" : n->s == "bor" ? "||" : nullptr;
                if (o) return par(e(n->a[0]) + ws() + o + ws() + e(n->a[1]));
            }
            return call(n->s, {arg(n->a[0]), arg(n->a[1])});
        case N_SET:
            if (ch(1, 6)) return call(ch(1, 2) ? "assign" : "_set", {arg(n->a[0]), arg(n->a[1])});
            return par(e(n->a[0]) + ws() + "=" + ws() + e(n->a[1]));
        case N_COP: {
            static const char* alt[][2] = {{"+=", "_addop"}, {"-=", "_subop"}, {"*=", "_mulop"}, {"/=", "_divop"}, {"%=", "_modop"}, {"|=", "_orop"}, {"&=", "_andop"}, {"^=", "_powop"}};
            if (ch(1, 6))
                for (auto& a : alt) if (n->s == a[0]) return call(a[1], {arg(n->a[0]), arg(n->a[1])});
            return par(e(n->a[0]) + ws() + n->s + ws() + e(n->a[1]));
        }
        case N_IF:
            if (ch(1, 3)) return par(par(e(n->a[0])) + ws() + "?" + ws() + par(e(n->a[1])) + ws() + ":" + ws() + par(e(n->a[2])));
            return call(ch(1, 5) ? "_if" : "if", {arg(n->a[0]), arg(n->a[1]), arg(n->a[2])});
        case N_LOOP: return call("loop", {arg(n->a[0]), arg(n->a[1])});
        case N_WHILE: return call("while", {arg(n->a[0])});
        case N_EX2: return call("exec2", {arg(n->a[0]), arg(n->a[1])});
        case N_EX3: return call("exec3", {arg(n->a[0]), arg(n->a[1]), arg(n->a[2])});
        case N_SEQ: return par(seq(n));
        case N_MSET: return call("memset", {arg(n->a[0]), arg(n->a[1]), arg(n->a[2])});
        case N_MCPY: return call("memcpy", {arg(n->a[0]), arg(n->a[1]), arg(n->a[2])});
        case N_FREEM: return call("freembuf", {arg(n->a[0])});
        case N_RAND: return call("rand", {arg(n->a[0])});
        default: return "0";
        }
    }
};
}
std::string print_program(const NP& n, uint32_t style) {
    Printer p(style);
    if (n->k == N_SEQ) return n->a.empty() ? std::string(p.ws()) : p.ws() + p.seq(n);
    return p.ws() + p.stmt(n) + p.ws();
}
