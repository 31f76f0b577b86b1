#include "plan.h"
#include <sstream>

const char* op_names[O_KINDS] = {"create", "destroy", "bufnew", "bufdel", "gdestroy", "compile", "bad", "exec", "del", "reg", "write", "reset", "freem", "geterr", "verify", "setgram", "fresh", "shx", "rnd", "rndadv", "stop", "fun"};

std::string hexs(const std::string& s) {
    std::string r = "x";
    char b[4];
    for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
    return r;
}
std::string unhex(const std::string& s) {
    std::string r;
    for (size_t i = 1; i + 1 < s.size(); i += 2) r += (char) strtoul(s.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
static std::string oneline(std::string s) {
    for (auto& c : s) if ((unsigned char) c < 32) c = ' ';
    if (s.size() > 300) s = s.substr(0, 300) + "...";
    return s;
}

std::string Plan::text() const {
    std::ostringstream o;
    o << "plan " << profile << " " << seed << " threads " << nthr << " phases " << nph << " shim " << shim << " teardown " << teardown << " checks "
      << check_output << check_blocklock << check_once << "\n";
    std::set<int> used;
    for (auto& x : ops) if (x.prog >= 0) used.insert(x.prog);
    for (int i : used) {
        o << "prog " << i << " " << progs[i].style << " " << sexpr(progs[i].ast) << "\n";
        o << "# source: " << oneline(print_program(progs[i].ast, progs[i].style)) << "\n";
    }
    for (auto& x : ops) {
        o << "op " << x.uid << " phase " << x.ph << " thread " << x.thr << " " << op_names[x.kind] << " ctx " << x.c << " code " << x.k << " buf " << x.b
          << " regs " << x.r << " prog " << x.prog << " flag " << x.flag << " shim " << x.shim << " str " << hexs(x.str) << " val " << hexs(x.val) << " faults "
          << x.fs.cat << " " << x.fs.mode << " " << x.fs.a << " " << x.fs.b << " acc " << x.acc.size();
        for (auto& a : x.acc) o << " " << a.t << " " << a.i << " " << (a.v.empty() ? "-" : a.v);
        o << "\n";
        if (x.kind == O_BAD) o << "# text: " << oneline(x.str) << "\n";
        else if (!x.str.empty()) o << "# name: " << oneline(x.str) << " " << x.val << "\n";
    }
    return o.str();
}

bool Plan::parse(const std::string& s, std::string& err) {
    std::istringstream in(s);
    std::string line, w;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        l >> w;
        if (w == "plan") {
            std::string chk;
            l >> profile >> seed >> w >> nthr >> w >> nph >> w >> shim >> w >> teardown >> w >> chk;
            check_output = chk.size() > 0 && chk[0] == '1';
            check_blocklock = chk.size() > 1 && chk[1] == '1';
            check_once = chk.size() > 2 && chk[2] == '1';
        } else if (w == "prog") {
            size_t i; uint32_t st;
            l >> i >> st;
            std::string rest;
            std::getline(l, rest);
            const char* p = rest.c_str();
            if (progs.size() <= i) progs.resize(i + 1);
            progs[i].style = st;
            progs[i].ast = parse_sexpr(p);
            if (!progs[i].ast) { err = "bad program: " + rest; return false; }
        } else if (w == "op") {
            Op x;
            std::string k, st, va;
            size_t na = 0;
            l >> x.uid >> w >> x.ph >> w >> x.thr >> k >> w >> x.c >> w >> x.k >> w >> x.b >> w >> x.r >> w >> x.prog >> w >> x.flag >> w >> x.shim >> w >> st >> w >> va >>
                w >> x.fs.cat >> x.fs.mode >> x.fs.a >> x.fs.b >> w >> na;
            x.kind = O_KINDS;
            for (int i = 0; i < O_KINDS; i++) if (k == op_names[i]) x.kind = (OpK) i;
            x.str = unhex(st);
            x.val = unhex(va);
            for (size_t i = 0; i < na; i++) {
                Acc a;
                l >> a.t >> a.i >> a.v;
                if (a.v == "-") a.v = "";
                x.acc.push_back(a);
            }
            if (!l || x.kind == O_KINDS) { err = "bad op: " + line; return false; }
            ops.push_back(x);
        }
    }
    for (auto& x : ops)
        if (x.prog >= (int) progs.size() || (x.prog >= 0 && !progs[x.prog].ast) || x.thr >= nthr || x.thr < 0 || x.c < 0 || x.c >= NCTX || x.k < 0 || x.k >= NCODE) { err = "bad op reference"; return false; }
    return true;
}
