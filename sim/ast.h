// Programs as trees: printing to source text (in many spellings), s-expression form for replay files.
#pragma once
#include "rt.h"
#include <memory>

struct Node;
typedef std::shared_ptr<Node> NP;
enum NK { N_NUM, N_VAR, N_REG, N_MEM, N_GMEM, N_UN, N_BIN, N_F1, N_F2, N_SET, N_COP, N_IF, N_LOOP, N_WHILE, N_EX2, N_EX3, N_SEQ, N_MSET, N_MCPY, N_FREEM, N_RAND, N_KINDS };
extern const char* nk_names[N_KINDS];
struct Node {
    NK k;
    std::string s;
    std::vector<NP> a;
};
inline NP mk(NK k, const std::string& s, std::vector<NP> a = {}) { return std::make_shared<Node>(Node{k, s, std::move(a)}); }
inline NP num(const std::string& s) { return mk(N_NUM, s); }
inline NP num(long long v) {
    if (v < 0) return mk(N_UN, "-", {num(-v)});
    return mk(N_NUM, std::to_string(v));
}
inline NP var(const std::string& s) { return mk(N_VAR, s); }

std::string sexpr(const NP& n);
NP parse_sexpr(const char*& p);
// style 0: plain; otherwise the seed of random spelling choices
std::string print_program(const NP& n, uint32_t style);
size_t node_count(const NP& n);
