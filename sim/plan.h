// A plan is everything that defines one simulated run except scheduling and fault decisions.
#pragma once
#include "model.h"

enum OpK { O_CREATE, O_DESTROY, O_BUFNEW, O_BUFDEL, O_GDESTROY, O_COMPILE, O_BAD, O_EXEC, O_DEL, O_REG, O_WRITE, O_RESET, O_FREEM, O_GETERR,
           O_VERIFY, O_SETGRAM, O_FRESH, O_SHX, O_RND, O_RNDADV, O_STOP, O_FUN, O_KINDS };
extern const char* op_names[O_KINDS];

struct Acc { char t; long long i; std::string v; }; // 'w' write, 'r' read, 'a' add (single writer), 'f' operand of a function; location, or -1-n for register n; variable

struct Op {
    uint32_t uid = 0;
    int ph = 0, thr = 0;
    OpK kind = O_EXEC;
    int c = 0, k = 0, b = -1, r = -1;
    int prog = -1;
    int flag = 0;
    int shim = 0;
    std::string str, val;
    std::vector<Acc> acc;
    rt::FaultSpec fs;
};
struct Prog { NP ast; uint32_t style = 0; };

constexpr int NCTX = 96, NCODE = 384, NBUF = 3, NREGS = 2;

struct Plan {
    std::string profile;
    uint64_t seed = 0;
    int nthr = 1, nph = 1;
    std::vector<Op> ops;
    std::vector<Prog> progs;
    rt::SchedCfg sc;
    int shim = 0;
    uint32_t teardown = 1;
    bool check_output = false, check_blocklock = false, check_once = false;
    std::string text() const; // serialised (without scheduler configuration)
    bool parse(const std::string& s, std::string& err);
};

void generate(Plan& p, const std::string& profile, uint64_t seed, bool shim);
void execute(const Plan& p); // runs in the child; never returns
std::string hexs(const std::string& s);
std::string unhex(const std::string& s);
