#pragma once
// Simulator T: a deterministic x86-64 user-mode machine that runs the compiler's assembly output.
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include "rng.h"

enum { RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI, R8, R9, R10, R11, R12, R13, R14, R15, NOREG = -1 };
struct Opr {
    enum K { NONE, REG, IMM, MEM } k = NONE;
    int reg = NOREG, rsz = 0;
    bool high = false;    // %ah and friends
    int64_t imm = 0;
    int base = NOREG, index = NOREG, scale = 1;
    bool rip = false, star = false;
    std::string sym;      // symbol part of an immediate / displacement
};
enum Op {
    I_MOV, I_MOVSX, I_MOVZX, I_ADD, I_SUB, I_AND, I_OR, I_XOR, I_CMP, I_TEST, I_ADC, I_SBB, I_IMUL, I_MUL, I_DIV, I_IDIV, I_NEG, I_NOT, I_INC,
    I_DEC, I_LEA, I_PUSH, I_POP, I_CALL, I_RET, I_JMP, I_JCC, I_SETCC, I_CMOV, I_SHL, I_SAR, I_SHR, I_ROL, I_ROR, I_CLTQ, I_CLTD, I_CQTO, I_CWTL,
    I_CBTW, I_CWTD, I_LEAVE, I_NOP, I_XCHG, I_CLD, I_UD
};
struct Ins {
    Op op;
    int sz = 8, sz2 = 8;   // operand size; sz2: source size of extensions
    int cc = 0;
    int n = 0;
    Opr o[3];
    int line = 0;
    int unit = 0;
};
struct AsmUnit {
    std::vector<Ins> ins;
    struct Sym {
        int sec;       // 0 text, 1 data, 2 rodata, 3 bss
        int64_t off;   // text: instruction index
        bool global = false, defined = false;
    };
    std::map<std::string, Sym> syms;
    std::vector<uint8_t> data[4];
    struct Rel {
        int sec;
        int64_t off;
        int size;
        std::string sym;
        int64_t add;
    };
    std::vector<Rel> rels;
    std::vector<std::string> lines;
    std::string err;    // definite error the assembler would also report
    std::string unsup;  // construct this machine does not know
};
AsmUnit parse_asm(const std::string& text);

struct Region {
    uint64_t base = 0;
    std::vector<uint8_t> m;
    bool wr = true;
    std::string name;
};
struct Cpu {
    uint64_t r[16] = {0};
    int64_t ip = 0;   // instruction index
    bool cf = false, zf = false, sf = false, of = false, pf = false;
};
struct Shadow {
    uint64_t sp;        // value of rsp right after the call pushed the return address
    uint64_t ret;
    uint64_t saved[16];
    int fn;             // instruction index of callee
};
struct EmuFault {
    std::string cls, what;
};
struct Emu;
struct EnvIf {   // environment supplied by the scenario
    virtual ~EnvIf() {}
    virtual void ext_call(Emu& m, Cpu& c, int ext_id) = 0;   // c.rsp points at the return address
    virtual void on_step(Emu&, Cpu&) {}
};
struct Emu {
    std::vector<Ins> code;
    std::vector<Region> reg;
    std::map<std::string, uint64_t> gsym;    // global symbols -> address
    std::vector<std::string> exts;           // external functions by id
    std::vector<std::unordered_map<std::string, uint64_t>> lsym;
    EnvIf* env = nullptr;
    uint64_t steps = 0, cap = 1000000, nwrites = 0;
    Rng g;
    uint64_t trace = 0xcbf29ce484222325ull;
    std::vector<Shadow> sh;      // shadow stack of the running thread
    bool want_step = false;
    bool abi_check = true;
    uint64_t text_base = 0x400000;
    std::vector<std::string> abi;    // recorded convention breaches
    std::vector<uint8_t> line_hit;
    uint64_t calls = 0, ext_calls = 0;
    std::string err, unsup;
    uint64_t data_lo = 0, data_hi = 0;
    std::map<uint64_t, uint64_t> owned;   // objects of the program: end -> begin
    bool watch = false;
    uint64_t nhot = 0;                    // stores to static memory that is no object of the program
    std::vector<uint64_t> hot;            // steps of the first of them

    bool link(const std::vector<AsmUnit*>& us, const std::vector<std::string>& ext_funcs, uint64_t layout_seed);
    uint64_t addr_of_ip(int64_t ip) const { return text_base + (uint64_t)ip * 8; }
    uint64_t ext_addr(int id) const { return 0x300000 + (uint64_t)id * 16; }
    static const uint64_t SENTINEL = 0x2000f0;
    Region* find(uint64_t a, size_t n);
    uint64_t rd(uint64_t a, int n);
    void wrm(uint64_t a, int n, uint64_t v);
    void garbage(uint64_t a, uint64_t n, uint64_t seed);
    // executes one instruction; returns false when the sentinel was returned to
    bool step(Cpu& c);
    void run_to_sentinel(Cpu& c, size_t depth);
    // System V call of address fn with integer args (each given as 64-bit value, upper garbage bits already applied)
    uint64_t call(Cpu& c, uint64_t fn, const std::vector<uint64_t>& args, uint64_t env_seed);
    struct Pending {   // an environment-initiated call in progress
        uint64_t sp0 = 0, sp = 0, gsp = 0;
        std::vector<uint64_t> guard;
        size_t depth = 0;
    };
    Pending begin_call(Cpu& c, uint64_t fn, const std::vector<uint64_t>& args, uint64_t env_seed);
    uint64_t end_call(Cpu& c, Pending& p);
    void breach(const std::string& s) {
        if (abi.size() < 8) abi.push_back(s);
    }
    std::string where(int64_t ip);
};
