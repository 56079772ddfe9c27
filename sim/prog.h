#pragma once
// Typed model of the C subset: generator, printer and reference interpreter (the C abstract machine) work on it.
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "rng.h"

enum TK { T_VOID, T_CHAR, T_INT, T_UINT, T_LONG, T_ULONG, T_LLONG, T_ULLONG, T_PTR, T_ARR, T_STRUCT, T_FUNC };
struct Struct;
struct Type {
    TK k;
    Type* base = nullptr;        // pointer/array element, function result
    int n = 0;                   // array length
    Struct* sd = nullptr;
    std::vector<Type*> params;   // function
    int size() const;
    int align() const;
    bool arith() const { return k >= T_CHAR && k <= T_ULLONG; }
    bool scalar() const { return arith() || k == T_PTR; }
    bool sgn() const { return k == T_CHAR || k == T_INT || k == T_LONG || k == T_LLONG; }
};
struct Member {
    std::string name;
    Type* t;
    int off;
};
struct Struct {
    std::string tag, tdname;   // tdname: typedef alias, may be empty
    std::vector<Member> m;
    int size = 0, align = 1;
    Type* self = nullptr;
    bool anon = false;   // defined without a tag
};
enum EK {
    X_LIT, X_ENUM, X_VAR, X_FUNC, X_STR, X_UN, X_BIN, X_LAND, X_LOR, X_COND, X_ASSIGN, X_OPASSIGN, X_PREINC, X_PREDEC,
    X_POSTINC, X_POSTDEC, X_CALL, X_INDEX, X_MEMBER, X_ARROW, X_DEREF, X_ADDR, X_CAST, X_SIZEOFT, X_SIZEOFE
};
enum OP { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_AND, O_OR, O_XOR, O_SHL, O_SHR, O_LT, O_GT, O_LE, O_GE, O_EQ, O_NE, O_NEG, O_POS, O_NOT, O_LNOT };
struct Var;
struct Func;
struct Expr {
    int id = 0;
    EK k;
    int op = 0;
    Type* t = nullptr;
    Expr *a = nullptr, *b = nullptr, *c = nullptr;
    std::vector<Expr*> args;
    Var* v = nullptr;
    Func* f = nullptr;
    int64_t val = 0;
    int form = 0;         // literal spelling
    int mi = 0;           // member index
    std::string s;        // string literal (raw bytes)
    Type* ty = nullptr;   // sizeof(type), cast
    bool side = false;    // has side effects
    bool topw = false;    // may write arbitrary memory (call of impure function, store through pointer)
    std::vector<Var*> writes;
    bool extra_paren = false;
    bool cmp_fix = false;
};
enum SK { S_EXPR, S_DECL, S_IF, S_WHILE, S_FOR, S_SWITCH, S_BLOCK, S_RETURN, S_BREAK, S_CONTINUE, S_EMPTY, S_TYPE };
struct Init {   // initialiser tree
    Expr* e = nullptr;
    std::vector<Init*> l;
    bool list = false;
    bool str = false;
    std::string s;
};
struct Stmt;
struct Enum;
struct Case1 {
    bool dflt = false;
    int64_t val = 0;
    Expr* lab = nullptr;
    std::vector<Stmt*> body;
};
struct Stmt {
    int id = 0;
    SK k;
    Expr* e = nullptr;
    Expr *e2 = nullptr, *e3 = nullptr;   // for: init e2 / step e3
    Var* v = nullptr;                    // decl / for-decl
    Init* init = nullptr;
    Stmt *s1 = nullptr, *s2 = nullptr;
    std::vector<Stmt*> body;
    std::vector<Case1> cases;
    bool deletable = true;
    Struct* sd = nullptr;    // S_TYPE: a type declared in this block
    Enum* en = nullptr;
    bool fwd = false;        // S_TYPE: the tag is declared on its own first
    Struct* fwd2 = nullptr;  // S_TYPE: another tag is declared ahead
    Func* proto = nullptr;   // S_TYPE: prototype in a block
    std::string tdname;      // S_TYPE: local type name
    Type* tdt = nullptr;
};
struct Var {
    std::string name;
    Type* t = nullptr;
    bool global = false, param = false;
    bool addr = false;       // its address may have been taken
    bool locked = false;     // not to be assigned by random code (loop counter, fuel)
    int len = 0;             // pointers: number of elements guaranteed from here on
    int depth = 0;
    Init* init = nullptr;    // globals
    int idx = 0;
    int unit = 0;
    std::string tdname;
    bool isenum = false;
    int64_t lo = 0, hi = 0;   // known value range for locked counters
    bool callable = false, fpure = false;   // function pointer usable in any expression; all its targets are pure
};
struct ExtInfo {
    std::vector<int> len;    // per parameter: element count readable through a pointer (0: scalar, -1: C string, -2: function ptr)
};
struct Func {
    std::string name;
    Type* t = nullptr;   // T_FUNC
    std::vector<Var*> params;
    Stmt* body = nullptr;
    bool ext = false;
    bool pure = false;      // result depends on arguments only; no ext calls, no globals
    bool rec = false;       // last parameter is the recursion fuel
    int idx = 0;
    ExtInfo ei;
    bool scalar_params = true;
    int unit = 0;
    int retlen = 0;                // returns a data pointer with so many elements
    bool selects = false, selpure = false;   // returns one of these functions
    std::vector<Func*> choice;
    bool isvoid() const { return t->base->k == T_VOID; }
};
struct Enum {
    std::string tag;
    std::vector<std::pair<std::string, int64_t>> e;
    std::vector<bool> explicit_val;
};
struct Typedef {
    std::string name;
    Type* t;
};
struct Call {   // one environment-initiated call
    int f;
    std::vector<int64_t> args;
};
struct Prog {
    std::vector<Type*> types;
    std::vector<Struct*> structs, lstructs;   // file scope, block scope
    std::vector<Enum*> enums, lenums;
    std::vector<Typedef> tds;
    std::vector<Var*> globals;
    std::vector<Func*> funcs;   // externals first, then internals in call order
    std::vector<Call> calls;    // history driven by the environment
    std::vector<Expr*> exprs;
    std::vector<Stmt*> stmts;
    std::string source;
    uint64_t feat = ~0ull;
    int nunits = 1;
    int peer = 0;      // accesses to global data by code of another compiler, per environment step
    bool ok = true;
    std::string why;
    ~Prog();
    Prog() {}
    Prog(const Prog&) = delete;
    std::vector<void*> junk_v, junk_i;
};

struct GenCfg {
    int funcs = 4, stmts = 10, depth = 3, globals = 6, structs = 2, exts = 4, calls = 2;
    uint64_t feat = ~0ull;   // feature mask
    bool pure_only = false;  // all functions are pure (C10 threads)
    int nunits = 1;
    int maxlive = 5;         // expression complexity bound (register pressure)
    int layout = 0;          // whitespace style
    int focus = 0;           // 0: the generator decides; else what the program has much of
    int probe = 0;           // 1: only moves, conversions and calls
};
enum Feat : uint64_t {
    FT_PTR = 1, FT_STRUCT = 2, FT_ARR = 4, FT_SWITCH = 8, FT_WHILE = 16, FT_FOR = 32, FT_FPTR = 64, FT_STR = 128,
    FT_UNS = 256, FT_LONG = 512, FT_CHAR = 1024, FT_DIV = 2048, FT_SHIFT = 4096, FT_COND = 8192, FT_REC = 16384,
    FT_MANY = 32768, FT_CAST = 65536, FT_INCDEC = 1 << 17, FT_BIG64 = 1 << 18, FT_ENUM = 1 << 19, FT_TYPEDEF = 1 << 20,
    FT_2D = 1 << 21, FT_CB = 1 << 22, FT_LOGIC = 1 << 23, FT_NESTCALL = 1 << 24, FT_SHADOW = 1 << 25, FT_SIZEOF = 1 << 26,
    FT_OPASSIGN = 1 << 27, FT_NAMES = 1 << 28, FT_LTYPE = 1 << 29, FT_BIG = 1 << 30, FT_CHAIN = 1ull << 31,
    FT_MULTI = 1ull << 32, FT_PTRX = 1ull << 33, FT_SPELL = 1ull << 34, FT_COLLIDE = 1ull << 35
};
struct Edit {
    int kind;   // 0 delete statement, 1 replace expression by simpler one, 2 drop environment call, 3 drop function body
    int id;
};
Prog* gen_prog(uint64_t seed, const GenCfg& cfg, const std::vector<Edit>& edits);
std::string print_prog(const Prog& p, uint64_t style, int unit = -1);
std::string lit_text(int64_t v, Type* t, int form);

// ------------------------------------------------------------------ environment and histories
struct Ev {
    int kind = 0;   // 0 external call, 1 environment call returned, 2 callback returned, 3 foreign access to global data
    int fn = 0;
    std::vector<int64_t> args, mem;
    int64_t ret = 0;
    bool operator==(const Ev& o) const { return kind == o.kind && fn == o.fn && args == o.args && mem == o.mem && ret == o.ret; }
};
std::string ev_text(const Prog& p, const Ev& e);
int64_t env_value(uint64_t seed, uint64_t call, uint64_t what, const Type* t);
int64_t canon(int64_t v, const Type* t);   // truncate / extend to the type
struct History {
    std::vector<Ev> ev;
    std::vector<std::vector<uint8_t>> globals;   // final bytes of integer parts; pointers and padding masked
    uint64_t steps = 0;
    bool ok = false;
    std::string why;
};
// Runs the abstract machine; repairs undefined operations in place (changes the program) until a run is clean.
bool interp_repair(Prog& p, uint64_t env_seed, History& h, uint64_t max_steps);
bool interp_run(Prog& p, uint64_t env_seed, History& h, uint64_t max_steps);
// is a call of this pure function with these arguments well defined, and what does it return?
bool interp_pure(Prog& p, int fn, const std::vector<int64_t>& args, int64_t& ret, uint64_t max_steps);
// one access of foreign code to global data: which global, which integer field, written value
struct PeerOp {
    int g = -1, field = 0, off = 0;
    const Type* t = nullptr;
    bool write = false;
    int64_t val = 0;
};
PeerOp peer_op(const Prog& p, uint64_t env_seed, uint64_t k, int j);
// offsets that carry integers (size 1,4,8) inside a type
void int_fields(const Type* t, int off, std::vector<std::pair<int, const Type*>>& out);
