#include "emu.h"
#include <cctype>
#include <cstdlib>
#include <cstring>

static const char* R64[] = {"rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"};
static const char* R32[] = {"eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d", "r15d"};
static const char* R16[] = {"ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w"};
static const char* R8N[] = {"al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b"};
static const char* R8H[] = {"ah", "ch", "dh", "bh"};
static const char* CCN[] = {"o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"};
static int cc_of(const std::string& s) {
    for (int i = 0; i < 16; i++)
        if (s == CCN[i]) return i;
    if (s == "c" || s == "nae") return 2;
    if (s == "nc" || s == "nb") return 3;
    if (s == "z") return 4;
    if (s == "nz") return 5;
    if (s == "na") return 6;
    if (s == "nbe") return 7;
    if (s == "nge") return 12;
    if (s == "nl") return 13;
    if (s == "ng") return 14;
    if (s == "nle") return 15;
    return -1;
}
static bool reg_of(const std::string& s, Opr& o) {
    for (int i = 0; i < 16; i++) {
        if (s == R64[i]) { o.reg = i; o.rsz = 8; return true; }
        if (s == R32[i]) { o.reg = i; o.rsz = 4; return true; }
        if (s == R16[i]) { o.reg = i; o.rsz = 2; return true; }
        if (s == R8N[i]) { o.reg = i; o.rsz = 1; return true; }
    }
    for (int i = 0; i < 4; i++)
        if (s == R8H[i]) { o.reg = i; o.rsz = 1; o.high = true; return true; }
    return false;
}
struct ParseErr {
    std::string e;
    bool unsup;
};
static std::string trim(const std::string& s) {
    size_t a = 0, b = s.size();
    while (a < b && isspace((unsigned char)s[a])) a++;
    while (b > a && isspace((unsigned char)s[b - 1])) b--;
    return s.substr(a, b - a);
}
static bool is_symch(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$'; }
// symbol+number expression
static void parse_disp(const std::string& t0, std::string& sym, int64_t& v) {
    std::string t = trim(t0);
    sym.clear();
    v = 0;
    size_t i = 0;
    int sign = 1;
    bool first = true;
    while (i < t.size()) {
        while (i < t.size() && isspace((unsigned char)t[i])) i++;
        if (i >= t.size()) break;
        if (t[i] == '+') { sign = 1; i++; continue; }
        if (t[i] == '-') { sign = -1; i++; continue; }
        if (isdigit((unsigned char)t[i])) {
            char* e;
            errno = 0;
            uint64_t n = strtoull(t.c_str() + i, &e, 0);
            v += sign > 0 ? (int64_t)n : (int64_t)(0 - n);
            i = (size_t)(e - t.c_str());
        } else if (is_symch(t[i]) || t[i] == '"') {
            size_t j = i;
            while (j < t.size() && (is_symch(t[j]) || t[j] == '@')) j++;
            if (!sym.empty() || sign < 0) throw ParseErr{"complex expression " + t, true};
            sym = t.substr(i, j - i);
            size_t at = sym.find('@');
            if (at != std::string::npos) {
                if (sym.substr(at) != "@PLT") throw ParseErr{"relocation " + sym, true};
                sym = sym.substr(0, at);
            }
            i = j;
        } else
            throw ParseErr{"expression '" + t + "'", true};
        sign = 1;
        first = false;
    }
    (void)first;
}
static Opr parse_opr(const std::string& t0) {
    std::string t = trim(t0);
    Opr o;
    if (t.empty()) throw ParseErr{"empty operand", false};
    if (t[0] == '*') {
        o = parse_opr(t.substr(1));
        o.star = true;
        return o;
    }
    if (t[0] == '$') {
        o.k = Opr::IMM;
        parse_disp(t.substr(1), o.sym, o.imm);
        return o;
    }
    if (t[0] == '%') {
        o.k = Opr::REG;
        if (!reg_of(t.substr(1), o)) throw ParseErr{"bad register name `" + t + "'", t.compare(0, 4, "%xmm") == 0 || t.size() == 3};
        return o;
    }
    o.k = Opr::MEM;
    size_t p = t.find('(');
    if (p == std::string::npos) {
        parse_disp(t, o.sym, o.imm);
        return o;
    }
    parse_disp(t.substr(0, p), o.sym, o.imm);
    if (t.back() != ')') throw ParseErr{"unbalanced parenthesis in " + t, false};
    std::string in = t.substr(p + 1, t.size() - p - 2);
    std::vector<std::string> parts;
    size_t s = 0;
    for (size_t i = 0; i <= in.size(); i++)
        if (i == in.size() || in[i] == ',') {
            parts.push_back(trim(in.substr(s, i - s)));
            s = i + 1;
        }
    auto rg = [&](const std::string& q) {
        Opr x;
        if (q.size() < 2 || q[0] != '%') throw ParseErr{"bad base/index `" + t + "'", false};
        if (q == "%rip") {
            o.rip = true;
            return (int)NOREG;
        }
        if (!reg_of(q.substr(1), x) || x.rsz != 8) throw ParseErr{"base/index register " + q, true};
        return x.reg;
    };
    if (!parts[0].empty()) o.base = rg(parts[0]);
    if (parts.size() > 1 && !parts[1].empty()) o.index = rg(parts[1]);
    if (parts.size() > 2 && !parts[2].empty()) o.scale = atoi(parts[2].c_str());
    if (o.scale != 1 && o.scale != 2 && o.scale != 4 && o.scale != 8) throw ParseErr{"bad scale", false};
    return o;
}
static int sfx(char c) { return c == 'b' ? 1 : c == 'w' ? 2 : c == 'l' ? 4 : c == 'q' ? 8 : 0; }
static std::string unquote(const std::string& s, size_t& i) {
    std::string r;
    i++;
    while (i < s.size() && s[i] != '"') {
        if (s[i] == '\\') {
            i++;
            char c = s[i];
            if (c >= '0' && c <= '7') {
                int v = 0, n = 0;
                while (n < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7') v = v * 8 + (s[i++] - '0'), n++;
                r += (char)v;
                continue;
            }
            if (c == 'x' || c == 'X') {   // gas: takes all following hex digits, keeps the low byte
                int v = 0;
                i++;
                while (i < s.size() && isxdigit((unsigned char)s[i])) {
                    v = v * 16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' : (tolower(s[i]) - 'a' + 10));
                    i++;
                }
                r += (char)v;
                continue;
            }
            switch (c) {
                case 'n': r += '\n'; break;
                case 't': r += '\t'; break;
                case 'r': r += '\r'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'v': r += '\v'; break;
                case '\\': r += '\\'; break;
                case '"': r += '"'; break;
                default: r += c;   // gas: unknown escape, warns and keeps the character
            }
            i++;
        } else
            r += s[i++];
    }
    if (i >= s.size()) throw ParseErr{"unterminated string", false};
    i++;
    return r;
}
static bool imm_fits(const Opr& o, int sz) {
    if (!o.sym.empty()) return sz >= 4;
    int64_t v = o.imm;
    if (sz == 8) return v >= INT32_MIN && v <= INT32_MAX;
    if (sz == 4) return v >= INT32_MIN && v <= (int64_t)UINT32_MAX;
    if (sz == 2) return v >= -32768 && v <= 65535;
    return v >= -128 && v <= 255;
}
static Ins decode(const std::string& mn, std::vector<Opr> o) {
    Ins I;
    I.n = (int)o.size();
    if (o.size() > 3) throw ParseErr{"too many operands", false};
    for (size_t i = 0; i < o.size(); i++) I.o[i] = o[i];
    auto need = [&](int n) {
        if (I.n != n) throw ParseErr{"number of operands mismatch for `" + mn + "'", false};
    };
    auto regsz = [&](int i, int sz) {
        if (I.o[i].k == Opr::REG && I.o[i].rsz != sz) throw ParseErr{"incorrect register size in `" + mn + "'", false};
    };
    // no-operand forms
    static const std::map<std::string, Op> zero = {{"cltq", I_CLTQ}, {"cdqe", I_CLTQ}, {"cltd", I_CLTD}, {"cdq", I_CLTD}, {"cqto", I_CQTO}, {"cqo", I_CQTO},
                                                   {"cwtl", I_CWTL}, {"cwde", I_CWTL}, {"cbtw", I_CBTW}, {"cbw", I_CBTW}, {"cwtd", I_CWTD}, {"cwd", I_CWTD},
                                                   {"leave", I_LEAVE}, {"leaveq", I_LEAVE}, {"nop", I_NOP}, {"endbr64", I_NOP}, {"cld", I_CLD}, {"ud2", I_UD}, {"hlt", I_UD}};
    auto z = zero.find(mn);
    if (z != zero.end() && I.n == 0) {
        I.op = z->second;
        return I;
    }
    if (mn == "ret" || mn == "retq") {
        if (I.n) throw ParseErr{"ret imm", true};
        I.op = I_RET;
        return I;
    }
    if (mn == "call" || mn == "callq" || mn == "jmp" || mn == "jmpq") {
        need(1);
        I.op = mn[0] == 'c' ? I_CALL : I_JMP;
        if (I.o[0].k == Opr::REG && I.o[0].rsz != 8) throw ParseErr{"operand size mismatch for `" + mn + "'", false};
        if (I.o[0].k == Opr::REG) I.o[0].star = true;
        if (I.o[0].k == Opr::IMM) throw ParseErr{"immediate target", true};
        return I;
    }
    if (mn[0] == 'j') {
        int cc = cc_of(mn.substr(1));
        if (cc < 0) throw ParseErr{"mnemonic " + mn, true};
        need(1);
        I.op = I_JCC;
        I.cc = cc;
        if (I.o[0].k != Opr::MEM) throw ParseErr{"bad jump target", false};
        return I;
    }
    if (mn.compare(0, 3, "set") == 0) {
        std::string c = mn.substr(3);
        int cc = cc_of(c);
        if (cc < 0 && c.size() > 1 && c.back() == 'b') cc = cc_of(c.substr(0, c.size() - 1));
        if (cc < 0) throw ParseErr{"mnemonic " + mn, true};
        need(1);
        I.op = I_SETCC;
        I.cc = cc;
        I.sz = 1;
        regsz(0, 1);
        if (I.o[0].k == Opr::IMM) throw ParseErr{"operand type mismatch for `" + mn + "'", false};
        return I;
    }
    if (mn.compare(0, 4, "cmov") == 0) {
        std::string c = mn.substr(4);
        int cc = cc_of(c), sz = 0;
        if (cc < 0 && c.size() > 1) {
            sz = sfx(c.back());
            if (sz) cc = cc_of(c.substr(0, c.size() - 1));
        }
        if (cc < 0) throw ParseErr{"mnemonic " + mn, true};
        need(2);
        I.op = I_CMOV;
        I.cc = cc;
        if (I.o[1].k != Opr::REG) throw ParseErr{"operand type mismatch for `" + mn + "'", false};
        I.sz = sz ? sz : I.o[1].rsz;
        regsz(0, I.sz);
        regsz(1, I.sz);
        if (I.sz == 1) throw ParseErr{"operand size mismatch for `" + mn + "'", false};
        return I;
    }
    // sign/zero extension
    if ((mn.compare(0, 4, "movs") == 0 || mn.compare(0, 4, "movz") == 0) && mn.size() == 6) {
        int a = sfx(mn[4]), b = sfx(mn[5]);
        if (a && b && a < b) {
            need(2);
            if (mn[3] == 'z' && a == 4) throw ParseErr{"no such instruction: `" + mn + "'", false};
            I.op = mn[3] == 's' ? I_MOVSX : I_MOVZX;
            I.sz = b;
            I.sz2 = a;
            if (I.o[1].k != Opr::REG || I.o[0].k == Opr::IMM) throw ParseErr{"operand type mismatch for `" + mn + "'", false};
            regsz(0, a);
            regsz(1, b);
            return I;
        }
        throw ParseErr{"mnemonic " + mn, true};
    }
    if (mn == "movabsq" || mn == "movabs") {
        need(2);
        I.op = I_MOV;
        I.sz = 8;
        if (I.o[1].k != Opr::REG) throw ParseErr{"movabs to memory", true};
        if (I.o[0].k != Opr::IMM) throw ParseErr{"movabs from memory", true};
        regsz(1, 8);
        return I;
    }
    static const std::map<std::string, std::pair<Op, int>> tab = {
        {"mov", {I_MOV, 2}}, {"add", {I_ADD, 2}}, {"sub", {I_SUB, 2}}, {"and", {I_AND, 2}}, {"or", {I_OR, 2}}, {"xor", {I_XOR, 2}},
        {"cmp", {I_CMP, 2}}, {"test", {I_TEST, 2}}, {"adc", {I_ADC, 2}}, {"sbb", {I_SBB, 2}}, {"imul", {I_IMUL, 0}}, {"mul", {I_MUL, 1}}, {"div", {I_DIV, 1}},
        {"idiv", {I_IDIV, 1}}, {"neg", {I_NEG, 1}}, {"not", {I_NOT, 1}}, {"inc", {I_INC, 1}}, {"dec", {I_DEC, 1}}, {"lea", {I_LEA, 2}},
        {"push", {I_PUSH, 1}}, {"pop", {I_POP, 1}}, {"sal", {I_SHL, 0}}, {"shl", {I_SHL, 0}}, {"sar", {I_SAR, 0}}, {"shr", {I_SHR, 0}},
        {"rol", {I_ROL, 0}}, {"ror", {I_ROR, 0}}, {"xchg", {I_XCHG, 2}}};
    int sz = 0;
    auto it = tab.find(mn);
    if (it == tab.end() && mn.size() > 2) {
        sz = sfx(mn.back());
        if (sz) it = tab.find(mn.substr(0, mn.size() - 1));
    }
    if (it == tab.end()) throw ParseErr{"mnemonic " + mn, true};
    I.op = it->second.first;
    if (it->second.second) need(it->second.second);
    if (!sz) {
        for (int i = I.n - 1; i >= 0; i--)
            if (I.o[i].k == Opr::REG && !((I.op == I_SHL || I.op == I_SAR || I.op == I_SHR || I.op == I_ROL || I.op == I_ROR) && i == 0 && I.n == 2)) {
                sz = I.o[i].rsz;
                break;
            }
        if (!sz && (I.op == I_PUSH || I.op == I_POP)) sz = 8;
        if (!sz) throw ParseErr{"no instruction mnemonic suffix given and no register operands", false};
    }
    I.sz = sz;
    bool shift = I.op == I_SHL || I.op == I_SAR || I.op == I_SHR || I.op == I_ROL || I.op == I_ROR;
    if (shift) {
        if (I.n == 1) {
            I.o[1] = I.o[0];
            I.o[0] = Opr();
            I.o[0].k = Opr::IMM;
            I.o[0].imm = 1;
            I.n = 2;
        }
        need(2);
        if (I.o[0].k == Opr::REG && !(I.o[0].reg == RCX && I.o[0].rsz == 1 && !I.o[0].high)) throw ParseErr{"operand type mismatch for `" + mn + "'", false};
        if (I.o[0].k == Opr::MEM) throw ParseErr{"operand type mismatch for `" + mn + "'", false};
        regsz(1, sz);
        return I;
    }
    for (int i = 0; i < I.n; i++) {
        if (I.op == I_LEA && i == 0) continue;
        regsz(i, sz);
    }
    if (I.op == I_IMUL) {
        if (I.n < 1 || I.n > 3) throw ParseErr{"number of operands mismatch for `" + mn + "'", false};
        if (I.n == 2 && I.o[0].k == Opr::IMM) {
            I.n = 3;
            I.o[2] = I.o[1];
        }
        if (I.n >= 2 && I.o[I.n - 1].k != Opr::REG) throw ParseErr{"operand type mismatch for `" + mn + "'", false};
        if (I.n >= 2 && sz == 1) throw ParseErr{"operand size mismatch for `" + mn + "'", false};
        if (I.n == 3 && (I.o[0].k != Opr::IMM || !imm_fits(I.o[0], sz))) throw ParseErr{"operand type mismatch for `" + mn + "'", false};
        return I;
    }
    if (I.op == I_LEA) {
        if (I.o[0].k != Opr::MEM || I.o[1].k != Opr::REG || sz == 1) throw ParseErr{"operand type mismatch for `" + mn + "'", false};
        return I;
    }
    if (I.op == I_PUSH || I.op == I_POP) {
        if (sz != 8) throw ParseErr{"operand size of " + mn, sz == 2};
        if (I.op == I_POP && I.o[0].k == Opr::IMM) throw ParseErr{"operand type mismatch for `pop'", false};
        if (I.op == I_PUSH && I.o[0].k == Opr::IMM && !imm_fits(I.o[0], 8)) throw ParseErr{"operand type mismatch for `push'", false};
        return I;
    }
    if (I.n == 2) {
        if (I.o[0].k == Opr::MEM && I.o[1].k == Opr::MEM) throw ParseErr{"too many memory references for `" + mn + "'", false};
        if (I.o[1].k == Opr::IMM) throw ParseErr{"operand type mismatch for `" + mn + "'", false};
        if (I.o[0].k == Opr::IMM) {
            bool movreg = I.op == I_MOV && sz == 8 && I.o[1].k == Opr::REG;   // as turns this into movabs
            if (!imm_fits(I.o[0], sz) && !movreg) throw ParseErr{"immediate out of range in `" + mn + "'", sz < 4};
        }
    } else if (I.n == 1 && I.o[0].k == Opr::IMM)
        throw ParseErr{"operand type mismatch for `" + mn + "'", false};
    for (int i = 0; i < I.n; i++)   // high byte registers cannot be used with REX ones
        if (I.o[i].high)
            for (int j = 0; j < I.n; j++)
                if (j != i && ((I.o[j].k == Opr::REG && (I.o[j].reg >= 8 || (I.o[j].rsz == 1 && !I.o[j].high && I.o[j].reg >= 4))) || I.o[j].base >= 8 || I.o[j].index >= 8))
                    throw ParseErr{"can't encode register in an instruction requiring REX prefix", false};
    return I;
}
AsmUnit parse_asm(const std::string& text) {
    AsmUnit u;
    int sec = 0, line = 0;
    size_t pos = 0;
    auto here = [&]() -> int64_t { return sec == 0 ? (int64_t)u.ins.size() : (int64_t)u.data[sec].size(); };
    while (pos < text.size()) {
        size_t e = text.find('\n', pos);
        if (e == std::string::npos) e = text.size();
        std::string ln = text.substr(pos, e - pos);
        pos = e + 1;
        line++;
        u.lines.push_back(ln);
        // comment
        bool q = false;
        for (size_t i = 0; i < ln.size(); i++) {
            if (ln[i] == '\\' && q) i++;
            else if (ln[i] == '"') q = !q;
            else if (ln[i] == '#' && !q) {
                ln = ln.substr(0, i);
                break;
            }
        }
        std::string t = trim(ln);
        try {
            while (!t.empty()) {
                size_t i = 0;
                while (i < t.size() && is_symch(t[i])) i++;
                if (i > 0 && i < t.size() && t[i] == ':') {
                    std::string nm = t.substr(0, i);
                    auto& s = u.syms[nm];
                    if (s.defined) throw ParseErr{"symbol `" + nm + "' is already defined", false};
                    s.defined = true;
                    s.sec = sec;
                    s.off = here();
                    t = trim(t.substr(i + 1));
                    continue;
                }
                break;
            }
            if (t.empty()) continue;
            size_t i = 0;
            while (i < t.size() && !isspace((unsigned char)t[i])) i++;
            std::string mn = t.substr(0, i);
            std::string rest = trim(t.substr(i));
            if (mn[0] == '.') {
                if (mn == ".text") sec = 0;
                else if (mn == ".data") sec = 1;
                else if (mn == ".bss") sec = 3;
                else if (mn == ".section") {
                    if (rest.compare(0, 7, ".rodata") == 0) sec = 2;
                    else if (rest.compare(0, 5, ".text") == 0) sec = 0;
                    else if (rest.compare(0, 5, ".data") == 0) sec = 1;
                    else if (rest.compare(0, 4, ".bss") == 0) sec = 3;
                    else if (rest.compare(0, 5, ".note") == 0) sec = 2;
                    else throw ParseErr{"section " + rest, true};
                } else if (mn == ".globl" || mn == ".global") {
                    u.syms[rest].global = true;
                } else if (mn == ".align" || mn == ".balign" || mn == ".p2align") {
                    int64_t a = atoi(rest.c_str());
                    if (mn == ".p2align") a = 1ll << a;
                    if (sec)
                        while (a > 0 && (int64_t)u.data[sec].size() % a) u.data[sec].push_back(0);
                } else if (mn == ".byte" || mn == ".word" || mn == ".short" || mn == ".value" || mn == ".long" || mn == ".int" || mn == ".quad") {
                    int sz = mn == ".byte" ? 1 : mn == ".quad" ? 8 : (mn == ".long" || mn == ".int") ? 4 : 2;
                    if (sec == 0) throw ParseErr{"data in .text", true};
                    size_t s = 0;
                    for (size_t k = 0; k <= rest.size(); k++)
                        if (k == rest.size() || rest[k] == ',') {
                            std::string sym;
                            int64_t v;
                            parse_disp(rest.substr(s, k - s), sym, v);
                            if (!sym.empty()) u.rels.push_back({sec, (int64_t)u.data[sec].size(), sz, sym, v});
                            for (int b = 0; b < sz; b++) u.data[sec].push_back((uint8_t)((uint64_t)v >> (8 * b)));
                            s = k + 1;
                        }
                } else if (mn == ".zero" || mn == ".skip" || mn == ".space") {
                    if (sec == 0) throw ParseErr{"data in .text", true};
                    int64_t n = strtoll(rest.c_str(), nullptr, 0);
                    if (n < 0 || n > (64 << 20)) throw ParseErr{"bad .zero", n < 0 ? false : true};
                    u.data[sec].insert(u.data[sec].end(), (size_t)n, 0);
                } else if (mn == ".ascii" || mn == ".asciz" || mn == ".string") {
                    if (sec == 0) throw ParseErr{"data in .text", true};
                    size_t k = 0;
                    while (k < rest.size()) {
                        if (isspace((unsigned char)rest[k]) || rest[k] == ',') {
                            k++;
                            continue;
                        }
                        if (rest[k] != '"') throw ParseErr{"expected string", false};
                        std::string s = unquote(rest, k);
                        for (char c : s) u.data[sec].push_back((uint8_t)c);
                        if (mn != ".ascii") u.data[sec].push_back(0);
                    }
                } else if (mn == ".comm" || mn == ".lcomm") {
                    throw ParseErr{mn, true};
                } else if (mn == ".type" || mn == ".size" || mn == ".file" || mn == ".ident" || mn.compare(0, 4, ".cfi") == 0 || mn == ".loc" || mn == ".local" || mn == ".intel_syntax") {
                    if (mn == ".intel_syntax") throw ParseErr{mn, true};
                } else
                    throw ParseErr{"directive " + mn, true};
                continue;
            }
            if (sec != 0) throw ParseErr{"code outside .text", true};
            std::vector<Opr> ops;
            int par = 0;
            size_t s = 0;
            if (!rest.empty())
                for (size_t k = 0; k <= rest.size(); k++) {
                    if (k < rest.size() && rest[k] == '(') par++;
                    if (k < rest.size() && rest[k] == ')') par--;
                    if (k == rest.size() || (rest[k] == ',' && par == 0)) {
                        ops.push_back(parse_opr(rest.substr(s, k - s)));
                        s = k + 1;
                    }
                }
            Ins I = decode(mn, ops);
            I.line = line;
            u.ins.push_back(I);
        } catch (ParseErr& pe) {
            std::string m = "line " + std::to_string(line) + ": " + pe.e + " in `" + trim(ln) + "'";
            if (pe.unsup) {
                if (u.unsup.empty()) u.unsup = m;
            } else if (u.err.empty())
                u.err = m;
        }
    }
    return u;
}
// ---------------------------------------------------------------- linking
bool Emu::link(const std::vector<AsmUnit*>& us, const std::vector<std::string>& ext_funcs, uint64_t layout_seed) {
    Rng lr(layout_seed);
    exts = ext_funcs;
    for (size_t i = 0; i < exts.size(); i++) gsym[exts[i]] = ext_addr((int)i);
    uint64_t da = 0x600000 + 64 * lr.below(64);
    lsym.resize(us.size());
    struct Place {
        uint64_t sec[4];
    };
    std::vector<Place> pl(us.size());
    for (size_t k = 0; k < us.size(); k++) {
        AsmUnit* u = us[k];
        pl[k].sec[0] = code.size();
        for (auto I : u->ins) {
            I.unit = (int)k;
            code.push_back(I);
        }
        for (int s = 1; s < 4; s++) {
            if (u->data[s].empty()) {
                pl[k].sec[s] = da;
                continue;
            }
            Region r;
            r.base = da;
            r.m = u->data[s];
            r.wr = s != 2;
            r.name = s == 2 ? ".rodata" : ".data";
            pl[k].sec[s] = da;
            da += (r.m.size() + 64 + 64 * lr.below(4) + 63) & ~63ull;
            reg.push_back(std::move(r));
        }
    }
    for (size_t k = 0; k < us.size(); k++)
        for (auto& kv : us[k]->syms) {
            auto& s = kv.second;
            if (!s.defined) continue;
            uint64_t a = s.sec == 0 ? addr_of_ip((int64_t)pl[k].sec[0] + s.off) : pl[k].sec[s.sec] + (uint64_t)s.off;
            lsym[k][kv.first] = a;
            if (s.global) {
                if (gsym.count(kv.first)) {
                    err = "multiple definition of `" + kv.first + "'";
                    return false;
                }
                gsym[kv.first] = a;
            }
        }
    auto res = [&](size_t k, const std::string& n, uint64_t& out) {
        auto it = lsym[k].find(n);
        if (it != lsym[k].end()) {
            out = it->second;
            return true;
        }
        auto g2 = gsym.find(n);
        if (g2 != gsym.end()) {
            out = g2->second;
            return true;
        }
        err = "undefined reference to `" + n + "'";
        return false;
    };
    for (auto& I : code)
        for (int i = 0; i < I.n; i++)
            if (!I.o[i].sym.empty()) {
                uint64_t a;
                if (!res((size_t)I.unit, I.o[i].sym, a)) return false;
                I.o[i].imm += (int64_t)a;
            }
    for (size_t k = 0; k < us.size(); k++)
        for (auto& r : us[k]->rels) {
            uint64_t a;
            if (!res(k, r.sym, a)) return false;
            uint64_t at = pl[k].sec[r.sec] + (uint64_t)r.off, val = a + (uint64_t)r.add;
            Region* rg = find(at, (size_t)r.size);
            if (rg) memcpy(&rg->m[at - rg->base], &val, (size_t)r.size);
        }
    line_hit.assign(code.size(), 0);
    data_lo = 0x600000;
    data_hi = da;
    return true;
}
Region* Emu::find(uint64_t a, size_t n) {
    for (auto& r : reg)
        if (a >= r.base && a + n <= r.base + r.m.size() && a + n >= a) return &r;
    return nullptr;
}
uint64_t Emu::rd(uint64_t a, int n) {
    Region* r = find(a, (size_t)n);
    if (!r) {
        char b[80];
        snprintf(b, sizeof b, "read of %d bytes at unmapped 0x%llx", n, (unsigned long long)a);
        throw EmuFault{"crash", b};
    }
    uint64_t v = 0;
    memcpy(&v, &r->m[a - r->base], (size_t)n);
    return v;
}
void Emu::wrm(uint64_t a, int n, uint64_t v) {
    Region* r = find(a, (size_t)n);
    if (!r || !r->wr) {
        char b[80];
        snprintf(b, sizeof b, "write of %d bytes at %s 0x%llx", n, r ? "read-only" : "unmapped", (unsigned long long)a);
        throw EmuFault{"crash", b};
    }
    memcpy(&r->m[a - r->base], &v, (size_t)n);
    nwrites++;
    if (watch && a >= data_lo && a < data_hi) {
        auto it = owned.upper_bound(a);
        if (it == owned.end() || it->second > a) {
            nhot++;
            if (hot.size() < 4096) hot.push_back(steps);
        }
    }
}
void Emu::garbage(uint64_t a, uint64_t n, uint64_t seed) {
    Region* r = find(a, 1);
    if (!r) return;
    uint64_t off = a - r->base;
    uint64_t x = mix64(seed);
    for (uint64_t i = 0; i < n && off + i < r->m.size(); i++) {
        if ((i & 7) == 0) x = mix64(x);
        r->m[off + i] = (uint8_t)(x >> (8 * (i & 7)));
    }
}
std::string Emu::where(int64_t ip) {
    if (ip < 0 || ip >= (int64_t)code.size()) return "outside the program";
    return "unit " + std::to_string(code[(size_t)ip].unit) + " line " + std::to_string(code[(size_t)ip].line);
}
static inline uint64_t msk(int sz) { return sz == 8 ? ~0ull : (1ull << (8 * sz)) - 1; }
static inline int64_t sx(uint64_t v, int sz) {
    int s = 64 - 8 * sz;
    return (int64_t)(v << s) >> s;
}
static bool cond(const Cpu& c, int cc) {
    bool r;
    switch (cc >> 1) {
        case 0: r = c.of; break;
        case 1: r = c.cf; break;
        case 2: r = c.zf; break;
        case 3: r = c.cf || c.zf; break;
        case 4: r = c.sf; break;
        case 5: r = c.pf; break;
        case 6: r = c.sf != c.of; break;
        default: r = c.zf || c.sf != c.of; break;
    }
    return (cc & 1) ? !r : r;
}
bool Emu::step(Cpu& c) {
    if (c.ip < 0 || c.ip >= (int64_t)code.size()) throw EmuFault{"crash", "execution left the program text"};
    if (++steps > cap) throw EmuFault{"runaway", "no end within " + std::to_string(cap) + " instructions"};
    Ins& I = code[(size_t)c.ip];
    line_hit[(size_t)c.ip] = 1;
    int sz = I.sz;
    auto ea = [&](const Opr& o) -> uint64_t {
        uint64_t a = (uint64_t)o.imm;
        if (o.base != NOREG) a += c.r[o.base];
        if (o.index != NOREG) a += c.r[o.index] * (uint64_t)o.scale;
        return a;
    };
    auto get = [&](const Opr& o, int n) -> uint64_t {
        switch (o.k) {
            case Opr::REG: return (o.high ? c.r[o.reg] >> 8 : c.r[o.reg]) & msk(n);
            case Opr::IMM: return (uint64_t)o.imm & msk(n);
            default: return rd(ea(o), n);
        }
    };
    auto put = [&](const Opr& o, int n, uint64_t v) {
        if (o.k == Opr::REG) {
            uint64_t& r = c.r[o.reg];
            if (n == 8) r = v;
            else if (n == 4) r = v & 0xffffffffull;
            else if (n == 2) r = (r & ~0xffffull) | (v & 0xffff);
            else if (o.high) r = (r & ~0xff00ull) | ((v & 0xff) << 8);
            else r = (r & ~0xffull) | (v & 0xff);
        } else {
            uint64_t a = ea(o);
            if (abi_check) {
                Region* g2 = find(a, 1);
                if (g2 && g2->name == "stack" && c.r[RSP] >= g2->base && c.r[RSP] <= g2->base + g2->m.size() && a + 128 < c.r[RSP])
                    breach("stores below the red zone of the stack pointer (" + where(c.ip) + ")");
            }
            wrm(a, n, v);
        }
    };
    auto setzs = [&](uint64_t v, int n) {
        v &= msk(n);
        c.zf = v == 0;
        c.sf = (v >> (8 * n - 1)) & 1;
        c.pf = !(__builtin_popcount((unsigned)(v & 0xff)) & 1);
    };
    auto undef = [&](bool all) {   // flags the architecture leaves undefined
        uint64_t x = hash2(steps, 0x1234567);
        if (all) c.zf = x & 1, c.sf = x & 2, c.cf = x & 4, c.of = x & 8;
        else c.zf = x & 1, c.sf = x & 2;
        c.pf = x & 16;
    };
    auto add = [&](uint64_t a, uint64_t b, uint64_t ci, int n) {
        uint64_t r = (a + b + ci) & msk(n);
        unsigned __int128 w = (unsigned __int128)(a & msk(n)) + (b & msk(n)) + ci;
        c.cf = (w >> (8 * n)) != 0;
        c.of = (~(a ^ b) & (a ^ r)) >> (8 * n - 1) & 1;
        setzs(r, n);
        return r;
    };
    auto sub = [&](uint64_t a, uint64_t b, uint64_t bi, int n) {
        a &= msk(n);
        b &= msk(n);
        uint64_t r = (a - b - bi) & msk(n);
        c.cf = (unsigned __int128)a < (unsigned __int128)b + bi;
        c.of = ((a ^ b) & (a ^ r)) >> (8 * n - 1) & 1;
        setzs(r, n);
        return r;
    };
    auto push = [&](uint64_t v) {
        c.r[RSP] -= 8;
        wrm(c.r[RSP], 8, v);
    };
    int64_t next = c.ip + 1;
    auto go = [&](uint64_t a) -> int64_t {
        if (a < text_base || a >= text_base + 8 * code.size() || (a & 7)) throw EmuFault{"crash", "jump to a non-code address"};
        return (int64_t)((a - text_base) / 8);
    };
    switch (I.op) {
        case I_NOP: case I_CLD: break;
        case I_UD: throw EmuFault{"crash", "trap instruction"};
        case I_MOV: put(I.o[1], sz, get(I.o[0], sz)); break;
        case I_MOVSX: put(I.o[1], sz, (uint64_t)sx(get(I.o[0], I.sz2), I.sz2)); break;
        case I_MOVZX: put(I.o[1], sz, get(I.o[0], I.sz2)); break;
        case I_ADD: { uint64_t a = get(I.o[1], sz); put(I.o[1], sz, add(a, get(I.o[0], sz), 0, sz)); break; }
        case I_ADC: { uint64_t a = get(I.o[1], sz); put(I.o[1], sz, add(a, get(I.o[0], sz), c.cf, sz)); break; }
        case I_SUB: { uint64_t a = get(I.o[1], sz); put(I.o[1], sz, sub(a, get(I.o[0], sz), 0, sz)); break; }
        case I_SBB: { uint64_t a = get(I.o[1], sz); put(I.o[1], sz, sub(a, get(I.o[0], sz), c.cf, sz)); break; }
        case I_CMP: sub(get(I.o[1], sz), get(I.o[0], sz), 0, sz); break;
        case I_AND: case I_OR: case I_XOR: case I_TEST: {
            uint64_t a = get(I.o[1], sz), b = get(I.o[0], sz);
            uint64_t v = I.op == I_OR ? a | b : I.op == I_XOR ? a ^ b : a & b;
            c.cf = c.of = false;
            setzs(v, sz);
            if (I.op != I_TEST) put(I.o[1], sz, v);
            break;
        }
        case I_IMUL: {
            if (I.n == 1) {
                __int128 v = (__int128)sx(c.r[RAX] & msk(sz), sz) * sx(get(I.o[0], sz), sz);
                if (sz == 1) c.r[RAX] = (c.r[RAX] & ~0xffffull) | ((uint64_t)v & 0xffff);
                else {
                    Opr a, d;
                    a.k = d.k = Opr::REG;
                    a.reg = RAX;
                    d.reg = RDX;
                    put(a, sz, (uint64_t)v);
                    put(d, sz, (uint64_t)(v >> (8 * sz)));
                }
                undef(false);
                c.cf = c.of = v != (__int128)sx((uint64_t)v & msk(sz), sz);
                break;
            }
            int64_t a = I.n == 3 ? sx(get(I.o[0], sz), sz) : sx(get(I.o[0], sz), sz);
            int64_t b = sx(get(I.o[1], sz), sz);
            __int128 v = (__int128)a * b;
            put(I.o[I.n - 1], sz, (uint64_t)v);
            undef(false);
            c.cf = c.of = v != (__int128)sx((uint64_t)v & msk(sz), sz);
            break;
        }
        case I_MUL: {
            unsigned __int128 v = (unsigned __int128)(c.r[RAX] & msk(sz)) * get(I.o[0], sz);
            if (sz == 1) c.r[RAX] = (c.r[RAX] & ~0xffffull) | ((uint64_t)v & 0xffff);
            else {
                Opr a, d;
                a.k = d.k = Opr::REG;
                a.reg = RAX;
                d.reg = RDX;
                put(a, sz, (uint64_t)v);
                put(d, sz, (uint64_t)(v >> (8 * sz)));
            }
            undef(false);
            c.cf = c.of = (v >> (8 * sz)) != 0;
            break;
        }
        case I_DIV: case I_IDIV: {
            uint64_t d = get(I.o[0], sz);
            if (d == 0) throw EmuFault{"crash", "division by zero trap"};
            uint64_t q, r;
            if (sz == 1) {
                uint16_t n = (uint16_t)c.r[RAX];
                if (I.op == I_DIV) {
                    q = n / d;
                    r = n % d;
                    if (q > 255) throw EmuFault{"crash", "divide overflow trap"};
                } else {
                    int qq = (int16_t)n / (int)(int8_t)d;
                    r = (uint64_t)((int16_t)n % (int)(int8_t)d);
                    if (qq > 127 || qq < -128) throw EmuFault{"crash", "divide overflow trap"};
                    q = (uint64_t)qq;
                }
                c.r[RAX] = (c.r[RAX] & ~0xffffull) | (q & 0xff) | ((r & 0xff) << 8);
                undef(true);
                break;
            }
            int b = 8 * sz;
            unsigned __int128 n = ((unsigned __int128)(c.r[RDX] & msk(sz)) << b) | (c.r[RAX] & msk(sz));
            if (I.op == I_DIV) {
                unsigned __int128 qq = n / d;
                if (qq >> b) throw EmuFault{"crash", "divide overflow trap"};
                q = (uint64_t)qq;
                r = (uint64_t)(n % d);
            } else {
                __int128 sn = (__int128)n;
                if (sz < 8) sn = (__int128)(int64_t)sx((uint64_t)n, 2 * sz);
                __int128 sd = sx(d, sz);
                if (sd == -1 && sn == (__int128)((unsigned __int128)1 << 127)) throw EmuFault{"crash", "divide overflow trap"};
                __int128 qq = sn / sd;
                __int128 lim = (__int128)1 << (b - 1);
                if (qq >= lim || qq < -lim) throw EmuFault{"crash", "divide overflow trap"};
                q = (uint64_t)qq;
                r = (uint64_t)(sn % sd);
            }
            Opr a, dd;
            a.k = dd.k = Opr::REG;
            a.reg = RAX;
            dd.reg = RDX;
            put(a, sz, q);
            put(dd, sz, r);
            undef(true);
            break;
        }
        case I_NEG: { uint64_t a = get(I.o[0], sz); put(I.o[0], sz, sub(0, a, 0, sz)); c.cf = a != 0; break; }
        case I_NOT: put(I.o[0], sz, ~get(I.o[0], sz)); break;
        case I_INC: { bool cf = c.cf; put(I.o[0], sz, add(get(I.o[0], sz), 1, 0, sz)); c.cf = cf; break; }
        case I_DEC: { bool cf = c.cf; put(I.o[0], sz, sub(get(I.o[0], sz), 1, 0, sz)); c.cf = cf; break; }
        case I_LEA: put(I.o[1], sz, ea(I.o[0])); break;
        case I_PUSH: {
            uint64_t v = I.o[0].k == Opr::IMM ? (uint64_t)I.o[0].imm : get(I.o[0], 8);
            push(v);
            break;
        }
        case I_POP: {
            uint64_t v = rd(c.r[RSP], 8);
            c.r[RSP] += 8;
            put(I.o[0], 8, v);
            break;
        }
        case I_XCHG: { uint64_t a = get(I.o[0], sz), b = get(I.o[1], sz); put(I.o[0], sz, b); put(I.o[1], sz, a); break; }
        case I_CLTQ: c.r[RAX] = (uint64_t)(int64_t)(int32_t)c.r[RAX]; break;
        case I_CLTD: c.r[RDX] = ((int32_t)c.r[RAX] < 0) ? 0xffffffffull : 0; break;
        case I_CQTO: c.r[RDX] = ((int64_t)c.r[RAX] < 0) ? ~0ull : 0; break;
        case I_CWTL: c.r[RAX] = (uint32_t)(int32_t)(int16_t)c.r[RAX]; break;
        case I_CBTW: c.r[RAX] = (c.r[RAX] & ~0xffffull) | (uint16_t)(int16_t)(int8_t)c.r[RAX]; break;
        case I_CWTD: c.r[RDX] = (c.r[RDX] & ~0xffffull) | (((int16_t)c.r[RAX] < 0) ? 0xffff : 0); break;
        case I_LEAVE:
            c.r[RSP] = c.r[RBP];
            c.r[RBP] = rd(c.r[RSP], 8);
            c.r[RSP] += 8;
            break;
        case I_SHL: case I_SAR: case I_SHR: case I_ROL: case I_ROR: {
            int cnt = (int)(I.o[0].k == Opr::REG ? c.r[RCX] & 0xff : (uint64_t)I.o[0].imm) & (sz == 8 ? 63 : 31);
            uint64_t a = get(I.o[1], sz);
            if (cnt == 0) {
                put(I.o[1], sz, a);
                break;
            }
            int b = 8 * sz;
            uint64_t v;
            if (I.op == I_SHL) {
                v = cnt >= b ? 0 : a << cnt;
                c.cf = cnt <= b ? (a >> (b - cnt)) & 1 : false;
                setzs(v, sz);
            } else if (I.op == I_SHR) {
                v = cnt >= b ? 0 : a >> cnt;
                c.cf = cnt <= b ? (a >> (cnt - 1)) & 1 : false;
                setzs(v, sz);
            } else if (I.op == I_SAR) {
                int64_t s = sx(a, sz);
                v = (uint64_t)(s >> (cnt > 63 ? 63 : cnt));
                c.cf = (s >> (cnt - 1)) & 1;
                setzs(v, sz);
            } else {
                int k = cnt % b;
                if (I.op == I_ROR) k = (b - k) % b;
                v = k ? ((a << k) | (a >> (b - k))) : a;
                c.cf = v & 1;
            }
            c.of = hash2(steps, 77) & 1;
            put(I.o[1], sz, v & msk(sz));
            break;
        }
        case I_SETCC: put(I.o[0], 1, cond(c, I.cc)); break;
        case I_CMOV: {
            uint64_t v = get(I.o[0], sz);
            uint64_t d = get(I.o[1], sz);
            put(I.o[1], sz, cond(c, I.cc) ? v : d);
            break;
        }
        case I_JCC:
            if (cond(c, I.cc)) next = go((uint64_t)I.o[0].imm);
            break;
        case I_JMP: {
            uint64_t a = I.o[0].k == Opr::REG ? c.r[I.o[0].reg] : I.o[0].star ? rd(ea(I.o[0]), 8) : (uint64_t)I.o[0].imm;
            next = go(a);
            break;
        }
        case I_CALL: {
            uint64_t a = I.o[0].k == Opr::REG ? c.r[I.o[0].reg] : I.o[0].star ? rd(ea(I.o[0]), 8) : (uint64_t)I.o[0].imm;
            if ((c.r[RSP] & 15) != 0) breach("calls with a misaligned stack pointer (" + where(c.ip) + ")");
            push(addr_of_ip(next));
            calls++;
            if (a >= ext_addr(0) && a < ext_addr((int)exts.size()) && ((a - ext_addr(0)) & 15) == 0) {
                ext_calls++;
                c.ip = next;
                uint64_t sp = c.r[RSP];
                env->ext_call(*this, c, (int)((a - ext_addr(0)) / 16));
                c.r[RSP] = sp + 8;
                c.ip = next;
                return true;
            }
            next = go(a);
            Shadow s;
            s.sp = c.r[RSP];
            s.ret = addr_of_ip(c.ip + 1);
            memcpy(s.saved, c.r, sizeof s.saved);
            s.fn = (int)next;
            sh.push_back(s);
            if (sh.size() > 4000) throw EmuFault{"runaway", "unbounded recursion"};
            break;
        }
        case I_RET: {
            uint64_t sp = c.r[RSP];
            uint64_t a = rd(sp, 8);
            c.r[RSP] += 8;
            if (sh.empty()) throw EmuFault{"crash", "return without call"};
            Shadow s = sh.back();
            if (sp != s.sp) throw EmuFault{"abi", "returns with an unbalanced stack pointer (" + where(c.ip) + ")"};
            if (a != s.ret) throw EmuFault{"abi", "return address was overwritten (" + where(c.ip) + ")"};
            static const int cs[] = {RBX, RBP, R12, R13, R14, R15};
            for (int k : cs)
                if (c.r[k] != s.saved[k]) breach(std::string("does not preserve %") + R64[k] + " (function returning at " + where(c.ip) + ")");
            sh.pop_back();
            if (a == SENTINEL) {
                c.ip = -1;
                return false;
            }
            next = go(a);
            break;
        }
    }
    c.ip = next;
    if (want_step) env->on_step(*this, c);
    return true;
}
void Emu::run_to_sentinel(Cpu& c, size_t depth) {
    while (true) {
        bool more = step(c);
        if (!more) {
            if (sh.size() != depth) throw EmuFault{"abi", "unbalanced calls"};
            return;
        }
    }
}
uint64_t Emu::call(Cpu& c, uint64_t fn, const std::vector<uint64_t>& args, uint64_t es) {
    Pending p = begin_call(c, fn, args, es);
    run_to_sentinel(c, p.depth);
    return end_call(c, p);
}
Emu::Pending Emu::begin_call(Cpu& c, uint64_t fn, const std::vector<uint64_t>& args, uint64_t es) {
    static const int ar[] = {RDI, RSI, RDX, RCX, R8, R9};
    // environment frame: garbage in everything the convention leaves open
    Rng q(es);
    Pending p;
    p.sp0 = c.r[RSP];
    for (int i : {RAX, RCX, RDX, RSI, RDI, R8, R9, R10, R11}) c.r[i] = q.next();
    for (int i : {RBX, RBP, R12, R13, R14, R15}) c.r[i] = q.chance(30) ? q.below(100) : q.next();
    c.cf = q.next() & 1;
    c.zf = q.next() & 1;
    c.sf = q.next() & 1;
    c.of = q.next() & 1;
    c.pf = q.next() & 1;
    uint64_t sp = c.r[RSP] - 8 * q.below(16);
    size_t ns = args.size() > 6 ? args.size() - 6 : 0;
    sp &= ~15ull;
    sp -= 64;   // guard words of the environment's own frame
    for (int i = 0; i < 8; i++) {
        uint64_t v = q.next();
        p.guard.push_back(v);
        wrm(sp + 8 * (uint64_t)i, 8, v);
    }
    p.gsp = sp;
    if (ns & 1) {
        sp -= 8;
        wrm(sp, 8, q.next());
    }
    sp -= 8 * ns;
    for (size_t i = 0; i < args.size(); i++) {
        if (i < 6) c.r[ar[i]] = args[i];
        else wrm(sp + 8 * (i - 6), 8, args[i]);
    }
    garbage(sp - 4096, 4096 - 8, q.next());
    p.sp = sp;
    c.r[RSP] = sp - 8;
    wrm(c.r[RSP], 8, SENTINEL);
    Shadow s;
    s.sp = c.r[RSP];
    s.ret = SENTINEL;
    memcpy(s.saved, c.r, sizeof s.saved);
    if (fn < text_base || fn >= text_base + 8 * code.size() || (fn & 7)) throw EmuFault{"crash", "environment calls a non-function"};
    c.ip = (int64_t)((fn - text_base) / 8);
    s.fn = (int)c.ip;
    p.depth = sh.size();
    sh.push_back(s);
    return p;
}
uint64_t Emu::end_call(Cpu& c, Pending& p) {
    if (sh.size() != p.depth) throw EmuFault{"abi", "unbalanced calls"};
    if (c.r[RSP] != p.sp) breach("stack pointer not restored on return to the environment");
    for (int i = 0; i < 8; i++)
        if (rd(p.gsp + 8 * (uint64_t)i, 8) != p.guard[(size_t)i]) {
            breach("caller's frame was overwritten");
            break;
        }
    c.r[RSP] = p.sp0;
    return c.r[RAX];
}
