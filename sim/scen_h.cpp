// Scenarios C01-C07: the real compiler as simulated processes on a simulated host.
#include <algorithm>
#include <cstring>
#include <memory>
#include <unordered_map>
#include "case.h"

extern const char* const corpus[];
extern const int corpus_n;

// ------------------------------------------------------------------ sources
static std::string rname(Rng& r, size_t n) {
    static const char f[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", g[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    std::string s(1, f[r.below(sizeof f - 1)]);
    while (s.size() < n) s += g[r.below(sizeof g - 1)];
    return s;
}
static size_t rlen(Rng& r) {
    static const size_t e[] = {15, 31, 32, 47, 48, 49, 50, 51, 63, 64, 90, 127, 128, 150, 180, 190, 199, 200, 201, 255, 256, 300, 511, 1000, 3000};
    return r.chance(50) ? e[r.below(25)] : 1 + r.below(400);
}
static std::string I(int64_t v) { return std::to_string(v); }
// valid sources that strain one dimension of the compiler
static std::string stress(uint64_t seed) {
    Rng r(seed);
    std::string o;
    int kind = (int)r.below(24);
    uint64_t B = r.chance(6) ? 8 : 1;   // now and then beyond three and four digit counts
    switch (kind) {
        case 0: {   // long names everywhere
            std::string f = rname(r, rlen(r)), g = rname(r, rlen(r)), a = rname(r, rlen(r)), v = rname(r, rlen(r));
            o = "int " + g + ";\nint " + g + "x(int " + a + ") {\n    int " + v + " = " + a + " + " + g + ";\n    " + g + " = " + v + ";\n    return " + v + ";\n}\n";
            o += "int " + f + "q(int b) {\n    return " + g + "x(b) + " + g + "x(1);\n}\n";
            break;
        }
        case 1: {   // long tags, members, typedef and enum names
            std::string t = rname(r, rlen(r)), m = rname(r, rlen(r)), d = rname(r, rlen(r)) + "d", e = rname(r, rlen(r)) + "e";
            o = "struct " + t + " { int " + m + "; long z; };\ntypedef struct " + t + " " + d + ";\nenum E { " + e + ", B };\n";
            o += "int f(" + d + " *p) {\n    p->" + m + " = " + e + ";\n    return p->" + m + " + B;\n}\n";
            break;
        }
        case 2: {   // long string literals
            size_t n = rlen(r) * (1 + r.below(3));
            std::string s;
            for (size_t i = 0; i < n; i++) {
                static const char* es[] = {"\\n", "\\t", "\\\\", "\\\"", "\\0", "\\x41", "\\101", "\\a", "\\v"};
                if (r.chance(10)) s += es[r.below(9)];
                else s += (char)('a' + r.below(26));
                if (s.size() >= 2 && s[s.size() - 1] == '0' && s[s.size() - 2] == '\\') s += 'z';
            }
            o = "int put(char *s);\nint f(void) {\n    return put(\"" + s + "\");\n}\n";
            if (r.chance(50)) o += "char g[" + I((int64_t)n * 2 + 4) + "] = \"" + s + "\";\n";
            break;
        }
        case 3: {   // many globals
            int n = 10 + (int)r.below(300 * B);
            for (int i = 0; i < n; i++) o += "int g" + I(i) + (r.chance(50) ? " = " + I((int64_t)r.below(1000)) : "") + ";\n";
            o += "int f(void) {\n    return g0 + g" + I(n - 1) + ";\n}\n";
            break;
        }
        case 4: {   // many functions
            int n = 5 + (int)r.below(150 * B);
            for (int i = 0; i < n; i++) o += "int f" + I(i) + "(int a) { return " + (i ? "f" + I((int64_t)r.below((uint64_t)i)) + "(a)" : std::string("a")) + " + " + I(i) + "; }\n";
            break;
        }
        case 5: {   // many locals
            int n = 5 + (int)r.below(300 * B);
            o = "int f(int a) {\n";
            for (int i = 0; i < n; i++) o += "    int v" + I(i) + " = a + " + I(i) + ";\n";
            o += "    return v0 + v" + I(n - 1) + ";\n}\n";
            break;
        }
        case 6: {   // many parameters
            int n = 1 + (int)r.below(40);
            o = "int h(";
            for (int i = 0; i < n; i++) o += (i ? ", int b" : "int b") + I(i);
            o += ") { return b0 + b" + I(n - 1) + "; }\nint f(int a) { return h(";
            for (int i = 0; i < n; i++) o += (i ? ", a" : "a");
            o += "); }\n";
            break;
        }
        case 7: {   // deep parentheses and unary chains
            int n = 1 + (int)r.below(120);
            std::string a, b;
            for (int i = 0; i < n; i++) a += r.chance(30) ? "-(" : r.chance(30) ? "~(" : "(", b += ")";
            o = "int f(int a) { return " + a + "a" + b + "; }\n";
            break;
        }
        case 8: {   // deep blocks
            int n = 1 + (int)r.below(80);
            o = "int f(int a) {\n    int s = 0;\n";
            for (int i = 0; i < n; i++) {
                uint64_t k = r.below(4);
                o += k == 0 ? "{ int a = s + 1;" : k == 1 ? "if (a > " + I(i) + ") {" : k == 2 ? "while (s < " + I(i) + ") { s++;" : "for (int i = 0; i < 2; i++) {";
            }
            o += " s = s + a; ";
            for (int i = 0; i < n; i++) o += "}";
            o += "\n    return s;\n}\n";
            break;
        }
        case 9: {   // long operator chains
            int n = 5 + (int)r.below(400);
            static const char* ops[] = {" + ", " - ", " * ", " & ", " | ", " ^ ", " == ", " < ", " && ", " || "};
            const char* op = ops[r.below(10)];
            o = "int f(int a, int b) { return a";
            for (int i = 0; i < n; i++) o += (r.chance(20) ? ops[r.below(10)] : op) + std::string(r.chance(50) ? "a" : "b");
            o += "; }\n";
            break;
        }
        case 10: {   // else-if chain, switch
            int n = 2 + (int)r.below(60 * B);
            o = "int f(int a) {\n";
            if (r.chance(50)) {
                for (int i = 0; i < n; i++) o += (i ? "    else if (a == " : "    if (a == ") + I(i) + ") a = " + I(i * 3) + ";\n";
                o += "    else a = 1;\n";
            } else {
                o += "    switch (a) {\n";
                for (int i = 0; i < n; i++) o += "    case " + I(i) + ": a = a + " + I(i) + ";" + (r.chance(60) ? " break;" : "") + "\n";
                o += "    default: a = 7;\n    }\n";
            }
            o += "    return a;\n}\n";
            break;
        }
        case 11: {   // pointers to pointers
            int n = 1 + (int)r.below(20);
            o = "int f(int ";
            for (int i = 0; i < n; i++) o += "*";
            o += "p) { return ";
            for (int i = 0; i < n; i++) o += "*";
            o += "p; }\n";
            break;
        }
        case 12: {   // big arrays and frames
            static const int64_t e[] = {1, 2, 100, 127, 128, 1000, 4096, 100000, 1000000};
            o = "int g[" + I(e[r.below(9)]) + "];\nint f(int a) {\n    int b[" + I(e[r.below(9)]) + "];\n    b[0] = a;\n    g[0] = b[0];\n    return b[0];\n}\n";
            break;
        }
        case 13: {   // nested structures
            int n = 1 + (int)r.below(12);
            o = "struct S0 { int a; char c; };\n";
            for (int i = 1; i <= n; i++) o += "struct S" + I(i) + " { char c" + I(i) + "; struct S" + I(i - 1) + " s; long l; };\n";
            o += "int f(struct S" + I(n) + " *p) { return p->";
            for (int i = 0; i < n; i++) o += "s.";
            o += "a; }\nstruct S" + I(n) + " g;\n";
            break;
        }
        case 14: {   // many members
            int n = 2 + (int)r.below(150 * B);
            o = "struct S {\n";
            for (int i = 0; i < n; i++) o += (r.chance(30) ? "    char m" : r.chance(30) ? "    long m" : "    int m") + I(i) + ";\n";
            o += "};\nstruct S g;\nint f(void) { g.m0 = 1; g.m" + I(n - 1) + " = 2; return g.m0; }\n";
            break;
        }
        case 15: {   // big initialisers
            int n = 2 + (int)r.below(300 * B);
            std::string l;
            for (int i = 0; i < n; i++) l += (i ? ", " : "") + I((int64_t)r.below(100));
            o = "int g[" + I(n) + "] = {" + l + "};\nint f(int a) {\n    int b[" + I(n) + "] = {" + l + "};\n    return b[a] + g[a];\n}\n";
            break;
        }
        case 16: {   // many string literals
            int n = 2 + (int)r.below(150 * B);
            o = "int put(char *s);\nint f(void) {\n";
            for (int i = 0; i < n; i++) o += "    put(\"s" + I((int64_t)r.below(r.chance(80) ? 2000 : 20)) + "\");\n";
            o += "    return 0;\n}\n";
            break;
        }
        case 17: {   // nested calls
            int n = 1 + (int)r.below(30);
            o = "int h(int a, int b) { return a - b; }\nint f(int a) { return ";
            for (int i = 0; i < n; i++) o += "h(";
            o += "a";
            for (int i = 0; i < n; i++) o += ", " + I(i) + ")";
            o += "; }\n";
            break;
        }
        case 18: {   // numbers
            static const char* ns[] = {"0", "00", "0x0", "2147483647", "0x7fffffff", "017777777777", "4294967295u", "9223372036854775807", "18446744073709551615ul", "0xffffffffffffffffull", "'a'", "'\\\\'", "'\\''", "'\\x7f'", "'\\177'", "'\"'", "1L", "1LL", "1Ul"};
            o = "long f(int a) {\n    long v = 0;\n";
            for (int i = 0; i < 12; i++) o += "    v = v + " + std::string(ns[r.below(19)]) + ";\n";
            o += "    return v;\n}\n";
            break;
        }
        case 20: {   // many labels
            int nf = 1 + (int)r.below(12 * B), l = 0;
            for (int k = 0; k < nf; k++) {
                o += "int f" + I(k) + "(int a) {\n";
                int n = 1 + (int)r.below(24);
                for (int i = 0; i < n; i++, l++) {
                    static const char* st[] = {"if (a > 3) a = a - 1;", "while (a < 2) a++;", "a = a && a > 2;", "for (; a < 1;) a++;", "a = a ? 1 : 3;", "if (a) { a = 2; } else { a = 3; }"};
                    o += std::string("    ") + st[r.below(6)] + "\n";
                }
                o += "    return a;\n}\n";
            }
            break;
        }
        case 21: {   // many tags and typedef names, in nested scopes too
            int n = 2 + (int)r.below(60 * B);
            for (int i = 0; i < n; i++) o += r.chance(50) ? "struct T" + I(i) + " { int a; struct T" + I(i) + " *p; };\n" : "typedef struct T" + I(i) + " { char c; long l; } D" + I(i) + ";\n";
            o += "int f(int a) {\n";
            for (int i = 0; i < 8; i++) o += "    struct T" + I((int64_t)r.below((uint64_t)n)) + " v" + I(i) + "; { struct U" + I(i) + " { int x" + I(i) + "; } u; u.x" + I(i) + " = a; a = u.x" + I(i) + "; }\n";
            o += "    return a;\n}\n";
            break;
        }
        case 22: {   // the same name declared again in every scope
            int n = 1 + (int)r.below(40 * B);
            o = "int x = 1;\nint f(int a) {\n";
            for (int i = 0; i < n; i++) o += r.chance(70) ? "    { int x = a; a = x + 1; }\n" : "    { int y = x; { int x = y; { char x = 3; a = a + x; } a = a - x; } }\n";
            o += "    return a + x;\n}\n";
            break;
        }
        case 23: {   // one long line, one token per line, much white space
            int n = 1 + (int)r.below(200 * B);
            std::string w = r.chance(50) ? "\n" : r.chance(50) ? " " : "\t\n  ";
            o = "int" + w + "f(" + w + "int" + w + "a" + w + ")" + w + "{";
            for (int i = 0; i < n; i++) o += w + "a" + w + "=" + w + "a" + w + "+" + w + I(i) + w + ";";
            o += "return a;}" + w;
            break;
        }
        default: {   // many enumerators, typedef chains
            int n = 1 + (int)r.below(150 * B);
            o = "enum E { ";
            for (int i = 0; i < n; i++) o += (i ? ", K" : "K") + I(i) + (r.chance(10) ? " = " + I((int64_t)r.below(1000)) : "");
            o += " };\ntypedef int T0;\n";
            int m = 1 + (int)r.below(40);
            for (int i = 1; i <= m; i++) o += "typedef T" + I(i - 1) + " T" + I(i) + ";\n";
            o += "T" + I(m) + " f(T0 a) { return a + K" + I(n - 1) + "; }\n";
        }
    }
    return o;
}
static std::vector<std::string> tokens(const std::string& s) {
    std::vector<std::string> t;
    for (size_t i = 0; i < s.size();) {
        size_t j = i + 1;
        unsigned char c = (unsigned char)s[i];
        if (isalnum(c) || c == '_')
            while (j < s.size() && (isalnum((unsigned char)s[j]) || s[j] == '_')) j++;
        else if (c == '"' || c == '\'') {
            while (j < s.size() && (unsigned char)s[j] != c && s[j] != '\n') j += s[j] == '\\' ? 2 : 1;
            j = std::min(s.size(), j + 1);
        } else if (isspace(c))
            while (j < s.size() && isspace((unsigned char)s[j])) j++;
        else if (j < s.size() && strchr("+-<>=&|", c) && (s[j] == '=' || s[j] == (char)c || (c == '-' && s[j] == '>')))
            j++;
        t.push_back(s.substr(i, j - i));
        i = j;
    }
    return t;
}
static const char* vocab[] = {"int", "char", "long", "unsigned", "void", "struct", "enum", "typedef", "if", "else", "while", "for", "switch", "case", "default", "break",
                              "continue", "return", "sizeof", "signed", "short", "double", "float", "const", "static", "goto", "do", "union", "(", ")", "{", "}", "[", "]", ";", ",", ":",
                              "?", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<", ">", "=", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "++", "--", "->", ".", "+=", "-=",
                              "0", "1", "99999999999999999999999", "0x", "08", "1u", "'a'", "\"s\"", "x", "f", "main", "'", "\"", "''", "\\", "#", "@", "$", "`", "/*", "//", "...", "<<=", "1.5", "1e5", "'\\", "\"\\", "0xg", "1lul"};
static std::string damage1(const std::string& s, const Item& it) {
    // it.v = {kind, position permyriad, length, value}
    int64_t kind = it.v[0];
    size_t n = s.size();
    size_t pos = n ? (size_t)it.v[1] * n / 10000 : 0;
    size_t len = std::min((size_t)std::max<int64_t>(1, it.v[2]), n - std::min(n, pos));
    uint64_t val = (uint64_t)it.v[3];
    std::string o = s;
    switch (kind) {
        case 0: return s.substr(0, pos);
        case 1:
            if (n) o[std::min(pos, n - 1)] ^= (char)(1 << (val & 7));
            return o;
        case 2:
            if (n) o[std::min(pos, n - 1)] = (char)val;
            return o;
        case 3: return o.erase(pos, len);
        case 4: return o.insert(pos, s.substr(pos, len));
        case 5:
            for (size_t i = 0; i < len; i++) o[pos + i] = 0;
            return o;
        case 6: {
            size_t from = n ? val % n : 0;
            for (size_t i = 0; i < len && from + i < n; i++) o[pos + i] = s[from + i];
            return o;
        }
        case 7: {
            Rng r(val);
            std::string t;
            for (size_t i = 0; i < len && i < 64; i++) t += (char)r.next();
            return o.insert(pos, t);
        }
        case 8: {
            Rng r(val);
            for (size_t i = 0; i < len; i++) o[pos + i] = (val & 1) ? (char)0xff : (char)r.next();
            return o;
        }
        case 14:   // every line break lost, or turned into another
            for (size_t i = o.size(); i-- > 0;)
                if (o[i] == '\n') {
                    if ((val & 3) == 0) o.erase(i, 1);
                    else if ((val & 3) == 1) o[i] = ' ';
                    else if ((val & 3) == 2) o[i] = '\r';
                    else o.insert(i, "\r");
                }
            return o;
        case 15: {   // something at the very start or the very end
            const char* w = vocab[val % (sizeof vocab / sizeof *vocab)];
            if (val / 256 % 3 == 0) return o + w;
            if (val / 256 % 3 == 1) return w + o;
            return (val & 0x10000 ? w : std::string(1, (char)(val >> 20))) + s.substr(pos, len * 4);   // and almost nothing of the rest
        }
        default: {
            std::vector<std::string> t = tokens(s);
            if (t.empty()) return o;
            size_t k = std::min(t.size() - 1, (size_t)it.v[1] * t.size() / 10000);
            while (k + 1 < t.size() && isspace((unsigned char)t[k][0])) k++;
            if (kind == 9) t[k] = " ";
            else if (kind == 10) t[k] += " " + t[k];
            else if (kind == 11) std::swap(t[k], t[val % t.size()]);
            else if (kind == 12) t[k] = std::string(" ") + vocab[val % (sizeof vocab / sizeof *vocab)] + " ";
            else t[k] = std::string(" ") + t[val % t.size()] + " ";
            o.clear();
            for (auto& x : t) o += x;
            return o;
        }
    }
}
static Item rnd_damage(Rng& r) {
    int64_t kind = (int64_t)r.below(16);
    static const int64_t ls[] = {1, 2, 4, 8, 16, 32, 64, 128, 256, 512};
    return {"dmg", {kind, (int64_t)r.below(10001), r.chance(50) ? ls[r.below(10)] : 1 + (int64_t)r.below(40), (int64_t)(r.next() >> 20)}};
}
// kind: 0 generated program, 1 stress, 2 fixture, 3 generated program with a token-level fault, 4 small hand-written
static const char* hand[] = {"", "\n", "int main(void) { return 0; }", "int main(void) { return 0; }\n\n\n   \t\n", "int x;", "int f(void) {}\n", "int f(int a) { return b; }\n", "int f(int a) { return a }\n",
                             "int f(int a) { int *p = a; return *p; }\n", "garbage", "int f(void) { return g(1); }\n", "struct S { int a; }; int f(struct S *s) { return s->b; }\n", "int f(int a { return a; }\n",
                             "int f(int a) { break; return 1; }\n", "int a; int a;\n", "int f(void) { return 'ab'; }\n", "int f(void) { int a = 1; a(); return a; }\n", "void f(void) { return 1 }\n"};
void plan_source(Case& c, Rng& r, const std::string& x, int kind) {
    if (kind < 0) {
        uint64_t k = r.below(100);
        kind = k < 58 ? 0 : k < 72 ? 1 : k < 84 ? 2 : k < 94 ? 3 : 4;
    }
    c.p[x + "kind"] = kind;
    if (kind == 0 || kind == 3) {
        uint64_t z = r.below(10);
        plan_gen(c, r, x + "g.", z < 4 ? 0 : z < 8 ? 1 : z < 9 ? 2 : 3);
        c.p[x + "tok"] = (int64_t)(r.next() >> 1);
    } else
        c.p[x + "sel"] = (int64_t)(r.next() >> 1);
}
std::string make_source(const Case& c, const std::string& x) {
    auto it = c.text.find(x + "text");
    if (it != c.text.end()) return it->second;
    int kind = (int)c.get(x + "kind");
    uint64_t sel = (uint64_t)c.get(x + "sel");
    if (kind == 1) return stress(sel);
    if (kind == 2) return corpus[sel % (uint64_t)corpus_n];
    if (kind == 4) return hand[sel % (sizeof hand / sizeof *hand)];
    std::unique_ptr<Prog> p(gen_prog((uint64_t)c.get(x + "g.seed"), gen_cfg(c, x + "g."), {}));
    std::string s = print_prog(*p, (uint64_t)c.get(x + "g.style"));
    if (kind == 3) {
        Rng r((uint64_t)c.get(x + "tok"));
        Item d = rnd_damage(r);
        d.v[0] = 9 + (int64_t)r.below(5);
        s = damage1(s, d);
    }
    return s;
}
// ------------------------------------------------------------------ hosts
static void plan_cfg(Case& c, Rng& r, const std::string& x) {
    c.p[x + "heap"] = (int64_t)(r.next() >> 2);
    c.p[x + "reuse"] = (int64_t)r.below(3);
    c.p[x + "fill"] = (int64_t)r.below(5);
    c.p[x + "realloc"] = (int64_t)r.below(3);
    static const int64_t bs[] = {0, 0, 1, 2, 7, 16, 64, 100, 512, 4096, 65536, -1};
    c.p[x + "rbuf"] = bs[r.below(12)];
    c.p[x + "wbuf"] = bs[r.below(12)];
    static const int64_t ch[] = {0, 0, 0, 1, 3, 16, 100, 1000};
    c.p[x + "chunk"] = ch[r.below(8)];
}
static HostCfg get_cfg(const Case& c, const std::string& x) {
    HostCfg h;
    h.heap_seed = (uint64_t)c.get(x + "heap");
    h.reuse = (int)c.get(x + "reuse");
    h.fill = (int)c.get(x + "fill");
    h.realloc_mode = (int)c.get(x + "realloc");
    h.rbuf = (int)c.get(x + "rbuf");
    h.wbuf = (int)c.get(x + "wbuf");
    h.chunk = (int)c.get(x + "chunk");
    h.step_cap = 150000000;
    return h;
}
static std::string own_s(const std::string& p) {
    std::string s = p;
    if (!s.empty()) s[s.size() - 1] = 's';
    return s;
}
struct Base {
    ProcResult r;
    bool has = false;
    std::string s;
};
static const Base& baseline(const std::string& src) {
    static std::unordered_map<std::string, Base> cache;
    auto it = cache.find(src);
    if (it != cache.end()) return it->second;
    if (cache.size() > 400) cache.clear();
    Base b;
    Disk d;
    d.put("m.c", src);
    ProcSpec ps;
    ps.argv = {"m.c"};
    ps.cfg.step_cap = 150000000;
    b.r = host_run1(d, ps);
    ST->n["host_steps"] += b.r.steps;
    ST->n["compiles"]++;
    b.has = d.has("m.s");
    b.s = d.get("m.s");
    return cache[src] = b;
}
static void note(Verdict& v, const ProcResult& r) {
    v.hu(r.trace);
    v.hu((uint64_t)r.end);
    v.hu((uint64_t)r.code);
    v.hs(r.err);
    ST->n["host_steps"] += r.steps;
    ST->n["compiles"]++;
    ST->n["syscalls"] += r.syscalls;
    ST->n["allocations"] += r.allocs;
    ST->states.insert(r.cov);
    for (int k = 1; k < F_NUM; k++)
        if (r.fired[k]) ST->n[std::string("fault_") + fault_name[k]] += (uint64_t)r.fired[k];
}
static std::vector<Fault> faults_of(const Case& c, const char* tag = "fault") {
    std::vector<Fault> f;
    for (auto& it : c.items)
        if (it.tag == tag && it.v.size() >= 4) f.push_back({(int)it.v[0], it.v[1], it.v[2], it.v[3]});
    return f;
}
static std::string fault_text(const Fault& f) {
    return std::string(fault_name[f.kind]) + "(" + std::to_string(f.a) + "," + std::to_string(f.b) + "," + std::to_string(f.c) + ")";
}
static bool input_fault(int k) { return k == F_READ_FAIL || k == F_READ_EOF || k == F_SEEK_FAIL || k == F_EINTR_READ; }
// a random file-system fault placed inside what a clean run under the same configuration does
static Item rnd_fs_fault(Rng& r, const ProcResult& dry, size_t outlen) {
    static const int errs[] = {5, 28, 122, 27, 12};   // EIO ENOSPC EDQUOT EFBIG ENOMEM
    int64_t e = errs[r.below(5)];
    auto nth = [&](uint64_t n) { return 1 + (int64_t)r.below(n + (n < 3)); };
    switch (r.below(12)) {
        case 0: return {"fault", {F_OPEN_FAIL, nth(dry.opens ? dry.opens : 1), r.chance(50) ? 13 : 24, 0}};
        case 1: case 2: return {"fault", {F_READ_FAIL, nth(dry.reads ? dry.reads : 1), 5, 0}};
        case 3: return {"fault", {F_SEEK_FAIL, nth(dry.seeks ? dry.seeks : 1), r.chance(50) ? 29 : 5, 0}};
        case 4: case 5: return {"fault", {F_WRITE_FAIL, nth(dry.writes ? dry.writes : 1), e, 0}};
        case 6: return {"fault", {F_WRITE_SHORT, nth(dry.writes ? dry.writes : 1), 1 + (int64_t)r.below(5), 0}};
        case 7: case 8: return {"fault", {F_DISK_FULL, r.chance(30) ? (int64_t)outlen - 1 - (int64_t)r.below(3) : (int64_t)r.below(outlen + 2), 0, 0}};
        case 9: case 10: return {"fault", {F_CLOSE_FAIL, nth(dry.closes ? dry.closes : 1), e, (int64_t)r.below(2)}};
        default: return {"fault", {F_EINTR_READ, nth(dry.reads ? dry.reads : 1), 4, 0}};
    }
}
static std::string others_changed(const Disk& before, const Disk& after, const std::set<std::string>& allowed) {
    for (auto& kv : before.f) {
        if (allowed.count(kv.first)) continue;
        if (!after.has(kv.first)) return kv.first + " was removed";
        if (after.get(kv.first) != kv.second->data) return kv.first + " was modified";
    }
    return "";
}
// every function the program defines must have its label in the output
static std::string labels_missing(const Case& c, const std::string& x, const std::string& s) {
    if (c.get(x + "kind") != 0 || c.text.count(x + "text")) return "";
    std::unique_ptr<Prog> p(gen_prog((uint64_t)c.get(x + "g.seed"), gen_cfg(c, x + "g."), {}));
    for (auto f : p->funcs)
        if (f->body && s.find("\n" + f->name + ":\n") == std::string::npos) return f->name;
    for (auto g : p->globals)
        if (s.compare(0, g->name.size() + 2, g->name + ":\n") != 0 && s.find("\n" + g->name + ":\n") == std::string::npos) return g->name;
    return "";
}
static const char* paths[] = {"a.c", "./a.c", "dir/a.c", "/home/u/p/a.c", "a.b.c", "x y.c", "-v.c", "c.c", "a.c.c", "a.s.c", "../up.c", "s.c", "\xc3\xa9t\xc3\xa9.c", "dir.c/a.c", "dir.s/b.c", "A.c", "_.c", "1.c", "a..c", "%s%n.c"};
static std::string mkpath(int64_t k) {
    if (k >= 1000) return std::string((size_t)(k - 1000), 'p') + ".c";
    return paths[(uint64_t)k % (sizeof paths / sizeof *paths)];
}
static int64_t rnd_path(Rng& r) { return r.chance(85) ? (int64_t)r.below(sizeof paths / sizeof *paths) : 1000 + 1 + (int64_t)r.below(r.chance(50) ? 60 : 900); }
static void mkparents(Disk& d, const std::string& p) {
    for (size_t i = 1; i < p.size(); i++)
        if (p[i] == '/' && !d.has(p.substr(0, i))) d.mkdir(p.substr(0, i));
}
static const std::string STALE = "\t.text\n\t.globl stale\nstale:\n\tret\n";

// ------------------------------------------------------------------ planning
Case plan_h(const std::string& P, uint64_t seed) {
    Case c;
    c.prop = P;
    c.seed = seed;
    Rng r(hash2(seed, 0xF00D));
    if (P == "C01") {
        plan_source(c, r, "s0.", -1);
        plan_cfg(c, r, "z.");
        c.p["z.stale"] = (int64_t)r.below(3);
        c.p["path"] = r.chance(70) ? 0 : rnd_path(r);
        std::string src = make_source(c, "s0.");
        Disk d;
        std::string pth = mkpath(c.p["path"]);
        mkparents(d, pth);
        d.put(pth, src);
        ProcSpec ps;
        ps.argv = {pth};
        ps.cfg = get_cfg(c, "z.");
        ProcResult dry = host_run1(d, ps);
        size_t ol = d.get(own_s(pth)).size();
        int n = r.chance(8) ? 0 : r.chance(70) ? 1 : 2 + (int)r.below(2);
        for (int i = 0; i < n; i++) c.items.push_back(rnd_fs_fault(r, dry, ol));
        if (r.chance(6)) c.p["noseek"] = 1;
        if (r.chance(6)) c.p["outro"] = 1 + (int64_t)r.below(2);
        if (r.chance(6)) c.p["nul"] = 1 + (int64_t)r.below(3);
    } else if (P == "C02") {
        plan_source(c, r, "s0.", r.chance(45) ? 3 : -1);
        plan_cfg(c, r, "z.");
        c.p["argv"] = r.chance(65) ? 0 : 1 + (int64_t)r.below(9);
        c.p["path"] = rnd_path(r);
        c.p["env"] = r.chance(70) ? 0 : 1 + (int64_t)r.below(6);
        c.p["z.stale"] = (int64_t)r.below(3);
        if (r.chance(45)) {
            const Base& b = baseline(make_source(c, "s0."));
            int n = 1 + (int)r.below(2);
            for (int i = 0; i < n; i++) c.items.push_back(rnd_fs_fault(r, b.r, b.s.size()));
        }
    } else if (P == "C03") {
        plan_source(c, r, "s0.", -1);
        plan_source(c, r, "s1.", -1);
        plan_cfg(c, r, "z.");
        c.p["z.stale"] = (int64_t)r.below(3);
        int n = 1 + (int)r.below(4);
        for (int i = 0; i < n; i++) {
            int64_t file = (int64_t)r.below(r.chance(70) ? 1 : 2), ver = (int64_t)r.below(r.chance(70) ? 1 : 2);
            const Base& b = baseline(make_source(c, ver ? "s1." : "s0."));
            Fault f;
            uint64_t k = r.below(10);
            if (k < 3) f = {F_KILL_STEP, 1 + (int64_t)r.below(b.r.steps + 1), 0, 0};
            else if (k < 5) f = {F_KILL_STEP, std::max<int64_t>(1, (int64_t)b.r.steps - (int64_t)r.below(std::min<uint64_t>(b.r.steps, 4000) + 1)), 0, 0};   // around emission
            else if (k < 9) f = {F_KILL_SYS, 1 + (int64_t)r.below(b.r.syscalls + 6), (int64_t)r.below(2), 0};
            else {
                Item it = rnd_fs_fault(r, b.r, b.s.size());
                f = {(int)it.v[0], it.v[1], it.v[2], it.v[3]};
            }
            c.items.push_back({"attempt", {file, ver, f.kind, f.a, f.b, f.c, (int64_t)r.below(64)}});
        }
        c.p["final"] = (int64_t)r.below(2);
    } else if (P == "C04") {
        int n = r.chance(45) ? 1 : 2 + (int)r.below(3);
        c.p["procs"] = n;
        for (int i = 0; i < n; i++) {
            std::string x = "s" + I(i) + ".";
            plan_source(c, r, x, -1);
            plan_cfg(c, r, "z." + I(i) + ".");
            c.p["path" + I(i)] = rnd_path(r);
        }
        c.p["same"] = n > 1 && r.chance(12);   // two compiles of one file at the same time
        c.p["z.stale"] = (int64_t)r.below(4);
        if (n > 1) {
            int k = 2 + (int)r.below(r.chance(50) ? 10 : 60);
            uint64_t tot = 0;
            for (int i = 0; i < n; i++) tot += baseline(make_source(c, "s" + I(i) + ".")).r.steps;
            for (int i = 0; i < k; i++) c.items.push_back({"sched", {(int64_t)r.below((uint64_t)n), 1 + (int64_t)r.below(r.chance(30) ? 50 : 1 + 2 * tot / (uint64_t)k)}});
        }
        int h = (int)r.below(3);
        for (int i = 0; i < h; i++) c.items.push_back({"earlier", {(int64_t)r.below((uint64_t)n), (int64_t)r.below(3)}});
    } else if (P == "C05") {
        plan_source(c, r, "s0.", -1);
        plan_cfg(c, r, "z.");
        c.p["z.stale"] = (int64_t)r.below(3);
        const Base& b = baseline(make_source(c, "s0."));
        uint64_t n = std::max<uint64_t>(1, b.r.allocs);
        uint64_t k = r.below(10);
        int64_t pos = r.chance(35) ? 1 + (int64_t)r.below(std::min<uint64_t>(n, 40)) : r.chance(40) ? (int64_t)(n - r.below(std::min<uint64_t>(n, 300))) : 1 + (int64_t)r.below(n);
        if (k < 6) {
            c.items.push_back({"fault", {F_ALLOC_NTH, pos, 0, 0}});
            if (r.chance(25)) c.items.push_back({"fault", {F_ALLOC_NTH, 1 + (int64_t)r.below(n), 0, 0}});
        } else if (k < 8)
            c.items.push_back({"fault", {F_ALLOC_FROM, pos, 0, 0}});
        else
            c.items.push_back({"fault", {F_ALLOC_BIG, (int64_t)r.below(r.chance(50) ? 300 : 5000), 0, 0}});
    } else if (P == "C06") {
        int k = (int)r.below(10);
        plan_source(c, r, "s0.", k < 6 ? 0 : k < 8 ? 2 : 1);
        plan_cfg(c, r, "z.");
        int n = r.chance(65) ? 1 : 2 + (int)r.below(3);
        for (int i = 0; i < n; i++) c.items.push_back(rnd_damage(r));
    } else if (P == "C07") {
        int k = (int)r.below(10);
        plan_source(c, r, "s0.", k < 4 ? 1 : k < 7 ? 0 : k < 8 ? 2 : k < 9 ? 3 : 4);
        plan_cfg(c, r, "z.a.");
        plan_cfg(c, r, "z.b.");
        if (r.chance(35)) {
            int n = 1 + (int)r.below(2);
            for (int i = 0; i < n; i++) c.items.push_back(rnd_damage(r));
        }
    }
    return c;
}
// ------------------------------------------------------------------ running
// Work and memory are proportional to the number of elements of initialised arrays, so a source may legitimately ask for
// more than the budget of a simulated run; running out of budget is then not judged.
static bool beyond_budget(const std::string& src, const ProcResult& r) {
    if (r.end != E_HANG && r.end != E_MEMHOG) return false;
    double a = 1, b = 1;   // the two largest array sizes
    for (size_t i = 0; i < src.size(); i++)
        if (src[i] == '[') {
            while (i + 1 < src.size() && (isspace((unsigned char)src[i + 1]) || src[i + 1] == '(')) i++;
            double n = (double)strtoull(src.c_str() + i + 1, nullptr, 0);
            if (n > a) b = a, a = n;
            else if (n > b) b = n;
        }
    if (a * b < 50000) return false;
    ST->n["beyond_budget"]++;
    return true;
}
std::string damaged(const Case& c) {
    std::string s = make_source(c, "s0.");
    for (auto& it : c.items)
        if (it.tag == "dmg" && it.v.size() >= 4) s = damage1(s, it);
    return s;
}
static Verdict run_c01(const Case& c, bool alloc) {
    Verdict v;
    std::string src = make_source(c, "s0.");
    // a null character, and behind it text that no compiler may accept: success means that it was not read
    static const char* bad[] = {"int 5 = }{ ;\n", ")\n", "int nul_tail(void) { return (; }\n"};
    int nul = (int)c.get("nul");
    if (nul) src += std::string(1, 0) + bad[(nul - 1) % 3];
    const Base b = baseline(src);
    Disk d;
    std::string path = mkpath(c.get("path")), out = own_s(path);
    mkparents(d, path);
    d.put(path, src);
    if (c.get("noseek")) d.at(path)->seekable = false;
    int stale = (int)c.get("z.stale");
    if (stale == 1) d.put(out, STALE);
    if (stale == 2) d.put(out, b.s + STALE + b.s);   // longer than the new one
    if (c.get("outro") == 1 && d.has(out)) d.at(out)->ro = true;
    if (c.get("outro") == 2 && out != path) {
        d.f.erase(Disk::norm(out));
        d.mkdir(out);
    }
    d.put("keep.txt", "precious");
    d.put("other.s", STALE);
    d.put("other.c", "int other;\n");
    Disk before = d.clone();
    ProcSpec ps;
    ps.argv = {path};
    ps.cfg = get_cfg(c, "z.");
    ps.faults = faults_of(c);
    ProcResult r = host_run1(d, ps);
    note(v, r);
    v.hs(d.get(out));
    uint64_t fired = 0;
    for (int k = 1; k < F_NUM; k++) fired += (uint64_t)r.fired[k];
    if (c.get("noseek")) ST->n["fault_unseekable_input"]++, fired++;
    if (c.get("outro")) ST->n["fault_output_not_writable"]++, fired++;
    if (fired) ST->distinct.insert(r.trace);
    ST->n[r.end == E_EXIT ? (r.code == 0 ? "end_exit0" : "end_exit1") : r.end == E_SIGNAL ? "end_signal" : "end_other"]++;
    for (auto& f : ps.faults) v.trace += "fault " + fault_text(f) + "\n";
    v.trace += "compiling " + path + ": " + r.describe() + ", stderr: " + hexs(r.err) + "\nsource (" + std::to_string(src.size()) + " bytes):\n" + src + "\n";
    if (r.end == E_EXIT && r.code == 0) {
        if (!d.has(out)) v.fail("false success", "exit status 0 but no " + out);
        else if (nul) v.fail("false success", "exit status 0 although the text behind a null character is not acceptable: the source was not read entirely");
        else if (b.r.end == E_EXIT && b.r.code != 0)
            v.fail("false success", "exit status 0 for a source that is rejected without faults");
        else if (b.r.end == E_EXIT && d.get(out) != b.s) {
            const std::string& g = d.get(out);
            v.fail("false success", "exit status 0 but " + out + " has " + std::to_string(g.size()) + " bytes that are not the complete translation (" + std::to_string(b.s.size()) + " bytes)");
        } else if (!alloc && b.r.end == E_EXIT) {
            std::string m = labels_missing(c, "s0.", d.get(out));
            if (!m.empty()) v.fail("incomplete translation", "exit status 0 but " + out + " lacks the definition of " + m);
        }
    }
    if (alloc) {
        if ((r.end == E_HANG || r.end == E_MEMHOG) && !beyond_budget(src, r)) v.fail("does not end", "after a failed allocation the compiler " + r.describe());
        std::string ch = others_changed(before, d, {out});
        if (!ch.empty()) v.fail("damages other files", ch);
        if (d.get(path) != src) v.fail("damages other files", "the source was modified");
    }
    return v;
}
static Verdict run_c02(const Case& c) {
    Verdict v;
    std::string src = make_source(c, "s0.");
    const Base b = baseline(src);
    std::string path = mkpath(c.get("path"));
    Disk d;
    mkparents(d, path);
    int env = (int)c.get("env"), av = (int)c.get("argv");
    std::string arg = path;
    switch (av) {
        case 3: arg = path.substr(0, path.size() - 2); break;                     // no extension
        case 4: arg = path.substr(0, path.size() - 2) + ".txt"; break;
        case 5: arg = path.substr(0, path.size() - 2) + ".s"; break;
        case 6: arg = path + "c"; break;
        case 7: arg = path.substr(0, path.size() - 2) + ".C"; break;
        case 8: arg = path.substr(0, path.size() - 2) + "c"; break;               // ends in c, no dot
        case 9: arg = path + "."; break;
        default: break;
    }
    std::string out = own_s(arg);
    std::string stem = path.substr(0, path.size() - 2);
    for (const char* n : {"a.s", "a.o", "b.c", "b.s", "a", "s", "keep.txt", "m.s"}) d.put(n, std::string("content of ") + n + "\n");
    for (const char* e : {".o", "", ".h", ".cs", ".ss", "s", ".S", ".c~"}) d.put(stem + e, std::string("content ") + e + "\n");
    if (arg != stem) d.put(stem + ".s", STALE);
    int stale = (int)c.get("z.stale");
    bool src_ok = true;
    d.put(arg, src);
    if (env == 1) d.f.erase(Disk::norm(arg)), src_ok = false;
    if (env == 2) d.f.erase(Disk::norm(arg)), d.mkdir(arg), src_ok = false;
    if (env == 3) d.at(arg)->unreadable = true, src_ok = false;
    bool endc = arg.size() >= 2 && arg.compare(arg.size() - 2, 2, ".c") == 0;
    if (out != arg) {
        if (stale == 0) d.f.erase(Disk::norm(out));
        if (stale == 1) d.put(out, STALE);
        if (stale == 2) d.put(out, STALE + STALE);
        if (env == 4 && d.has(out)) d.at(out)->ro = true;
        if (env == 5) d.f.erase(Disk::norm(out)), d.mkdir(out);
    }
    bool output_blocked = out != arg && ((env == 4 && d.has(out)) || env == 5);
    if (env == 6 && d.has(arg) && arg != stem) d.at(arg)->ro = true;
    Disk before = d.clone();
    ProcSpec ps;
    ps.argv = {arg};
    bool argc_ok = true;
    if (av == 1) ps.argv = {}, argc_ok = false;
    if (av == 2) ps.argv = {arg, arg}, argc_ok = false;
    ps.cfg = get_cfg(c, "z.");
    ps.faults = faults_of(c);
    ProcResult r = host_run1(d, ps);
    note(v, r);
    v.hs(d.get(out));
    std::string al;
    for (auto& s : ps.argv) al += " " + s;
    v.trace = "umlcc" + al + ": " + r.describe() + ", stderr: " + hexs(r.err) + "\n";
    for (auto& f : ps.faults) v.trace += "fault " + fault_text(f) + "\n";
    v.trace += "source:\n" + src + "\n";
    bool in_only = true, fired = false;
    for (int k = 1; k < F_NUM; k++)
        if (r.fired[k]) {
            fired = true;
            if (!input_fault(k)) in_only = false;
        }
    ST->n[r.end == E_EXIT ? (r.code == 0 ? "end_exit0" : "end_exit1") : "end_other"]++;
    if (r.end == E_EXIT && r.code == 1) ST->distinct.insert(r.trace);
    if (beyond_budget(src, r)) {
        v.skip = true;
        return v;
    }
    if (r.end != E_EXIT) v.fail("no orderly end", "the compiler " + r.describe() + " instead of reporting an error");
    else if (r.code != 0 && r.code != 1)
        v.fail("wrong exit status", r.describe());
    else if (r.code == 1 && r.err.empty())
        v.fail("silent failure", "exit status 1 without a diagnostic");
    std::set<std::string> allowed;
    bool refused = !argc_ok || !src_ok || !endc || (b.r.end == E_EXIT && b.r.code != 0);
    if (argc_ok && endc) allowed.insert(Disk::norm(out));
    std::string ch = others_changed(before, d, allowed);
    if (!ch.empty()) v.fail("touches other files", ch);
    if (r.end == E_EXIT && r.code == 0 && (!argc_ok || !src_ok || !endc)) v.fail("false success", "exit status 0 for an impossible request");
    if (r.end == E_EXIT && r.code == 0 && !fired && b.r.end == E_EXIT && b.r.code != 0) v.fail("false success", "exit status 0 for a rejected source");
    if (r.end == E_EXIT && r.code == 0 && !fired && output_blocked) v.fail("false success", "exit status 0 although the output cannot be written");
    if (r.end == E_EXIT && r.code != 0 && out != arg && (refused || (fired && in_only))) {
        if (before.has(out) != d.has(out) || before.get(out) != d.get(out))
            v.fail("refused compile touches the existing .s", out + (before.has(out) ? " had " + std::to_string(before.get(out).size()) + " bytes, now " : " did not exist, now ") + (d.has(out) ? std::to_string(d.get(out).size()) + " bytes" : "it is gone"));
    }
    return v;
}
static Verdict run_c03(const Case& c) {
    Verdict v;
    std::string s[2] = {make_source(c, "s0."), make_source(c, "s1.")};
    const Base b0 = baseline(s[0]), b1 = baseline(s[1]);
    const Base* bs[2] = {&b0, &b1};
    for (auto b : bs)
        if (b->r.end != E_EXIT) {
            v.skip = true;
            return v;
        }
    Disk d;
    std::string fn[2] = {"a.c", "b.c"};
    int cur[2] = {0, 1};
    d.put(fn[0], s[0]);
    d.put(fn[1], s[1]);
    int stale = (int)c.get("z.stale");
    if (stale) d.put("a.s", stale == 1 ? STALE : b0.s + STALE + b1.s);
    d.put("keep.txt", "precious");
    d.put("lib.s", STALE);
    uint64_t killed = 0;
    for (auto& it : c.items) {
        if (it.tag != "attempt" || it.v.size() < 7) continue;
        int f = it.v[0] ? 1 : 0, ver = it.v[1] ? 1 : 0;
        if (d.get(fn[f]) != s[ver]) d.put(fn[f], s[ver]);   // edited between two compiles
        cur[f] = ver;
        Disk before = d.clone();
        ProcSpec ps;
        ps.argv = {fn[f]};
        ps.cfg = get_cfg(c, "z.");
        ps.cfg.heap_seed ^= (uint64_t)it.v[6];
        ps.faults = {{(int)it.v[2], it.v[3], it.v[4], it.v[5]}};
        ProcResult r = host_run1(d, ps);
        note(v, r);
        if (r.end == E_KILLED) killed++, ST->n["killed"]++;
        v.trace += "compile " + fn[f] + " with " + fault_text(ps.faults[0]) + ": " + r.describe() + " after " + std::to_string(r.steps) + " steps, " + std::to_string(r.syscalls) + " system calls\n";
        std::string ch = others_changed(before, d, {own_s(fn[f])});
        if (!ch.empty()) v.fail("killed compile damages files", ch);
    }
    if (killed) ST->distinct.insert(v.hash);
    for (int f = 0; f < 2; f++) {
        if (f == 1 && !c.get("final")) break;
        const Base& b = *bs[cur[f]];
        Disk before = d.clone();
        ProcSpec ps;
        ps.argv = {fn[f]};
        ps.cfg = get_cfg(c, "z.");
        ProcResult r = host_run1(d, ps);
        note(v, r);
        std::string o = own_s(fn[f]);
        v.hs(d.get(o));
        v.trace += "undisturbed compile of " + fn[f] + ": " + r.describe() + ", stderr: " + hexs(r.err) + "\n";
        if (r.end != E_EXIT || r.code != b.r.code) v.fail("recompile after a kill fails", fn[f] + ": " + r.describe() + " instead of " + b.r.describe());
        else if (r.code == 0 && d.get(o) != b.s)
            v.fail("recompile after a kill gives another .s", o + " has " + std::to_string(d.get(o).size()) + " bytes instead of " + std::to_string(b.s.size()));
        else if (r.code == 1 && before.get(o) != d.get(o))
            v.fail("refused recompile touches the .s", o);
        std::string ch = others_changed(before, d, {o});
        if (!ch.empty()) v.fail("recompile damages files", ch);
    }
    if (v.viol) v.trace += "source of a.c:\n" + s[cur[0]] + "\nsource of b.c:\n" + s[cur[1]] + "\n";
    return v;
}
static Verdict run_c04(const Case& c) {
    Verdict v;
    int n = (int)c.get("procs", 1);
    std::vector<std::string> src, path;
    std::vector<Base> base;
    Disk d;
    for (int i = 0; i < n; i++) {
        src.push_back(make_source(c, "s" + I(i) + "."));
        path.push_back(mkpath(c.get("path" + I(i))));
        if (i > 0 && c.get("same") && i == 1) src[1] = src[0], path[1] = path[0];
        else {
            // distinct files, distinct outputs
            for (int j = 0; j < i; j++)
                if (Disk::norm(path[(size_t)j]) == Disk::norm(path[(size_t)i]) || own_s(path[(size_t)j]) == path[(size_t)i] || own_s(path[(size_t)i]) == path[(size_t)j]) path[(size_t)i] = "q" + I(i) + ".c", j = -1;
        }
        base.push_back(baseline(src.back()));
        if (base.back().r.end != E_EXIT) {
            v.skip = true;
            return v;
        }
        mkparents(d, path.back());
        d.put(path.back(), src.back());
    }
    int stale = (int)c.get("z.stale");
    for (int i = 0; i < n && stale; i++) d.put(own_s(path[(size_t)i]), stale == 1 ? STALE : stale == 2 ? base[(size_t)i].s + "\n\n" + STALE : std::string(100000, 'x'));
    std::vector<ProcSpec> specs;
    for (int i = 0; i < n; i++) {
        ProcSpec p;
        p.argv = {path[(size_t)i]};
        p.cfg = get_cfg(c, "z." + I(i) + ".");
        specs.push_back(p);
    }
    for (auto& it : c.items)
        if (it.tag == "earlier" && it.v.size() >= 2) {
            ProcSpec p = specs[(size_t)it.v[0] % (size_t)n];
            if (it.v[1] == 1) {   // an earlier, different version of the file
                d.put(p.argv[0], "int earlier(int a) { return a + 1; }\n");
                note(v, host_run1(d, p));
                d.put(p.argv[0], src[(size_t)it.v[0] % (size_t)n]);
            } else
                note(v, host_run1(d, p));
            ST->n["fault_earlier_compile"]++;
        }
    Sched sc;
    for (auto& it : c.items)
        if (it.tag == "sched" && it.v.size() >= 2) sc.push_back({(int)(it.v[0] % n), (uint64_t)it.v[1]});
    RunLog log;
    std::vector<ProcResult> rs = host_run(d, specs, sc, &log);
    ST->n["fault_preemption"] += log.nswitch;
    ST->n["fault_layout"] += (uint64_t)n;
    uint64_t inter = 0xcbf29ce484222325ull;
    for (auto& s : log.switches) {
        uint64_t z[2] = {(uint64_t)s.first, s.second};
        fnv(inter, z, sizeof z);
    }
    if (n > 1) ST->states.insert(inter);
    for (int i = 0; i < n; i++) {
        note(v, rs[(size_t)i]);
        const Base& b = base[(size_t)i];
        const ProcResult& r = rs[(size_t)i];
        std::string o = own_s(path[(size_t)i]);
        v.hs(d.get(o));
        v.trace += "process " + I(i) + " compiling " + path[(size_t)i] + ": " + r.describe() + ", stderr: " + hexs(r.err) + "\n";
        if (r.end != b.r.end || r.code != b.r.code)
            v.fail("result depends on circumstances", path[(size_t)i] + ": " + r.describe() + " here, " + b.r.describe() + " when compiled alone as m.c");
        else if (r.end == E_EXIT && r.code == 0 && d.get(o) != b.s)
            v.fail("output depends on circumstances", o + " differs from the .s of the same bytes compiled alone as m.s");
    }
    ST->distinct.insert(v.hash);
    if (v.viol)
        for (int i = 0; i < n; i++) v.trace += "source " + path[(size_t)i] + ":\n" + src[(size_t)i] + "\n";
    return v;
}
static Verdict run_c06(const Case& c) {
    Verdict v;
    std::string src = damaged(c);
    Disk d;
    d.put("a.c", src);
    ProcSpec ps;
    ps.argv = {"a.c"};
    ps.cfg = get_cfg(c, "z.");
    ProcResult r = host_run1(d, ps);
    note(v, r);
    for (auto& it : c.items)
        if (it.tag == "dmg") ST->n["fault_damage_kind" + I(it.v[0])]++;
    uint64_t h = 0xcbf29ce484222325ull;
    fnv(h, src.data(), src.size());
    ST->distinct.insert(h);
    ST->n[r.end == E_EXIT ? (r.code == 0 ? "end_exit0" : "end_exit1") : "end_other"]++;
    v.trace = "damaged source (" + std::to_string(src.size()) + " bytes): " + r.describe() + ", stderr: " + hexs(r.err) + "\n" + hexs(src, 20000) + "\n";
    if (beyond_budget(src, r)) v.skip = true;
    else if (r.end == E_HANG)
        v.fail("hangs", r.describe());
    else if (r.end == E_MEMHOG)
        v.fail("grows without bound", r.describe());
    else if (r.end != E_EXIT)
        v.fail("dies", r.describe());
    else if (r.code != 0 && r.code != 1)
        v.fail("no verdict", r.describe());
    else if (r.code == 1 && r.err.empty())
        v.fail("no verdict", "exit status 1 without a diagnostic");
    else if (r.code == 0 && !d.has("a.s"))
        v.fail("no verdict", "exit status 0 without an .s");
    return v;
}
static Verdict run_c07(const Case& c) {
    Verdict v;
    std::string src = damaged(c);
    ProcResult r[2];
    std::string o[2];
    for (int k = 0; k < 2; k++) {
        Disk d;
        d.put("a.c", src);
        ProcSpec ps;
        ps.argv = {"a.c"};
        ps.cfg = get_cfg(c, k ? "z.b." : "z.a.");
        r[k] = host_run1(d, ps);
        note(v, r[k]);
        o[k] = d.get("a.s");
        v.hs(o[k]);
        if (!r[k].mem.empty()) {
            const MemErr& m = r[k].mem[0];
            std::string w;
            host_symbolize_hint(w, m.pc);
            v.fail("memory error", m.what + " of " + std::to_string(m.size) + " bytes at " + w + " (offset " + std::to_string(m.off) + " in a block of " + std::to_string(m.blk) + ")");
        }
    }
    for (int k = 0; k < 2; k++)
        if (r[k].end == E_SIGNAL) v.fail("memory error", "the compiler " + r[k].describe());
    uint64_t h = 0xcbf29ce484222325ull;
    fnv(h, src.data(), src.size());
    ST->distinct.insert(h);
    ST->n["fault_layout"] += 2;
    if (!v.viol && (beyond_budget(src, r[0]) || beyond_budget(src, r[1]))) v.skip = true;
    else if (!v.viol && (r[0].end == E_EXIT) != (r[1].end == E_EXIT)) v.fail("result depends on memory contents", r[0].describe() + " with one heap, " + r[1].describe() + " with another");
    if (!v.viol && r[0].end == E_EXIT && (r[0].code != r[1].code || o[0] != o[1] || r[0].err != r[1].err))
        v.fail("result depends on memory contents", "the same source gives different results with different initial memory contents");
    v.trace = "source (" + std::to_string(src.size()) + " bytes): " + r[0].describe() + ", stderr: " + hexs(r[0].err) + "\n" + hexs(src, 20000) + "\n";
    return v;
}
Verdict run_h(const Case& c) {
    if (c.prop == "C01") return run_c01(c, false);
    if (c.prop == "C02") return run_c02(c);
    if (c.prop == "C03") return run_c03(c);
    if (c.prop == "C04") return run_c04(c);
    if (c.prop == "C05") return run_c01(c, true);
    if (c.prop == "C06") return run_c06(c);
    return run_c07(c);
}
