#include "prog.h"
extern bool g_use_gcc;
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <map>
#include <set>

static std::string base_name(const Type* t) {
    switch (t->k) {
        case T_VOID: return "void";
        case T_CHAR: return "char";
        case T_INT: return "int";
        case T_UINT: return "unsigned int";
        case T_LONG: return "long";
        case T_ULONG: return "unsigned long";
        case T_LLONG: return "long long";
        case T_ULLONG: return "unsigned long long";
        case T_STRUCT: return t->sd->tdname.empty() ? "struct " + t->sd->tag : t->sd->tdname;
        default: return "?";
    }
}
struct Pr {
    const Prog& p;
    Rng r;
    std::string o;
    int ind = 0;
    int unit;
    Pr(const Prog& pp, uint64_t style, int u) : p(pp), r(style), unit(u) {}
    std::string spec(const Type* t) {
        if (t->arith()) {
            switch (r.below(6)) {
                case 0: for (auto& d : p.tds) if (d.t == t) return d.name; break;
                case 1:
                    if (t->k == T_UINT) return "unsigned";
                    if (t->k == T_LONG) return "long int";
                    if (t->k == T_ULONG) return "unsigned long int";
                    if (t->k == T_ULLONG) return "unsigned long long int";
                    if (t->k == T_LLONG) return "long long int";
                    break;
                default: break;
            }
        }
        return base_name(t);
    }
    bool ft(uint64_t f) const { return p.feat & f; }
    // specifier and declarator
    std::pair<std::string, std::string> decl2(const Type* t, const std::string& name) {
        std::string d = name;
        while (true) {
            if (!t->arith())
                for (auto& x : p.tds)
                    if (x.t == t && r.chance(50)) return {x.name, d};
            if (t->k == T_PTR) {
                if (t->base->k == T_FUNC || t->base->k == T_ARR) {
                    d = "(*" + d + ")";
                } else
                    d = "*" + d;
                t = t->base;
            } else if (t->k == T_ARR) {
                d += "[" + std::to_string(t->n) + "]";
                t = t->base;
            } else if (t->k == T_FUNC) {
                d += "(" + plist(t) + ")";
                t = t->base;
            } else
                break;
        }
        return {spec(t), d};
    }
    std::string decl(const Type* t, const std::string& name) {
        auto x = decl2(t, name);
        return x.first + (x.second.empty() ? "" : " " + x.second);
    }
    // parameters may be spelled as arrays or functions
    std::string pdecl(const Type* t, const std::string& name) {
        if (ft(FT_SPELL) && t->k == T_PTR && !name.empty() && r.chance(20) && t->base->k != T_VOID) {
            if (t->base->k == T_FUNC) return decl(t->base, name);
            return decl(t->base, name + "[" + std::to_string(1 + r.below(9)) + "]");
        }
        return decl(t, name);
    }
    std::string plist(const Type* t) {
        if (t->params.empty()) return "void";
        std::string s;
        for (size_t i = 0; i < t->params.size(); i++) {
            if (i) s += ", ";
            // umlcc accepts unnamed parameters; names are used now and then
            s += pdecl(t->params[i], r.chance(50) ? "" : "q" + std::to_string(i));
        }
        return s;
    }
    static std::string chr_esc(unsigned char c, char quote) {
        char b[8];
        switch (c) {
            case '\n': return "\\n";
            case '\t': return "\\t";
            case '\r': return "\\r";
            case '\a': return "\\a";
            case '\b': return "\\b";
            case '\f': return "\\f";
            case '\v': return "\\v";
            case '\\': return "\\\\";
            default: break;
        }
        if (c == (unsigned char)quote) return std::string("\\") + quote;
        if (c == '?') return "\\?";
        if (c < 32 || c >= 127) {
            snprintf(b, sizeof b, "\\%03o", c);
            return b;
        }
        return std::string(1, (char)c);
    }
    static std::string str(const std::string& s) {
        std::string t = "\"";
        for (unsigned char c : s) t += chr_esc(c, '"');
        return t + "\"";
    }
    static int prec(const Expr* e) {
        switch (e->k) {
            case X_ASSIGN: case X_OPASSIGN: return 2;
            case X_COND: return 3;
            case X_LOR: return 4;
            case X_LAND: return 5;
            case X_BIN:
                switch (e->op) {
                    case O_OR: return 6;
                    case O_XOR: return 7;
                    case O_AND: return 8;
                    case O_EQ: case O_NE: return 9;
                    case O_LT: case O_GT: case O_LE: case O_GE: return 10;
                    case O_SHL: case O_SHR: return 11;
                    case O_ADD: case O_SUB: return 12;
                    default: return 13;
                }
            case X_UN: case X_CAST: case X_DEREF: case X_ADDR: case X_PREINC: case X_PREDEC: case X_SIZEOFT: case X_SIZEOFE: return 14;
            case X_FUNC: return e->form ? 14 : 16;
            case X_POSTINC: case X_POSTDEC: case X_CALL: case X_INDEX: case X_MEMBER: case X_ARROW: return 15;
            default: return 16;
        }
    }
    std::string ex(const Expr* e, int min) {
        std::string s = ex0(e);
        if (prec(e) < min || (r.permille(40) && min > 0)) return "(" + s + ")";
        return s;
    }
    static const char* opn(int op) {
        static const char* n[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "-", "+", "~", "!"};
        return n[op];
    }
    std::string ex0(const Expr* e) {
        switch (e->k) {
            case X_LIT: return lit_text(e->val, e->t, e->form);
            case X_ENUM: return e->s;
            case X_VAR: return e->v->name;
            case X_FUNC: return e->form ? "&" + e->f->name : e->f->name;
            case X_STR: return str(e->s);
            case X_UN: {
                std::string a = ex(e->a, 14);
                std::string op = opn(e->op);
                if (!a.empty() && (a[0] == '-' || a[0] == '+' || a[0] == '&')) return op + " " + a;
                return op + a;
            }
            case X_BIN: {
                int pr = prec(e);
                return ex(e->a, pr) + " " + opn(e->op) + " " + ex(e->b, pr + 1);
            }
            case X_LAND: return ex(e->a, 5) + " && " + ex(e->b, 6);
            case X_LOR: return ex(e->a, 4) + " || " + ex(e->b, 5);
            case X_COND: return ex(e->a, 4) + " ? " + ex(e->b, 3) + " : " + ex(e->c, 3);
            case X_ASSIGN: return ex(e->a, 14) + " = " + ex(e->b, 2);
            case X_OPASSIGN: return ex(e->a, 14) + " " + opn(e->op) + "= " + ex(e->b, 2);
            case X_PREINC: return "++" + ex(e->a, 14);
            case X_PREDEC: return "--" + ex(e->a, 14);
            case X_POSTINC: return ex(e->a, 15) + "++";
            case X_POSTDEC: return ex(e->a, 15) + "--";
            case X_CALL: {
                std::string s;
                if (e->a) s = ex(e->a, 15);
                else if (e->form == 1) s = "(*" + e->f->name + ")";
                else s = e->f->name;
                s += "(";
                for (size_t i = 0; i < e->args.size(); i++) {
                    if (i) s += ", ";
                    s += ex(e->args[i], 2);
                }
                return s + ")";
            }
            case X_INDEX:
                if (e->form) return ex(e->b, 15) + "[" + ex(e->a, 0) + "]";
                return ex(e->a, 15) + "[" + ex(e->b, 0) + "]";
            case X_MEMBER: return ex(e->a, 15) + "." + e->a->t->sd->m[(size_t)e->mi].name;
            case X_ARROW: return ex(e->a, 15) + "->" + e->a->t->base->sd->m[(size_t)e->mi].name;
            case X_DEREF: return "*" + ex(e->a, 14);
            case X_ADDR: {
                std::string a = ex(e->a, 14);
                if (a[0] == '&') return "& " + a;
                return "&" + a;
            }
            case X_CAST: return "(" + decl(e->ty, "") + ")" + ex(e->a, 14);
            case X_SIZEOFT: return "sizeof(" + decl(e->ty, "") + ")";
            case X_SIZEOFE: return "sizeof " + ex(e->a, 14);
        }
        return "?";
    }
    std::string init(const Init* i) {
        if (i->str) return str(i->s);
        if (i->list) {
            std::string s = "{";
            for (size_t k = 0; k < i->l.size(); k++) s += (k ? ", " : "") + init(i->l[k]);
            if (r.permille(0)) s += ",";
            return s + "}";
        }
        return ex(i->e, 2);
    }
    void nl() {
        o += "\n";
        for (int i = 0; i < ind; i++) o += "    ";
    }
    void blk(const Stmt* s) {   // prints as a braced body
        o += "{";
        ind++;
        list(s->body);
        ind--;
        nl();
        o += "}";
    }
    // type specifier of a variable; an int whose address is never taken may be declared as an enumeration
    std::pair<std::string, std::string> vdecl(const Var* v) {
        if (!v->tdname.empty()) return {v->tdname, v->name};
        if (ft(FT_SPELL) && v->t->k == T_INT && !v->addr && !v->param && !p.enums.empty() && r.chance(8) && !g_use_gcc) return {"enum " + p.enums[r.below(p.enums.size())]->tag, v->name};
        return decl2(v->t, v->name);
    }
    void list(const std::vector<Stmt*>& b) {
        std::string open;   // specifier of a declaration that may go on
        for (auto x : b) {
            if (x->k == S_DECL) {
                auto d = vdecl(x->v);
                std::string t = d.second + (x->init ? " = " + init(x->init) : "");
                if (ft(FT_MULTI) && d.first == open && r.chance(70)) {
                    o.pop_back();
                    o += ", " + t + ";";
                } else {
                    nl();
                    o += d.first + " " + t + ";";
                }
                open = d.first;
                continue;
            }
            open.clear();
            nl();
            st(x);
        }
    }
    void sub(const Stmt* s) {
        if (s->k == S_BLOCK) {
            o += " ";
            blk(s);
        } else if (s->k == S_DECL) {
            o += " { ";
            st(s);
            o += " }";
        } else {
            ind++;
            nl();
            st(s);
            ind--;
        }
    }
    void st(const Stmt* s) {
        switch (s->k) {
            case S_EMPTY: o += ";"; break;
            case S_EXPR: o += ex(s->e, 0) + ";"; break;
            case S_DECL: {
                auto d = vdecl(s->v);
                o += d.first + " " + d.second;
                if (s->init) o += " = " + init(s->init);
                o += ";";
                break;
            }
            case S_TYPE:
                if (s->en) edef(s->en);
                if (s->fwd2) o += "struct " + s->fwd2->tag + "; ";
                if (s->fwd && !s->sd->anon) o += "struct " + s->sd->tag + "; ";
                if (s->sd) sdef(s->sd);
                if (s->proto) o += decl(s->proto->t, s->proto->name) + ";";
                if (s->tdt) o += "typedef " + decl(s->tdt, s->tdname) + ";";
                break;
            case S_IF:
                o += "if (" + ex(s->e, 0) + ")";
                if (s->s2 && s->s1->k != S_BLOCK && s->s1->k != S_EXPR && s->s1->k != S_EMPTY && s->s1->k != S_RETURN) {
                    o += " {";
                    ind++;
                    nl();
                    st(s->s1);
                    ind--;
                    nl();
                    o += "}";
                } else
                    sub(s->s1);
                if (s->s2) {
                    nl();
                    o += "else";
                    if (s->s2->k == S_IF) {
                        o += " ";
                        st(s->s2);
                    } else
                        sub(s->s2);
                }
                break;
            case S_WHILE:
                o += "while (" + ex(s->e, 0) + ")";
                sub(s->s1);
                break;
            case S_FOR:
                o += "for (";
                if (s->v) {
                    o += (s->body.empty() ? decl(s->v->t, s->v->name) : base_name(s->v->t) + " " + s->v->name) + " = " + init(s->init);
                    for (auto x : s->body) o += std::string(", ") + (x->v->t->k == T_PTR ? "*" : "") + x->v->name + " = " + init(x->init);
                }
                else if (s->e2) o += ex(s->e2, 0);
                o += "; ";
                if (s->e) o += ex(s->e, 0);
                o += "; ";
                if (s->e3) o += ex(s->e3, 0);
                o += ")";
                sub(s->s1);
                break;
            case S_SWITCH:
                o += "switch (" + ex(s->e, 0) + ") {";
                ind++;
                for (auto& c : s->cases) {
                    nl();
                    if (c.dflt) o += "default:";
                    else o += "case " + ex0(c.lab) + ":";
                    ind++;
                    list(c.body);
                    ind--;
                }
                ind--;
                nl();
                o += "}";
                break;
            case S_BLOCK: blk(s); break;
            case S_RETURN: o += s->e ? "return " + ex(s->e, 0) + ";" : "return;"; break;
            case S_BREAK: o += "break;"; break;
            case S_CONTINUE: o += "continue;"; break;
        }
    }
    void edef(const Enum* e) {
        o += "enum " + e->tag + " {";
        for (size_t i = 0; i < e->e.size(); i++) {
            o += (i ? ", " : " ") + e->e[i].first;
            if (e->explicit_val[i]) o += " = " + std::to_string(e->e[i].second);
        }
        o += " };";
    }
    void sdef(Struct* s) {
        std::string save = s->tdname;
        o += (s->tdname.empty() ? "struct" : "typedef struct") + (s->anon ? "" : " " + s->tag) + " {";
        s->tdname.clear();   // the alias is not known inside
        ind++;
        std::string open;
        for (auto& m : s->m) {
            auto d = decl2(m.t, m.name);
            if (ft(FT_MULTI) && d.first == open && r.chance(60)) {
                o.pop_back();
                o += ", " + d.second + ";";
            } else {
                nl();
                o += d.first + " " + d.second + ";";
            }
            open = d.first;
        }
        ind--;
        s->tdname = save;
        nl();
        o += "}" + (s->tdname.empty() ? "" : " " + s->tdname) + ";";
    }
    void all() {
        for (auto e : p.enums) {
            edef(e);
            o += "\n";
        }
        for (size_t i = 0; i < p.tds.size(); i++) {
            // the alias itself must be spelled without using aliases
            std::vector<Typedef>& t = const_cast<std::vector<Typedef>&>(p.tds);
            std::vector<Typedef> save;
            save.swap(t);
            o += "typedef " + decl(save[i].t, save[i].name) + ";\n";
            save.swap(t);
        }
        for (auto s : p.structs) {
            if (ft(FT_SPELL) && !s->anon && r.chance(15)) o += "struct " + s->tag + ";\n";
            sdef(s);
            o += "\n";
        }
        for (auto f : p.funcs)
            if (f->ext || (unit >= 0 && f->unit != unit)) o += decl(f->t, f->name) + ";\n";
        std::string open;
        for (auto v : p.globals) {
            if (unit >= 0 && v->unit != unit) continue;
            auto d = vdecl(v);
            std::string t = d.second + (v->init ? " = " + init(v->init) : "");
            if (ft(FT_MULTI) && d.first == open && r.chance(70)) {
                o.resize(o.size() - 2);
                o += ", " + t + ";\n";
            } else
                o += d.first + " " + t + ";\n";
            open = d.first;
        }
        for (auto f : p.funcs) {
            if (f->ext || !f->body) continue;
            if (unit >= 0 && f->unit != unit) continue;
            std::string ps;
            if (f->params.empty()) ps = "void";
            for (size_t i = 0; i < f->params.size(); i++) ps += (i ? ", " : "") + pdecl(f->params[i]->t, f->params[i]->name);
            o += decl(f->t->base, f->name + "(" + ps + ")") + " ";
            ind = 0;
            blk(f->body);
            o += "\n";
        }
    }
};
std::string lit_text(int64_t v, Type* t, int form) {
    char b[64];
    const char* suf = "";
    static const char* su[][4] = {{"u", "U", "u", "U"}, {"l", "L", "l", "L"}, {"ul", "UL", "lu", "LU"}, {"ll", "LL", "ll", "LL"}, {"ull", "ULL", "llu", "LLU"}};
    int q = form & 3;
    switch (t->k) {
        case T_UINT: suf = su[0][q]; break;
        case T_LONG: suf = su[1][q]; break;
        case T_ULONG: suf = su[2][q]; break;
        case T_LLONG: suf = su[3][q]; break;
        case T_ULLONG: suf = su[4][q]; break;
        default: break;
    }
    if (form >= 10 && t->k == T_INT && v >= 0 && v < 128) {
        if (form == 11 && v != 0) return "'" + Pr::chr_esc((unsigned char)v, '\'') + "'";
        if (v == 0) return "'\\0'";
        snprintf(b, sizeof b, "'\\x%llx'", (unsigned long long)v);
        return b;
    }
    if (form == 8) snprintf(b, sizeof b, "0x%llx%s", (unsigned long long)v, suf);
    else if (form == 9 && v) snprintf(b, sizeof b, "0%llo%s", (unsigned long long)v, suf);
    else if (form == 7) snprintf(b, sizeof b, "0X%llX%s", (unsigned long long)v, suf);
    else snprintf(b, sizeof b, "%llu%s", (unsigned long long)v, suf);
    return b;
}
// Gives locals, parameters, members and tags the names of other things, as far as C's scopes and name spaces allow it.
struct Collide {
    const Prog& p;
    Rng r;
    struct Tok {
        std::string s, orig;
        size_t at;
        bool id;
    };
    std::vector<Tok> tk;
    std::vector<int> match;                         // of braces and parentheses
    std::vector<bool> compound;                     // this brace opens a block
    std::map<std::string, std::vector<int>> occ;    // ordinary identifiers
    Collide(const Prog& pp, uint64_t seed) : p(pp), r(seed) {}
    const std::string& at(int i) const {
        static const std::string none;
        return i >= 0 && i < (int)tk.size() ? tk[(size_t)i].s : none;
    }
    void scan(const std::string& s, const std::set<std::string>& special) {
        for (size_t i = 0; i < s.size();) {
            char c = s[i];
            size_t b = i;
            if (isspace((unsigned char)c)) {
                i++;
                continue;
            }
            bool id = false;
            if (isalpha((unsigned char)c) || c == '_') {
                while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) i++;
                id = true;
            } else if (isdigit((unsigned char)c)) {
                while (i < s.size() && isalnum((unsigned char)s[i])) i++;
            } else if (c == '"' || c == '\'') {
                for (i++; s[i] != c; i++)
                    if (s[i] == '\\') i++;
                i++;
            } else
                i++;
            std::string w = s.substr(b, i - b);
            tk.push_back({w, w, b, id});
        }
        match.assign(tk.size(), -1);
        compound.assign(tk.size(), false);
        std::vector<int> st;
        for (int i = 0; i < (int)tk.size(); i++) {
            const std::string& w = at(i);
            if (w == "{" || w == "(") {
                const std::string& b = at(i - 1);
                compound[(size_t)i] = w == "{" && (b == ")" || b == ";" || b == "}" || b == ":" || b == "else" || (b == "{" && compound[(size_t)i - 1]));
                st.push_back(i);
            } else if ((w == "}" || w == ")") && !st.empty()) {
                match[(size_t)st.back()] = i;
                match[(size_t)i] = st.back();
                st.pop_back();
            } else if (tk[(size_t)i].id && !special.count(w))
                occ[w].push_back(i);
        }
    }
    // the block which a name first seen here belongs to
    int scope_of(int a) {
        for (int i = a; i >= 0; i--) {
            if (at(i) == "}") i = match[(size_t)i];
            else if (compound[(size_t)i]) return i;
        }
        for (int i = a; i < (int)tk.size(); i++) {
            if (at(i) == ";") return -1;
            if (at(i) == "{") return compound[(size_t)i] ? i : -1;
        }
        return -1;
    }
    // the statement which this name is in may be a declaration
    bool declares(int i) const {
        int b = i;
        while (b > 0 && at(b - 1) != ";" && at(b - 1) != "{" && at(b - 1) != "}") b--;
        if (b >= i || at(b) == "return") return false;
        return tk[(size_t)b].id && (tk[(size_t)b + 1].id || at(b + 1) == "*");
    }
    std::string run(const std::string& s) {
        static const std::set<std::string> kw = {"break", "case", "char", "continue", "default", "else", "enum", "for", "if", "int", "long", "return", "sizeof", "struct", "switch", "typedef", "unsigned", "void", "while"};
        std::set<std::string> mem, tag;
        for (auto* v : {&p.structs, &p.lstructs})
            for (auto x : *v) {
                for (auto& m : x->m) mem.insert(m.name);
                if (!x->anon) tag.insert(x->tag);
            }
        for (auto* v : {&p.enums, &p.lenums})
            for (auto e : *v) tag.insert(e->tag);
        std::set<std::string> special(mem);
        special.insert(tag.begin(), tag.end());
        scan(s, special);
        std::map<std::string, int> locals;
        for (auto f : p.funcs)
            for (auto v : f->params) locals[v->name]++;
        for (auto st : p.stmts) {
            if ((st->k == S_DECL || st->k == S_FOR) && st->v) locals[st->v->name]++;
            if (st->k == S_TYPE && !st->tdname.empty()) locals[st->tdname]++;
        }
        for (auto e : p.lenums)
            for (auto& x : e->e) locals[x.first]++;
        std::vector<std::string> pool, all, ln;
        for (auto f : p.funcs) pool.push_back(f->name);
        for (auto& d : p.tds) pool.insert(pool.end(), 3, d.name);
        for (auto x : p.structs) {
            if (!x->tdname.empty()) pool.insert(pool.end(), 2, x->tdname);
            if (!x->anon) pool.push_back(x->tag);
            for (auto& m : x->m) pool.push_back(m.name);
        }
        for (auto v : p.globals) pool.push_back(v->name);
        for (auto e : p.enums) {
            pool.push_back(e->tag);
            for (auto& x : e->e) pool.push_back(x.first);
        }
        if (pool.empty()) return s;
        for (auto& l : locals)
            if (l.second == 1) ln.push_back(l.first);
        all = pool;
        all.insert(all.end(), ln.begin(), ln.end());
        for (size_t i = ln.size(); i > 1; i--) std::swap(ln[i - 1], ln[r.below(i)]);
        std::set<std::pair<int, std::string>> taken;
        const auto own = occ;   // under the original names
        uint64_t share = (uint64_t)r.range(20, 90);
        for (auto& l : ln) {
            if (!own.count(l) || !r.chance(share)) continue;
            const auto& mine = own.at(l);
            int first = mine[0], sc = scope_of(first);
            if (sc < 0) continue;
            int end = match[(size_t)sc];
            if (mine.back() > end) continue;
            for (int t = 0; t < 4; t++) {
                std::string g = r.chance(70) ? r.pick(pool) : r.pick(all);
                if (g == l || taken.count({sc, g})) continue;
                bool used = false;
                for (int i : occ[g]) used = used || (i >= first && i <= end);
                // what this very block declares keeps its name to itself
                for (int i : occ[g])
                    if (i < first && scope_of(i) == sc && (locals.count(tk[(size_t)i].orig) || declares(i))) used = true;
                if (used) continue;
                auto& v = occ[l];
                v.erase(std::remove_if(v.begin(), v.end(), [&](int i) { return tk[(size_t)i].orig == l; }), v.end());
                for (int i : mine) tk[(size_t)i].s = g;
                auto& w = occ[g];
                w.insert(w.end(), mine.begin(), mine.end());
                taken.insert({sc, g});
                break;
            }
        }
        // parameter names of prototypes
        for (int i = 1; i < (int)tk.size(); i++) {
            const std::string& n = tk[(size_t)i].orig;
            if (n.size() < 2 || n[0] != 'q' || n.find_first_not_of("0123456789", 1) != std::string::npos || occ.count(n) == 0 || !r.chance(share)) continue;
            int b = i, e = i;
            while (b >= 0 && !(at(b) == "(" && match[(size_t)b] > i && (at(b + 1) != "*"))) b--;
            if (b < 0) continue;
            e = match[(size_t)b];
            const std::string& g = r.pick(all);
            bool used = kw.count(g);
            for (int k = b; k <= e; k++) used = used || (k != i && k != i - 1 && at(k) == g);
            if (!used && locals.count(n) == 0) tk[(size_t)i].s = g;
        }
        // members and tags live in name spaces of their own
        std::vector<std::string> names;
        for (auto& o : occ)
            if (!kw.count(o.first)) names.push_back(o.first);
        names.insert(names.end(), special.begin(), special.end());
        std::map<std::string, std::string> to;
        for (auto* set : {&mem, &tag}) {
            std::set<std::string> used(set->begin(), set->end());
            for (auto& n : *set) {
                if (!r.chance(share)) continue;
                const std::string& g = r.chance(40) ? r.pick(pool) : r.pick(names);
                if (used.insert(g).second) to[n] = g;
            }
        }
        std::string o;
        size_t from = 0;
        for (auto& t : tk) {
            auto m = special.count(t.orig) ? to.find(t.orig) : to.end();
            o += s.substr(from, t.at - from) + (m == to.end() ? t.s : m->second);
            from = t.at + t.orig.size();
        }
        return o + s.substr(from);
    }
};
std::string print_prog(const Prog& p, uint64_t style, int unit) {
    Pr q(p, style, unit);
    q.all();
    std::string s = q.o;
    if ((p.feat & FT_COLLIDE)) s = Collide(p, style * 77 + (uint64_t)unit).run(s);
    if (style % 5 == 4) {   // squeeze / stretch whitespace outside literals
        Rng r(style);
        std::string t;
        char in = 0;
        for (size_t i = 0; i < s.size(); i++) {
            char c = s[i];
            if (in) {
                t += c;
                if (c == '\\') t += s[++i];
                else if (c == in) in = 0;
                continue;
            }
            if (c == '"' || c == '\'') in = c, t += c;
            else if (c == ' ' || c == '\n') {
                static const char* w[] = {" ", "\n", "\t", "  ", " \n", "\v", "\f "};
                t += w[r.below(style % 2 ? 7 : 5)];
            } else
                t += c;
        }
        s = t;
    }
    if (style % 7 == 3) {   // blank space in front of the first token, none or more behind the last
        static const char* w[] = {" ", "\n", "\n\n", "\t", "\f\n", " \v "};
        s = w[style / 7 % 6] + s;
        if (style / 42 % 3) s += w[style / 126 % 6];
        else
            while (!s.empty() && s.back() == '\n') s.pop_back();
    }
    return s;
}
std::string ev_text(const Prog& p, const Ev& e) {
    if (e.kind == 3)
        return "foreign code finds " + p.globals[(size_t)e.fn]->name + " field " + std::to_string(e.args[0]) + " = " + std::to_string(e.ret) + (e.args[1] ? ", stores " + std::to_string(e.args[1]) : "");
    std::string s = e.kind == 0 ? "call " : e.kind == 1 ? "returned " : "callback returned ";
    s += e.fn >= 0 && e.fn < (int)p.funcs.size() ? p.funcs[(size_t)e.fn]->name : "?";
    s += "(";
    for (size_t i = 0; i < e.args.size(); i++) s += (i ? "," : "") + std::to_string(e.args[i]);
    s += ")";
    if (!e.mem.empty()) {
        s += " mem[";
        for (size_t i = 0; i < e.mem.size(); i++) s += (i ? "," : "") + std::to_string(e.mem[i]);
        s += "]";
    }
    s += " = " + std::to_string(e.ret);
    return s;
}
