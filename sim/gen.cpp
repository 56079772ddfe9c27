#include "prog.h"
#include <algorithm>
#include <climits>
#include <cstdio>
#include <cstring>
#include <functional>

int Type::size() const {
    switch (k) {
        case T_VOID: return 1;
        case T_CHAR: return 1;
        case T_INT: case T_UINT: return 4;
        case T_ARR: return n * base->size();
        case T_STRUCT: return sd->size;
        case T_FUNC: return 1;
        default: return 8;
    }
}
int Type::align() const {
    if (k == T_ARR) return base->align();
    if (k == T_STRUCT) return sd->align;
    return size();
}
Prog::~Prog() {
    for (auto e : exprs) delete e;
    for (auto s : stmts) delete s;
    for (auto g : types) delete g;
    for (auto s : structs) delete s;
    for (auto s : lstructs) delete s;
    for (auto e : enums) delete e;
    for (auto e : lenums) delete e;
    for (auto f : funcs) delete f;
    for (auto v : junk_v) delete (Var*)v;
    for (auto v : junk_i) delete (Init*)v;
}
void int_fields(const Type* t, int off, std::vector<std::pair<int, const Type*>>& out) {
    if (t->arith()) out.push_back({off, t});
    else if (t->k == T_ARR)
        for (int i = 0; i < t->n; i++) int_fields(t->base, off + i * t->base->size(), out);
    else if (t->k == T_STRUCT)
        for (auto& m : t->sd->m) int_fields(m.t, off + m.off, out);
}
int64_t canon(int64_t v, const Type* t) {
    switch (t->k) {
        case T_CHAR: return (int8_t)v;
        case T_INT: return (int32_t)v;
        case T_UINT: return (int64_t)(uint32_t)v;
        default: return v;
    }
}
int64_t env_value(uint64_t seed, uint64_t call, uint64_t what, const Type* t) {
    uint64_t h = hash2(hash2(seed, call), what);
    int64_t v;
    switch (h & 7) {
        case 0: case 1: case 2: v = (int64_t)((h >> 8) % 17) - 4; break;
        case 3: case 4: v = (int64_t)((h >> 8) & 0xff); break;
        case 5: v = (int64_t)mix64(h); break;
        case 6: v = (int64_t)((h >> 8) & 0xffff) - 0x8000; break;
        default: {
            static const int64_t e[] = {0, 1, -1, INT_MAX, INT_MIN, 127, -128, 128, 255, 256, LONG_MAX, LONG_MIN, 0xffffffffll, 0x80000000ll, 65535, -2};
            v = e[(h >> 8) % 16];
        }
    }
    if (t->k == T_VOID) return 0;
    return canon(v, t);
}

namespace {
struct Ctx {
    bool side = false;          // side effects allowed
    bool stable = false;        // only literals and unaliased locals
    const std::vector<Var*>* avoid = nullptr;
};
struct Gen {
    Prog& P;
    GenCfg C;
    Rng r;
    Type *tv, *tc, *ti, *tu, *tl, *tul, *tll, *tull;
    std::map<std::pair<Type*, int>, Type*> ptrs, arrs;
    std::vector<Var*> scope;
    std::vector<std::string> hidden;
    Func* cf = nullptr;
    int depth = 0, loopd = 0, switchd = 0, names = 0;
    int budget = 0;
    bool in_pure = false;
    std::vector<Enum*> lenums;
    unsigned fav = 0;   // a type and an operator that this program prefers
    int favop = 0;

    Gen(Prog& p, uint64_t seed, const GenCfg& c) : P(p), C(c), r(seed) {
        auto mk = [&](TK k) {
            Type* t = new Type{};
            t->k = k;
            P.types.push_back(t);
            return t;
        };
        tv = mk(T_VOID); tc = mk(T_CHAR); ti = mk(T_INT); tu = mk(T_UINT); tl = mk(T_LONG); tul = mk(T_ULONG);
        tll = mk(T_LLONG); tull = mk(T_ULLONG);
    }
    bool ft(uint64_t f) const { return C.feat & f; }
    Type* ptr(Type* b) {
        auto& t = ptrs[{b, 0}];
        if (!t) {
            t = new Type{};
            t->k = T_PTR;
            t->base = b;
            P.types.push_back(t);
        }
        return t;
    }
    Type* arr(Type* b, int n) {
        auto& t = arrs[{b, n}];
        if (!t) {
            t = new Type{};
            t->k = T_ARR;
            t->base = b;
            t->n = n;
            P.types.push_back(t);
        }
        return t;
    }
    Type* func(Type* ret, std::vector<Type*> ps) {
        for (auto t : P.types)
            if (t->k == T_FUNC && t->base == ret && t->params == ps) return t;
        Type* t = new Type{};
        t->k = T_FUNC;
        t->base = ret;
        t->params = ps;
        P.types.push_back(t);
        return t;
    }
    Type* rnd_arith() {
        std::vector<Type*> v = {ti, ti, ti, ti};
        if (ft(FT_CHAR)) v.push_back(tc), v.push_back(tc);
        if (ft(FT_LONG)) v.push_back(tl), v.push_back(tl), v.push_back(tll);
        if (ft(FT_UNS)) {
            v.push_back(tu), v.push_back(tu);
            if (ft(FT_LONG)) v.push_back(tul), v.push_back(tull);
        }
        Type* t = r.pick(v);
        return fav && r.chance(60) ? v[(size_t)(fav % v.size())] : t;
    }
    std::string nm(const char* pre) {
        std::string s = std::string(pre) + std::to_string(names++);
        if (!ft(FT_NAMES)) return s;
        static const char* odd[] = {"int", "iff", "else_", "_", "__", "r", "Return", "structs", "L", "while1", "case_", "size_of", "rax", "quad", "long_", "charx"};
        switch (r.below(5)) {
            case 0: return odd[r.below(16)] + ("_" + s);
            case 1: return s + std::string(1 + r.below(r.chance(10) ? 300 : 40), (char)('a' + r.below(26)));
            case 2: return s + "_" + s + "_" + (char)('A' + r.below(26));
            default: return s;
        }
    }
    Expr* X(EK k, Type* t) {
        Expr* e = new Expr{};
        e->k = k;
        e->t = t;
        e->id = (int)P.exprs.size();
        P.exprs.push_back(e);
        e->extra_paren = false;
        return e;
    }
    Stmt* S(SK k) {
        Stmt* s = new Stmt{};
        s->k = k;
        s->id = (int)P.stmts.size();
        P.stmts.push_back(s);
        return s;
    }
    Var* V(const std::string& n, Type* t) {
        Var* v = new Var{};
        P.junk_v.push_back(v);
        v->name = n;
        v->t = t;
        v->depth = depth;
        return v;
    }
    Init* I() {
        Init* i = new Init{};
        P.junk_i.push_back(i);
        return i;
    }
    void inherit(Expr* e, Expr* x) {
        if (!x) return;
        e->side |= x->side;
        e->topw |= x->topw;
        e->writes.insert(e->writes.end(), x->writes.begin(), x->writes.end());
    }
    static Type* promo(Gen& g, Type* t) { return t->k == T_CHAR ? g.ti : t; }
    Type* uac(Type* a, Type* b) {
        a = promo(*this, a);
        b = promo(*this, b);
        Type *x = a->k >= b->k ? a : b, *y = a->k >= b->k ? b : a;   // enumeration order is conversion rank order
        if (x->k == T_LLONG && y->k == T_ULONG) return tull;
        return x;
    }
    // ---- literals
    int64_t rnd_val(Type* t) {
        int64_t v;
        switch (r.below(10)) {
            case 0: case 1: case 2: case 3: v = (int64_t)r.below(10); break;
            case 4: case 5: v = (int64_t)r.below(130); break;
            case 6: v = (int64_t)r.below(70000); break;
            case 7: v = (int64_t)(r.next() & 0x7fffffff); break;
            case 8: {
                static const int64_t e[] = {INT_MAX, 255, 256, 128, 127, 32768, 65535, 0x10000, INT_MAX - 1, 1, 0, 2};
                v = e[r.below(12)];
                break;
            }
            default:
                if (ft(FT_BIG64) && t->size() == 8) {
                    static const int64_t e[] = {LONG_MAX, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x123456789abcdefll};
                    v = r.chance(50) ? e[r.below(5)] : (int64_t)(r.next() & 0x7fffffffffffffffll);
                    if (t->k == T_ULONG || t->k == T_ULLONG)
                        if (r.chance(40)) v = r.chance(50) ? -1 : (int64_t)r.next();
                } else
                    v = (int64_t)r.below(1000);
        }
        if (t->k == T_UINT && r.chance(15)) v = (int64_t)(uint32_t)r.next();
        if (t->k == T_CHAR) v &= 0x7f;
        if (t->k == T_INT || t->k == T_CHAR) v &= 0x7fffffff;
        return canon(v, t);
    }
    Expr* lit(int64_t v, Type* t) {
        if (t->k == T_CHAR) t = ti;
        Expr* e = X(X_LIT, t);
        e->val = v;
        e->form = (int)r.below(12);
        return e;
    }
    Expr* rlit() {
        if (ft(FT_ENUM) && !(P.enums.empty() && lenums.empty()) && r.chance(12)) {
            Enum* en = P.enums.empty() || (!lenums.empty() && r.chance(40)) ? r.pick(lenums) : r.pick(P.enums);
            size_t k = r.below(en->e.size());
            Expr* e = X(X_ENUM, ti);
            e->s = en->e[k].first;
            e->val = en->e[k].second;
            return e;
        }
        Type* t = rnd_arith();
        return lit(rnd_val(t), t);
    }
    Expr* vx(Var* v) {
        Expr* e = X(X_VAR, v->t);
        e->v = v;
        return e;
    }
    bool visible(Var* v) {
        for (auto& h : hidden)
            if (h == v->name) return false;
        for (int i = (int)scope.size() - 1; i >= 0; i--)
            if (scope[i]->name == v->name) return scope[i] == v;
        return v->global;
    }
    std::vector<Var*> cands(const std::function<bool(Var*)>& pred, const Ctx& c) {
        std::vector<Var*> o;
        auto ok = [&](Var* v) {
            if (!pred(v) || !visible(v)) return;
            if (v->global && in_pure) return;
            if (v->global && C.nunits > 1 && cf && v->unit != cf->unit) return;
            if (c.stable) {
                if (v->global || v->addr) return;
                if (c.avoid && std::find(c.avoid->begin(), c.avoid->end(), v) != c.avoid->end()) return;
            }
            o.push_back(v);
        };
        for (auto v : scope) ok(v);
        for (auto v : P.globals) ok(v);
        return o;
    }
    Expr* un(int op, Expr* a) {
        Expr* e = X(X_UN, op == O_LNOT ? ti : promo(*this, a->t));
        e->op = op;
        e->a = a;
        inherit(e, a);
        return e;
    }
    Expr* bin(int op, Expr* a, Expr* b) {
        Type* t;
        if (op >= O_LT && op <= O_NE) t = ti;
        else if (op == O_SHL || op == O_SHR) t = promo(*this, a->t);
        else t = uac(a->t, b->t);
        Expr* e = X(X_BIN, t);
        e->op = op;
        e->a = a;
        e->b = b;
        inherit(e, a);
        inherit(e, b);
        return e;
    }
    Expr* cast(Type* t, Expr* a) {
        Expr* e = X(X_CAST, t);
        e->ty = t;
        e->a = a;
        inherit(e, a);
        return e;
    }
    Expr* assign(Expr* l, Expr* rr) {
        Expr* e = X(X_ASSIGN, l->t);
        e->a = l;
        e->b = rr;
        inherit(e, l);
        inherit(e, rr);
        mark_write(e, l);
        return e;
    }
    void mark_write(Expr* e, Expr* l) {
        e->side = true;
        Expr* b = l;
        while (b->k == X_MEMBER || (b->k == X_INDEX && b->a->t->k == T_ARR)) b = b->a;
        if (b->k == X_VAR) e->writes.push_back(b->v);
        else e->topw = true;
    }
    Expr* incdec(Expr* l) {
        static const EK ks[] = {X_PREINC, X_PREDEC, X_POSTINC, X_POSTDEC};
        Expr* e = X(ks[r.below(4)], l->t);
        e->a = l;
        inherit(e, l);
        mark_write(e, l);
        return e;
    }
    Expr* opassign(int op, Expr* l, Expr* rr) {
        Expr* e = X(X_OPASSIGN, l->t);
        e->op = op;
        e->a = l;
        e->b = rr;
        inherit(e, l);
        inherit(e, rr);
        mark_write(e, l);
        return e;
    }
    Expr* index(Expr* a, Expr* i) {
        Expr* e = X(X_INDEX, a->t->base);
        e->a = a;
        e->b = i;
        inherit(e, a);
        inherit(e, i);
        return e;
    }
    Expr* member(Expr* a, int mi) {
        Expr* e = X(X_MEMBER, a->t->sd->m[mi].t);
        e->a = a;
        e->mi = mi;
        inherit(e, a);
        return e;
    }
    Expr* arrow(Expr* a, int mi) {
        Expr* e = X(X_ARROW, a->t->base->sd->m[mi].t);
        e->a = a;
        e->mi = mi;
        inherit(e, a);
        return e;
    }
    Expr* deref(Expr* a) {
        Expr* e = X(X_DEREF, a->t->base);
        e->a = a;
        inherit(e, a);
        return e;
    }
    Expr* addr(Expr* a) {
        Expr* e = X(X_ADDR, ptr(a->t));
        e->a = a;
        inherit(e, a);
        Expr* b = a;
        while (b->k == X_MEMBER || (b->k == X_INDEX && b->a->t->k == T_ARR)) b = b->a;
        if (b->k == X_VAR) b->v->addr = true;
        return e;
    }
    // index expression guaranteed to lie in [0, n)
    Expr* idx(int n, int d, Ctx c) {
        std::vector<Var*> lv = cands([&](Var* v) { return v->t->k == T_INT && v->locked && v->lo >= 0 && v->hi < n && !v->param; }, c);
        if (!lv.empty() && r.chance(50)) return vx(r.pick(lv));
        if (n > 1 && (n & (n - 1)) == 0 && r.chance(50) && d > 0) {
            Expr* e = arith(d - 1, c);
            return bin(O_AND, e, lit(n - 1, ti));
        }
        return lit((int64_t)r.below((uint64_t)n), r.chance(80) ? ti : rnd_arith());
    }
    // ---- lvalues / readable objects of arithmetic type
    Expr* place(int d, Ctx c, bool write) {   // an lvalue of arithmetic type, or null
        for (int tries = 0; tries < 8; tries++) {
            uint64_t k = r.below(10);
            if (k < 5 || d <= 0) {
                auto vs = cands([&](Var* v) { return v->t->arith() && !(write && (v->locked || v->isenum)); }, c);
                if (vs.empty()) continue;
                return vx(r.pick(vs));
            }
            if (k < 7 && ft(FT_ARR)) {
                auto vs = cands([&](Var* v) { return v->t->k == T_ARR && !(write && v->locked); }, c);
                if (vs.empty()) continue;
                Expr* e = vx(r.pick(vs));
                e = drill(e, d, c);
                if (e && e->t->arith()) return e;
                continue;
            }
            if (k < 8 && ft(FT_STRUCT)) {
                auto vs = cands([&](Var* v) { return v->t->k == T_STRUCT && !(write && v->locked); }, c);
                if (vs.empty()) continue;
                Expr* e = drill(vx(r.pick(vs)), d, c);
                if (e && e->t->arith()) return e;
                continue;
            }
            if (ft(FT_PTR) && !c.stable) {
                auto vs = cands([&](Var* v) { return v->t->k == T_PTR && v->len > 0 && v->t->base->k != T_FUNC && v->t->base->k != T_PTR; }, c);
                if (vs.empty()) continue;
                Var* v = r.pick(vs);
                Expr* e;
                if (v->t->base->k == T_STRUCT && v->len == 1) {
                    std::vector<int> ms;
                    for (size_t i = 0; i < v->t->base->sd->m.size(); i++) ms.push_back((int)i);
                    e = arrow(vx(v), r.pick(ms));
                } else if (v->len == 1 && r.chance(70)) {
                    e = deref(vx(v));
                } else if (r.chance(25) && v->len > 1) {
                    e = deref(bin_ptr(O_ADD, vx(v), idx(v->len, d - 1, c)));
                } else
                    e = index(vx(v), idx(v->len, d - 1, c));
                e = drill(e, d, c);
                if (e && e->t->arith()) return e;
            }
        }
        return nullptr;
    }
    Expr* bin_ptr(int op, Expr* p, Expr* i) {
        Expr* e = X(X_BIN, p->t->k == T_ARR ? ptr(p->t->base) : p->t);
        if (p->t->k == T_ARR && p->k == X_VAR) p->v->addr = true;
        e->op = op;
        e->a = p;
        e->b = i;
        inherit(e, p);
        inherit(e, i);
        return e;
    }
    Expr* drill(Expr* e, int d, Ctx c) {
        while (e && !e->t->arith()) {
            if (e->t->k == T_ARR) e = index(e, idx(e->t->n, d - 1, c));
            else if (e->t->k == T_STRUCT) {
                std::vector<int> ms;
                for (size_t i = 0; i < e->t->sd->m.size(); i++)
                    if (e->t->sd->m[i].t->k != T_PTR) ms.push_back((int)i);
                if (ms.empty()) return nullptr;
                e = member(e, r.pick(ms));
            } else
                return nullptr;
        }
        return e;
    }
    // ---- pointers: expression of type T* with at least len elements
    Expr* pexpr(Type* base, int len, int d, Ctx c, int maxdepth) {
        for (int tries = 0; tries < 6; tries++) {
            uint64_t k = r.below(6);
            if (k < 2) {
                auto vs = cands([&](Var* v) { return v->t->k == T_PTR && v->t->base == base && v->len >= len && (v->depth <= maxdepth); }, c);
                if (vs.empty()) continue;
                Var* v = r.pick(vs);
                if (v->len > len && r.chance(40)) return bin_ptr(O_ADD, vx(v), lit((int64_t)r.below((uint64_t)(v->len - len + 1)), ti));
                return vx(v);
            }
            if (k < 4) {
                auto vs = cands([&](Var* v) { return v->t->k == T_ARR && v->t->base == base && v->t->n >= len && v->depth <= maxdepth && !v->locked; }, Ctx());
                if (vs.empty()) continue;
                Var* v = r.pick(vs);
                v->addr = true;
                int off = (int)r.below((uint64_t)(v->t->n - len + 1));
                if (off == 0 && r.chance(70)) return vx(v);
                if (r.chance(50)) return bin_ptr(O_ADD, vx(v), lit(off, ti));
                return addr(index(vx(v), lit(off, ti)));
            }
            if (k == 4 && len == 1) {
                auto vs = cands([&](Var* v) { return v->t == base && v->depth <= maxdepth && !v->locked && !v->isenum; }, Ctx());
                if (vs.empty()) continue;
                return addr(vx(r.pick(vs)));
            }
            if (k == 5 && ft(FT_STRUCT)) {
                auto vs = cands([&](Var* v) { return v->t->k == T_STRUCT && v->depth <= maxdepth && !v->locked; }, Ctx());
                if (vs.empty()) continue;
                Var* v = r.pick(vs);
                for (size_t i = 0; i < v->t->sd->m.size(); i++) {
                    Type* mt = v->t->sd->m[i].t;
                    if (mt == base && len == 1) return addr(member(vx(v), (int)i));
                    if (mt->k == T_ARR && mt->base == base && mt->n >= len) {
                        v->addr = true;
                        return member(vx(v), (int)i);
                    }
                }
            }
            if (ft(FT_COND) && d > 1 && r.chance(20)) {
                Expr* a = pexpr(base, len, d - 2, c, maxdepth);
                Expr* b = a ? pexpr(base, len, d - 2, c, maxdepth) : nullptr;
                if (b && (a->t->k == T_PTR || a->t->k == T_ARR) && (b->t->k == T_PTR || b->t->k == T_ARR) && !a->side && !b->side) return cond(arith(d - 2, c), a, b);
            }
        }
        return nullptr;
    }
    Expr* cond(Expr* q, Expr* a, Expr* b) {
        Expr* e = X(X_COND, a->t->arith() ? uac(a->t, b->t) : a->t->k == T_ARR ? ptr(a->t->base) : a->t);
        e->a = q;
        e->b = a;
        e->c = b;
        inherit(e, q);
        inherit(e, a);
        inherit(e, b);
        return e;
    }
    // ---- calls
    Expr* call(Func* f, int d, Ctx c) {
        Expr* e = X(X_CALL, f->t->base);
        e->f = f;
        if (ft(FT_FPTR) && !f->ext && r.chance(8)) e->form = 1;   // (*f)(..) / (&f) spelling is decided by the printer
        return fill_args(e, f->t->params, f, d, c);
    }
    Expr* fill_args(Expr* e, const std::vector<Type*>& ps, Func* f, int d, Ctx c) {
        int sidearg = (c.side && r.chance(35) && !ps.empty()) ? (int)r.below(ps.size()) : -1;
        std::vector<Expr*> as(ps.size(), nullptr);
        std::vector<Var*> avoid;
        bool top = false;
        auto one = [&](size_t i, Ctx cc) -> Expr* {
            Type* t = ps[i];
            int len = f && i < f->ei.len.size() ? f->ei.len[i] : 0;
            if (f && f->rec && i + 1 == ps.size()) {
                if (cf == f) return bin(O_SUB, vx(cf->params.back()), lit(1, ti));
                return lit((int64_t)r.below(4), ti);
            }
            if (t->k == T_PTR && t->base->k == T_FUNC) {
                std::vector<Func*> gs;
                for (auto g : P.funcs)
                    if (!g->ext && g->t == t->base && g->idx < (cf ? cf->idx : 1000) && (!in_pure || g->pure) && !g->rec) gs.push_back(g);
                auto vs = cands([&](Var* v) { return v->callable && v->t == t && !f->ext; }, cc);
                if (!vs.empty() && r.chance(40)) return vx(r.pick(vs));
                if (gs.empty()) return nullptr;
                Expr* q = X(X_FUNC, t);
                q->f = r.pick(gs);
                q->form = (int)r.below(2);
                return q;
            }
            if (t->k == T_PTR) {
                if (len == -1) {
                    Expr* q = X(X_STR, ptr(tc));
                    size_t n = r.below(7);
                    for (size_t k = 0; k < n; k++) q->s += rnd_char();
                    if (r.chance(50) || cc.stable) return q;
                    // a char array known to hold a terminated string
                    return q;
                }
                int L = len > 0 ? len : (f && !f->ext && i < f->params.size() ? f->params[i]->len : 1);
                return pexpr(t->base, std::max(1, L), d - 1, cc, 1000);
            }
            Expr* a = arith(d - 1, cc);
            return a;
        };
        if (sidearg >= 0) {
            Ctx cc = c;
            as[(size_t)sidearg] = one((size_t)sidearg, cc);
            if (!as[(size_t)sidearg]) return nullptr;
            avoid = as[(size_t)sidearg]->writes;
            top = as[(size_t)sidearg]->side;
        }
        for (size_t i = 0; i < ps.size(); i++) {
            if ((int)i == sidearg) continue;
            Ctx cc = c;
            cc.side = false;
            if (top) {
                cc.stable = true;
                merge_avoid(cc, avoid, c);
            }
            as[i] = one(i, cc);
            if (!as[i]) return nullptr;
        }
        for (auto a : as) {
            e->args.push_back(a);
            inherit(e, a);
        }
        bool pure = f ? f->pure : in_pure;
        if (!pure) e->side = e->topw = true;
        return e;
    }
    std::vector<std::vector<Var*>*> avoid_store;
    void merge_avoid(Ctx& cc, const std::vector<Var*>& av, const Ctx& outer) {
        auto* v = new std::vector<Var*>(av);
        if (outer.avoid) v->insert(v->end(), outer.avoid->begin(), outer.avoid->end());
        avoid_store.push_back(v);
        cc.avoid = v;
    }
    ~Gen() {
        for (auto v : avoid_store) delete v;
    }
    char rnd_char() {
        static const char cs[] = "abcXYZ019 _+-*/%()[]{}<>=!&|^~;:,.?#@$`\t\n\\\"'\r\a\b\f\v\x01\x7f\x1b";
        return cs[r.below(sizeof cs - 1)];
    }
    Expr* rcall(int d, Ctx c, bool want_value) {
        std::vector<Func*> fs;
        for (auto f : P.funcs) {
            if (want_value && f->isvoid()) continue;
            if (want_value && !f->t->base->arith()) continue;
            if (!f->ext && f->idx > cf->idx) continue;
            if (!f->ext && f == cf && !f->rec) continue;
            if (f == cf && (loopd > 0 || budget < 0)) continue;
            if (in_pure && !f->pure) continue;
            if (!f->pure && !c.side) continue;
            fs.push_back(f);
            if (f->ext && !in_pure) fs.push_back(f);
        }
        if (fs.empty()) return nullptr;
        if (loopd > 1 && r.chance(60)) return nullptr;
        return call(r.pick(fs), std::min(d, 2), c);
    }
    bool plain_target(Func* f) {   // may be called through a pointer from the function being generated
        if (f->ext || f->idx >= cf->idx || f->rec || f->isvoid() || !f->t->base->arith()) return false;
        if (in_pure && !f->pure) return false;
        for (auto t : f->t->params)
            if (!t->arith()) return false;
        return true;
    }
    Expr* fpcall(int d, Ctx c) {   // call through a function pointer variable in scope
        auto vs = cands([&](Var* v) { return v->callable && (v->fpure || c.side); }, c);
        if (vs.empty()) return nullptr;
        Var* v = r.pick(vs);
        Expr* e = X(X_CALL, v->t->base->base);
        e->a = vx(v);
        if (r.chance(30)) e->a = deref(e->a);
        e = fill_args(e, v->t->base->params, nullptr, std::min(d, 2), c);
        if (!e) return nullptr;
        if (!v->fpure) e->side = e->topw = true;
        return e;
    }
    // many values live at once: a0 op (a1 op (a2 op ... core))
    Expr* chain(int d, Ctx c) {
        Expr* e = nullptr;
        int n = 2 + (int)r.below((uint64_t)std::max(1, C.maxlive));
        bool full = (focus == 1 || focus == 2 || C.maxlive >= 8) && r.chance(50);   // all registers in use
        if (full) n = r.chance(50) ? 7 : 5 + (int)r.below(2);
        if (!c.stable && r.chance(full ? 15 : 60)) e = r.chance(50) ? fpcall(2, c) : rcall(2, c, true);
        if (!e && full && ft(FT_DIV)) e = bin(r.chance(50) ? O_DIV : O_MOD, leaf(c), r.chance(60) ? lit((int64_t)r.below(99) + 1, rnd_arith()) : bin(O_OR, leaf(noside(c)), lit(1, ti)));
        if (!e) e = arith(std::min(d - 1, 2), c);
        static const int ops[] = {O_ADD, O_SUB, O_XOR, O_OR, O_AND, O_MUL, O_LT, O_NE};
        for (int i = 0; i < n; i++) {
            Ctx cc = noside(c);
            if (e->side) {
                cc.stable = true;
                merge_avoid(cc, e->writes, c);
            }
            Expr* a = r.chance(30) ? bin(O_MUL, leaf(cc), leaf(cc)) : leaf(cc);
            if (full && ft(FT_DIV) && r.chance(25)) a = bin(r.chance(50) ? O_DIV : O_MOD, a, lit((int64_t)r.below(99) + 1, rnd_arith()));
            e = bin(ops[r.below(8)], a, e);
        }
        return e;
    }
    // ---- arithmetic expressions
    Expr* arith(int d, Ctx c) {
        if (d <= 0 || r.chance(12)) return leaf(c);
        if (ft(FT_FPTR) && !c.stable && !C.probe && r.chance(5)) {
            Expr* e = fpcall(d, c);
            if (e) return e;
        }
        if (ft(FT_CHAIN) && d >= C.depth && d > 1 && !C.probe && r.chance(C.maxlive >= 8 ? 20 : 8)) return chain(d, c);
        if (C.probe) {
            if (c.side && !c.stable && r.chance(60)) {
                Expr* e = rcall(d, c, true);
                if (e) return e;
            }
            Expr* e = place(d, c, false);
            return e ? e : leaf(c);
        }
        for (int tries = 0; tries < 5; tries++) {
            uint64_t k = r.below(100);
            if (k < 34) {
                std::vector<int> ops = {O_ADD, O_ADD, O_SUB, O_SUB, O_MUL, O_AND, O_OR, O_XOR};
                if (ft(FT_DIV)) ops.push_back(O_DIV), ops.push_back(O_MOD), ops.push_back(O_DIV);
                int op = r.pick(ops);
                if (favop && r.chance(60)) op = favop;
                Expr *a, *b;
                two(d, c, a, b);
                if ((op == O_DIV || op == O_MOD) && r.chance(60)) b = lit((int64_t)r.below(99) + 1, rnd_arith());
                else if ((op == O_DIV || op == O_MOD) && r.chance(60)) b = bin(O_OR, b, lit(1, ti));
                return bin(op, a, b);
            }
            if (k < 44) {
                Expr *a, *b;
                two(d, c, a, b);
                return bin((int)(O_LT + r.below(6)), a, b);
            }
            if (k < 50 && ft(FT_SHIFT)) {
                Expr* a = arith(d - 1, c);
                int w = promo(*this, a->t)->size() * 8;
                return bin(r.chance(50) ? O_SHL : O_SHR, a, lit((int64_t)r.below((uint64_t)w), r.chance(65) ? ti : rnd_arith()));
            }
            if (k < 57) {
                static const int us[] = {O_NEG, O_NOT, O_LNOT, O_POS, O_NEG, O_NOT};
                return un(us[r.below(6)], arith(d - 1, c));
            }
            if (k < 63 && ft(FT_LOGIC)) {
                Expr* e = X(r.chance(50) ? X_LAND : X_LOR, ti);
                e->a = truthy(d - 1, c);
                e->b = truthy(d - 1, c);
                inherit(e, e->a);
                inherit(e, e->b);
                return e;
            }
            if (k < 68 && ft(FT_COND)) {
                Expr* q = truthy(d - 1, c);
                Expr* a = arith(d - 1, c);
                Expr* b = arith(d - 1, c);
                return cond(q, a, b);
            }
            if (k < 74 && ft(FT_CAST)) return cast(rnd_arith(), arith(d - 1, c));
            if (k < 82) {
                Expr* e = place(d, c, false);
                if (e) return e;
                continue;
            }
            if (k < 93 && ft(FT_NESTCALL)) {
                if (c.stable) continue;
                Expr* e = rcall(d, c, true);
                if (e) return e;
                continue;
            }
            if (k < 95 && ft(FT_SIZEOF)) {
                Expr* e = X(X_SIZEOFT, tul);
                if (r.chance(50) && !P.structs.empty() && ft(FT_STRUCT)) e->ty = r.pick(P.structs)->self;
                else e->ty = r.chance(50) ? rnd_arith() : ptr(rnd_arith());
                if (r.chance(40)) {
                    Ctx cc = noside(c);
                    Expr* o = nullptr;
                    auto vs = cands([&](Var* v) { return !v->callable; }, cc);
                    if (!vs.empty() && r.chance(60)) o = vx(r.pick(vs));
                    else o = place(2, cc, false);
                    if (o) {
                        e->k = X_SIZEOFE;
                        e->ty = nullptr;
                        e->a = o;
                    }
                } else if (r.chance(20)) e->ty = arr(rnd_arith(), 1 + (int)r.below(9));
                // a bare sizeof has type int in umlcc (known finding, pinned by the unit tests)
                return cast(r.chance(50) ? ti : tul, e);
            }
            if (c.side && ft(FT_INCDEC)) {
                Expr* l = place(std::min(d, 1), noside(c), true);
                if (l && !l->side) {
                    if (r.chance(60)) return incdec(l);
                    Ctx cc = c;
                    cc.side = false;
                    Expr* v = arith(d - 1, cc);
                    if (r.chance(50)) return assign(l, v);
                    if (ft(FT_OPASSIGN)) {
                        static const int os[] = {O_ADD, O_SUB, O_XOR, O_OR, O_AND, O_MUL};
                        return opassign(os[r.below(6)], l, v);
                    }
                }
                continue;
            }
            if (ft(FT_PTR) && d > 1 && !c.stable && k > 97) {   // pointer comparison / difference inside one array
                auto vs = cands([&](Var* v) { return v->t->k == T_ARR && v->t->base->arith() && !v->locked; }, c);
                if (!vs.empty()) {
                    Var* v = r.pick(vs);
                    v->addr = true;
                    Expr* a = bin_ptr(O_ADD, vx(v), idx(v->t->n, 1, noside(c)));
                    Expr* b = addr(index(vx(v), lit((int64_t)r.below((uint64_t)v->t->n), ti)));
                    int op = (int)(O_LT + r.below(6));
                    Expr* e = X(X_BIN, ti);
                    e->op = op;
                    e->a = a;
                    e->b = b;
                    inherit(e, a);
                    return e;
                }
            }
        }
        return leaf(c);
    }
    Ctx noside(Ctx c) {
        c.side = false;
        return c;
    }
    Expr* truthy(int d, Ctx c) {   // a controlling expression; pointers to objects are true
        if (ft(FT_PTRX) && !c.stable && r.chance(12)) {
            auto vs = cands([&](Var* v) { return v->t->k == T_PTR && (v->len > 0 || v->callable); }, c);
            Expr* e = vs.empty() ? nullptr : vx(r.pick(vs));
            if (!e || r.chance(35)) {   // things that decay
                auto as = cands([&](Var* v) { return v->t->k == T_ARR; }, c);
                uint64_t k = r.below(10);
                if (k < 6 && !as.empty()) {
                    Var* v = r.pick(as);
                    v->addr = true;
                    e = vx(v);
                } else if (k < 9 && ft(FT_FPTR)) {
                    std::vector<Func*> gs;
                    for (auto g : P.funcs)
                        if (!g->ext && g->idx < (cf ? cf->idx : 1000)) gs.push_back(g);
                    if (!gs.empty()) {
                        Func* g = r.pick(gs);
                        e = X(X_FUNC, ptr(g->t));
                        e->f = g;
                    }
                } else if (ft(FT_STR)) {
                    e = X(X_STR, ptr(tc));
                    e->s = r.chance(50) ? "" : "x";
                }
            }
            if (e) {
                if (r.chance(35)) {
                    Expr* n = X(X_UN, ti);
                    n->op = O_LNOT;
                    n->a = e;
                    return n;
                }
                return e;
            }
        }
        return arith(d, c);
    }
    void two(int d, Ctx c, Expr*& a, Expr*& b) {
        if (c.side && r.chance(45)) {
            bool first = r.chance(50);
            Expr* s = arith(d - 1, c);
            Ctx cc = c;
            cc.side = false;
            if (s->side) {
                cc.stable = true;
                merge_avoid(cc, s->writes, c);
            }
            Expr* o = arith(d - 1, cc);
            a = first ? s : o;
            b = first ? o : s;
            return;
        }
        Ctx cc = noside(c);
        a = arith(d - 1, cc);
        b = arith(d - 1 - (int)r.below(2), cc);
    }
    Expr* leaf(Ctx c) {
        if (r.chance(70)) {
            Expr* e = place(0, c, false);
            if (e) return e;
        }
        return rlit();
    }
    // ---- initialisers
    Init* zero_init(Type* t, bool constant, int d, bool top = true) {
        Init* i = I();
        if (t->k == T_ARR) {
            if (top && t->base->k == T_CHAR && r.chance(50) && t->n >= 2) {
                i->str = true;
                size_t n = r.below((uint64_t)t->n);
                for (size_t k = 0; k < n; k++) i->s += rnd_char();
                return i;
            }
            i->list = true;
            for (int k = 0; k < t->n; k++) i->l.push_back(zero_init(t->base, constant, d, false));
            return i;
        }
        if (t->k == T_STRUCT) {
            i->list = true;
            for (auto& m : t->sd->m) i->l.push_back(zero_init(m.t, constant, d, false));
            return i;
        }
        if (constant) {
            i->e = lit(rnd_val(t), t);
        } else
            i->e = arith(d, Ctx());
        return i;
    }
    bool has_ptr(Type* t) {
        if (t->k == T_PTR) return true;
        if (t->k == T_ARR) return has_ptr(t->base);
        if (t->k == T_STRUCT)
            for (auto& m : t->sd->m)
                if (has_ptr(m.t)) return true;
        return false;
    }
    // truncate trailing initialisers of int/char lists (rest is zero)
    void maybe_partial(Init* i, Type* t) {
        if (!i->list || i->l.size() < 2 || !r.chance(25)) return;
        if (t->k == T_ARR && (t->base->arith() || t->base->k == T_ARR)) i->l.resize(1 + r.below(i->l.size() - 1));
    }
    // ---- statements
    Stmt* block(const std::vector<Stmt*>& b) {
        Stmt* s = S(S_BLOCK);
        s->body = b;
        return s;
    }
    Stmt* es(Expr* e) {
        Stmt* s = S(S_EXPR);
        s->e = e;
        return s;
    }
    std::string local_name() {
        if (ft(FT_SHADOW) && depth > 1 && !scope.empty() && r.chance(25)) {
            Var* v = r.pick(scope);
            if (v->depth < depth && !v->locked) {
                bool clash = false;
                for (auto w : scope)
                    if (w->name == v->name && w->depth >= depth) clash = true;
                if (!clash) return v->name;
            }
        }
        return nm("v");
    }
    Stmt* decl() {
        Stmt* s = S(S_DECL);
        s->deletable = false;
        uint64_t k = r.below(10);
        std::string n = local_name();
        hidden.push_back(n);
        Var* v = nullptr;
        std::vector<Func*> fs;
        if (ft(FT_FPTR) && r.chance(10))
            for (auto f : P.funcs)
                if (plain_target(f)) fs.push_back(f);
        if (!fs.empty()) {
            Func* f = r.pick(fs);
            v = V(n, ptr(f->t));
            v->locked = v->callable = true;
            v->fpure = f->pure;
            s->init = I();
            s->init->e = X(X_FUNC, v->t);
            s->init->e->f = f;
            s->init->e->form = (int)r.below(2);
        } else if (k < 5) {
            v = V(n, rnd_arith());
            s->init = I();
            Ctx c;
            c.side = r.chance(30);
            s->init->e = arith(C.depth, c);
        } else if (k < 7 && ft(FT_ARR)) {
            static const int ns[] = {1, 2, 3, 4, 5, 8};
            Type* b = rnd_arith();
            int len = ns[r.below(6)];
            Type* t = arr(b, len);
            if (ft(FT_2D) && r.chance(25)) t = arr(arr(b, ns[r.below(4)]), ns[r.below(4)]);
            v = V(n, t);
            s->init = zero_init(t, r.chance(50), 1);
            if (s->init->str == false) maybe_partial(s->init, t);
        } else if (k < 8 && ft(FT_STRUCT) && !P.structs.empty()) {
            Struct* sd = r.pick(P.structs);
            if (!has_ptr(sd->self) && sd->self->size() < 8192) {
                v = V(n, sd->self);
                s->init = zero_init(sd->self, r.chance(40), 1);
            }
        } else if (ft(FT_PTR)) {
            Type* b = (ft(FT_STRUCT) && !P.structs.empty() && r.chance(30)) ? r.pick(P.structs)->self : rnd_arith();
            int len = 1 + (int)r.below(3);
            if (b->k == T_STRUCT) len = 1;
            Expr* e = pexpr(b, len, 2, Ctx(), depth);
            if (!e && len > 1) e = pexpr(b, len = 1, 2, Ctx(), depth);
            if (e) {
                v = V(n, ptr(b));
                v->len = len;
                s->init = I();
                s->init->e = e;
            }
        }
        if (!v) {
            v = V(n, rnd_arith());
            s->init = I();
            s->init->e = arith(2, Ctx());
        }
        hidden.pop_back();
        s->v = v;
        v->depth = depth;
        scope.push_back(v);
        return s;
    }
    Stmt* assign_stmt() {
        Ctx c;
        c.side = true;
        for (int t = 0; t < 4; t++) {
            if (ft(FT_PTR) && r.chance(12)) {   // re-point a pointer
                auto vs = cands([&](Var* v) { return v->t->k == T_PTR && v->t->base->k != T_FUNC && v->len > 0 && !v->locked && !v->global; }, Ctx());
                if (!vs.empty()) {
                    Var* v = r.pick(vs);
                    Expr* e = pexpr(v->t->base, v->len, 2, Ctx(), v->depth);
                    if (e) return es(assign(vx(v), e));
                }
            }
            bool sidelhs = r.chance(10);
            Expr* l = place(2, sidelhs ? c : Ctx(), true);
            if (!l) continue;
            bool plain = l->k == X_VAR;
            uint64_t k = r.below(10);
            if (k < 2 && ft(FT_INCDEC) && !l->side) return es(incdec(l));
            Ctx rc = c;
            if (l->side) {
                rc.side = false;
                rc.stable = true;
                merge_avoid(rc, l->writes, Ctx());
            } else if (!plain)
                rc.side = false;
            Expr* v = arith(C.depth, rc);
            if (v->side && plain && std::find(v->writes.begin(), v->writes.end(), l->v) != v->writes.end()) continue;
            if (k < 5 && ft(FT_OPASSIGN) && !l->side && !v->side) {
                std::vector<int> os = {O_ADD, O_SUB, O_MUL, O_AND, O_OR, O_XOR};
                if (ft(FT_DIV)) os.push_back(O_DIV), os.push_back(O_MOD);
                if (ft(FT_SHIFT)) os.push_back(O_SHL), os.push_back(O_SHR);
                int op = r.pick(os);
                if (op == O_SHL || op == O_SHR) v = lit((int64_t)r.below((uint64_t)promo(*this, l->t)->size() * 8), r.chance(65) ? ti : rnd_arith());
                else if ((op == O_DIV || op == O_MOD) && r.chance(70)) v = lit((int64_t)r.below(50) + 1, rnd_arith());
                return es(opassign(op, l, v));
            }
            return es(assign(l, v));
        }
        return S(S_EMPTY);
    }
    Stmt* body(int n) {
        depth++;
        size_t sc = scope.size();
        std::vector<Stmt*> b;
        stmts(b, n);
        scope.resize(sc);
        depth--;
        return block(b);
    }
    Stmt* single_or_block(int n) {
        if (r.chance(25)) return simple();
        return body(n);
    }
    Stmt* simple() {
        uint64_t k = r.below(10);
        if (k < 6) return assign_stmt();
        Ctx c;
        c.side = true;
        Expr* e = rcall(2, c, false);
        if (e) return es(e);
        return assign_stmt();
    }
    Stmt* loop_for(int n) {
        Stmt* s = S(S_FOR);
        depth++;
        size_t sc = scope.size();
        Var* i;
        int N = 1 + (int)r.below(5), lo = (int)r.below(2);
        bool decl_in = r.chance(50);
        i = V(nm("i"), ti);
        i->locked = true;
        i->lo = lo;
        i->hi = lo + N - 1;
        Stmt* pre = nullptr;
        if (decl_in) {
            s->v = i;
            s->init = I();
            s->init->e = lit(lo, ti);
            scope.push_back(i);
        } else {
            pre = S(S_DECL);
            pre->deletable = false;
            pre->v = i;
            pre->init = I();
            pre->init->e = lit(lo, ti);
            scope.push_back(i);
            if (r.chance(70)) s->e2 = assign(vx(i), lit(lo, ti));
        }
        int dir = (int)r.below(3);
        if (dir == 0) s->e = bin(O_LT, vx(i), lit(lo + N, ti));
        else if (dir == 1) s->e = bin(O_LE, vx(i), lit(lo + N - 1, ti));
        else s->e = bin(O_NE, vx(i), lit(lo + N, ti));
        Expr* st = X(r.chance(50) ? X_POSTINC : X_PREINC, ti);
        st->a = vx(i);
        mark_write(st, st->a);
        s->e3 = r.chance(80) ? st : opassign(O_ADD, vx(i), lit(1, ti));
        loopd++;
        int sw = switchd;
        switchd = 0;
        s->s1 = single_or_block(n);
        switchd = sw;
        loopd--;
        scope.resize(sc);
        depth--;
        if (!pre) return s;
        std::vector<Stmt*> b = {pre, s};
        return block(b);
    }
    Stmt* loop_while(int n) {
        depth++;
        size_t sc = scope.size();
        Stmt* pre = S(S_DECL);
        pre->deletable = false;
        Var* w = V(nm("w"), ti);
        w->locked = true;
        w->lo = -1;
        w->hi = 100;
        pre->v = w;
        pre->init = I();
        pre->init->e = lit((int64_t)r.below(5), ti);
        scope.push_back(w);
        Stmt* s = S(S_WHILE);
        Expr* dec = X(X_POSTDEC, ti);
        dec->a = vx(w);
        mark_write(dec, dec->a);
        Expr* c = r.chance(50) ? dec : bin(O_GT, dec, lit(0, ti));
        if (ft(FT_LOGIC) && r.chance(30)) {
            Expr* e = X(X_LAND, ti);
            e->a = c;
            Ctx cc;
            e->b = arith(1, cc);
            inherit(e, c);
            inherit(e, e->b);
            c = e;
        }
        s->e = c;
        loopd++;
        int sw = switchd;
        switchd = 0;
        s->s1 = single_or_block(n);
        switchd = sw;
        loopd--;
        scope.resize(sc);
        depth--;
        return block({pre, s});
    }
    Stmt* sw(int n) {
        Stmt* s = S(S_SWITCH);
        Expr* q = arith(2, Ctx());
        if (q->t->size() == 8 || r.chance(60)) q = cast(ti, q);
        if (r.chance(60)) q = bin(O_AND, q, lit(7, ti));
        s->e = q;
        int nc = 1 + (int)r.below(4);
        std::set<int64_t> used;
        bool hasd = r.chance(60);
        int dpos = (int)r.below((uint64_t)nc + 1);
        switchd++;
        if (ft(FT_BIG) && r.chance(5)) nc = 20 + (int)r.below(40);
        for (int i = 0; i <= nc; i++) {
            Case1 c;
            if (hasd && i == dpos) c.dflt = true;
            else {
                int64_t v = (int64_t)r.below(8);
                if (r.chance(nc > 10 ? 90 : 10)) v = (int64_t)r.below(128);
                if (r.chance(4)) v = (int64_t)(r.next() & 0x7fffffff);
                if (used.count(v)) continue;
                used.insert(v);
                c.val = v;
                c.lab = X(X_LIT, ti);
                c.lab->val = v;
                c.lab->form = (int)r.below(12);
            }
            depth++;
            size_t sc = scope.size();
            if (!r.chance(20)) {
                if (switchd < 3 && budget > 0 && r.chance(10)) {   // a switch in a switch, each with or without its own default
                    budget--;
                    if (r.chance(30)) c.body.push_back(simple());
                    c.body.push_back(sw(2));
                    if (r.chance(30)) c.body.push_back(simple());
                } else if (r.chance(30)) {
                    Stmt* b = body(2);
                    c.body.push_back(b);
                } else {
                    c.body.push_back(simple());
                    if (r.chance(40)) c.body.push_back(simple());
                }
            }
            if (r.chance(65)) c.body.push_back(S(S_BREAK));
            else if (c.body.empty() && i >= nc) c.body.push_back(S(S_EMPTY));
            scope.resize(sc);
            depth--;
            s->cases.push_back(c);
        }
        switchd--;
        if (s->cases.empty()) return simple();
        if (s->cases.back().body.empty()) s->cases.back().body.push_back(S(S_EMPTY));
        (void)n;
        return s;
    }
    Stmt* walk() {   // pointer walk over an array: for (p = a; p < a + n; p++) acc op= *p;
        auto vs = cands([&](Var* v) { return v->t->k == T_ARR && v->t->base->arith() && !v->locked; }, Ctx());
        auto as = cands([&](Var* v) { return v->t->arith() && !v->locked && !v->isenum; }, Ctx());
        if (vs.empty() || as.empty()) return assign_stmt();
        Var* a = r.pick(vs);
        Var* acc = r.pick(as);
        a->addr = true;
        depth++;
        size_t sc = scope.size();
        Var* p = V(nm("p"), ptr(a->t->base));
        p->locked = true;
        Stmt* pre = S(S_DECL);
        pre->deletable = false;
        pre->v = p;
        pre->init = I();
        pre->init->e = vx(a);
        scope.push_back(p);
        Stmt* s = S(S_FOR);
        if (r.chance(50)) s->e2 = assign(vx(p), vx(a));
        s->e = X(X_BIN, ti);
        s->e->op = r.chance(70) ? O_LT : O_NE;
        s->e->a = vx(p);
        s->e->b = bin_ptr(O_ADD, vx(a), lit(a->t->n, ti));
        Expr* st = X(r.chance(50) ? X_POSTINC : X_PREINC, p->t);
        st->a = vx(p);
        mark_write(st, st->a);
        s->e3 = st;
        static const int os[] = {O_ADD, O_XOR, O_SUB, O_OR};
        s->s1 = es(opassign(os[r.below(4)], vx(acc), deref(vx(p))));
        if (r.chance(40)) s->s1 = es(assign(deref(vx(p)), arith(1, Ctx())));
        scope.resize(sc);
        depth--;
        return block({pre, s});
    }
    Stmt* list_pattern() {   // linked list inside an array of self-referential structures
        Struct* sd = nullptr;
        int nx = -1, dm = -1;
        for (auto q : P.structs)
            for (size_t i = 0; i < q->m.size(); i++)
                if (q->m[i].t->k == T_PTR && q->m[i].t->base == q->self && q->self->size() < 8192) sd = q, nx = (int)i;
        if (!sd) return assign_stmt();
        for (size_t i = 0; i < sd->m.size(); i++)
            if (sd->m[i].t->arith()) dm = (int)i;
        auto as = cands([&](Var* v) { return v->t->arith() && !v->locked && !v->isenum; }, Ctx());
        if (dm < 0 || as.empty()) return assign_stmt();
        Var* acc = r.pick(as);
        depth++;
        size_t sc = scope.size();
        int N = 2 + (int)r.below(3);
        Var* a = V(nm("n"), arr(sd->self, N));
        a->locked = true;
        a->addr = true;
        Stmt* d1 = S(S_DECL);
        d1->deletable = false;
        d1->v = a;
        scope.push_back(a);
        std::vector<Stmt*> b = {d1};
        for (int i = 0; i < N; i++) {
            b.push_back(es(assign(member(index(vx(a), lit(i, ti)), dm), arith(2, Ctx()))));
            Expr* nxt = addr(index(vx(a), lit(i + 1 < N ? i + 1 : 0, ti)));
            b.push_back(es(assign(member(index(vx(a), lit(i, ti)), nx), nxt)));
            b[b.size() - 1]->deletable = b[b.size() - 2]->deletable = false;
        }
        Var* p = V(nm("q"), ptr(sd->self));
        p->locked = true;
        Stmt* d2 = S(S_DECL);
        d2->deletable = false;
        d2->v = p;
        d2->init = I();
        d2->init->e = addr(index(vx(a), lit((int64_t)r.below((uint64_t)N), ti)));
        b.push_back(d2);
        scope.push_back(p);
        Var* i = V(nm("i"), ti);
        i->locked = true;
        Stmt* s = S(S_FOR);
        s->v = i;
        s->init = I();
        s->init->e = lit(0, ti);
        s->e = bin(O_LT, vx(i), lit(1 + (int64_t)r.below(6), ti));
        Expr* st = X(X_POSTINC, ti);
        st->a = vx(i);
        mark_write(st, st->a);
        s->e3 = st;
        Stmt* st1 = es(opassign(r.chance(50) ? O_ADD : O_XOR, vx(acc), arrow(vx(p), dm)));
        Stmt* st2 = es(assign(vx(p), arrow(vx(p), nx)));
        s->s1 = block({st1, st2});
        b.push_back(s);
        if (r.chance(40)) b.push_back(es(assign(vx(acc), arrow(arrow(vx(p), nx), dm))));
        scope.resize(sc);
        depth--;
        return block(b);
    }
    Stmt* fptr_pattern() {   // call through a function pointer variable or table
        std::vector<Func*> fs;
        for (auto f : P.funcs) {
            if (f->ext || f->idx >= cf->idx || f->rec || f->isvoid() || !f->t->base->arith()) continue;
            if (in_pure && !f->pure) continue;
            bool ok = true;
            for (auto t : f->t->params) ok &= t->arith();
            if (ok) fs.push_back(f);
        }
        auto as = cands([&](Var* v) { return v->t->arith() && !v->locked && !v->isenum; }, Ctx());
        if (fs.empty() || as.empty()) return assign_stmt();
        Func* f = r.pick(fs);
        Func* f2 = f;
        for (auto g : fs)
            if (g != f && g->t == f->t) f2 = g;
        depth++;
        size_t sc = scope.size();
        std::vector<Stmt*> b;
        auto fe = [&](Func* g) {
            Expr* q = X(X_FUNC, ptr(f->t));
            q->f = g;
            q->form = (int)r.below(2);
            return q;
        };
        Expr* callee;
        if (r.chance(60)) {
            Var* p = V(nm("f"), ptr(f->t));
            p->locked = true;
            Stmt* d = S(S_DECL);
            d->deletable = false;
            d->v = p;
            d->init = I();
            d->init->e = fe(f);
            scope.push_back(p);
            b.push_back(d);
            if (f2 != f && r.chance(60)) {
                Stmt* is = S(S_IF);
                is->e = arith(2, Ctx());
                is->s1 = es(assign(vx(p), fe(f2)));
                b.push_back(is);
            }
            callee = vx(p);
            if (r.chance(40)) callee = deref(callee);
        } else {
            Var* p = V(nm("ft"), arr(ptr(f->t), 2));
            p->locked = true;
            Stmt* d = S(S_DECL);
            d->deletable = false;
            d->v = p;
            scope.push_back(p);
            b.push_back(d);
            b.push_back(es(assign(index(vx(p), lit(0, ti)), fe(f))));
            b.push_back(es(assign(index(vx(p), lit(1, ti)), fe(f2))));
            b[1]->deletable = b[2]->deletable = false;
            callee = index(vx(p), bin(O_AND, arith(1, Ctx()), lit(1, ti)));
        }
        Expr* e = X(X_CALL, f->t->base);
        e->a = callee;
        bool pure = f->pure && f2->pure;
        Ctx c;
        c.side = false;
        e = fill_args(e, f->t->params, nullptr, 2, c);
        if (e) {
            if (!pure) e->side = e->topw = true;
            Var* acc = r.pick(as);
            b.push_back(es(assign(vx(acc), e)));
        }
        scope.resize(sc);
        depth--;
        return block(b);
    }
    // a call, through a pointer if there is one, with a chosen number of values live around it
    Stmt* press_pattern() {
        auto as = cands([&](Var* v) { return v->t->arith() && !v->locked && !v->isenum; }, Ctx());
        std::vector<Func*> fs, xs;
        for (auto f : P.funcs) {
            if (plain_target(f)) fs.push_back(f);
            if (f->ext && !in_pure && !f->isvoid() && f->t->base->arith()) xs.push_back(f);
        }
        if (as.empty() || (fs.empty() && xs.empty())) return assign_stmt();
        depth++;
        size_t sc = scope.size();
        std::vector<Stmt*> b;
        Expr* e = nullptr;
        Ctx c;
        c.side = false;
        if (!fs.empty() && (xs.empty() || r.chance(70))) {
            Func* f = r.pick(fs);
            Func* g = r.pick(fs);
            if (g->t->params.size() > f->t->params.size()) f = g;
            e = X(X_CALL, f->t->base);
            Var* p = V(nm("f"), ptr(f->t));
            p->locked = true;
            Expr* q = X(X_FUNC, p->t);
            q->f = f;
            q->form = (int)r.below(2);
            b.push_back(D(p, q));
            e->a = vx(p);
            if (r.chance(30)) e->a = deref(e->a);
            e = fill_args(e, f->t->params, nullptr, (int)r.below(3), c);
            if (e && !f->pure) e->side = e->topw = true;
        } else {
            c.side = true;
            e = call(r.pick(xs), (int)r.below(3), c);
        }
        if (e) {
            int n = (int)r.below(focus ? 7 : (uint64_t)C.maxlive);
            static const int ops[] = {O_ADD, O_SUB, O_XOR, O_OR, O_MUL, O_LT, O_NE, O_GE};
            std::vector<Var*> av = e->writes;
            bool side = e->side;
            for (int i = 0; i < n; i++) {
                Ctx cc = noside(Ctx());
                if (side) {
                    cc.stable = true;
                    merge_avoid(cc, av, Ctx());
                }
                Expr* a = r.chance(60) ? bin(O_MUL, leaf(cc), leaf(cc)) : leaf(cc);
                e = bin(ops[r.below(8)], a, e);
            }
            b.push_back(es(assign(vx(r.pick(as)), e)));
        }
        scope.resize(sc);
        depth--;
        return block(b);
    }
    Stmt* D(Var* v, Expr* e = nullptr) {   // declaration that must stay
        Stmt* d = S(S_DECL);
        d->deletable = false;
        d->v = v;
        if (e) {
            d->init = I();
            d->init->e = e;
        }
        scope.push_back(v);
        return d;
    }
    Stmt* keep(Stmt* s) {
        s->deletable = false;
        return s;
    }
    std::vector<Var*> accs() {
        return cands([&](Var* v) { return v->t->arith() && !v->locked && !v->isenum; }, Ctx());
    }
    Stmt* ltype_pattern() {   // structure, enumeration and variables of them declared in a block
        depth++;
        size_t sc = scope.size(), le = lenums.size();
        std::vector<Stmt*> b;
        if (ft(FT_ENUM) && r.chance(60)) {
            Enum* e = mk_enum();
            P.lenums.push_back(e);
            Stmt* t = keep(S(S_TYPE));
            t->en = e;
            b.push_back(t);
            lenums.push_back(e);
        }
        if (ft(FT_STRUCT) && r.chance(80)) {
            Struct* sd = mk_struct(0, false);
            P.lstructs.push_back(sd);
            Stmt* t = keep(S(S_TYPE));
            t->sd = sd;
            b.push_back(t);
            if (sd->anon) sd->tdname = nm("TL");
            Type* vt = r.chance(75) ? sd->self : arr(sd->self, 1 + (int)r.below(3));
            Var* v = V(nm("l"), vt);
            v->depth = depth;
            Stmt* d = S(S_DECL);
            d->deletable = false;
            d->v = v;
            d->init = zero_init(vt, r.chance(40), 1);
            scope.push_back(v);
            b.push_back(d);
        }
        stmts(b, 1 + (int)r.below(4));
        scope.resize(sc);
        lenums.resize(le);
        depth--;
        return block(b);
    }
    Stmt* pp_pattern() {   // pointer to pointer, global pointer, *p++
        auto vs = cands([&](Var* v) { return v->t->k == T_ARR && v->t->base->arith() && v->t->n >= 2 && !v->locked; }, Ctx());
        auto as = accs();
        if (vs.empty() || as.empty()) return assign_stmt();
        Var *a = r.pick(vs), *acc = r.pick(as);
        a->addr = true;
        depth++;
        size_t sc = scope.size();
        Type* et = a->t->base;
        Var* p = V(nm("p"), ptr(et));
        p->locked = p->addr = true;
        Var* pp = V(nm("pp"), ptr(ptr(et)));
        pp->locked = true;
        std::vector<Stmt*> b;
        b.push_back(D(p, r.chance(50) ? vx(a) : addr(index(vx(a), lit(0, ti)))));
        b.push_back(D(pp, addr(vx(p))));
        auto rhs = [&]() { return arith(2, Ctx()); };
        switch (r.below(5)) {
            case 0:
                b.push_back(es(assign(deref(deref(vx(pp))), rhs())));
                b.push_back(es(opassign(O_XOR, vx(acc), deref(vx(p)))));
                break;
            case 1: {
                Expr* inc = X(X_POSTINC, p->t);
                inc->a = vx(p);
                mark_write(inc, inc->a);
                b.push_back(es(assign(deref(inc), lit(rnd_val(et), et))));
                b.push_back(es(assign(vx(acc), deref(deref(vx(pp))))));
                break;
            }
            case 2: {
                Expr* inc = X(r.chance(50) ? X_PREINC : X_POSTINC, p->t);
                inc->a = deref(vx(pp));
                mark_write(inc, inc->a);
                b.push_back(es(inc));
                b.push_back(es(assign(vx(acc), index(vx(p), un(O_NEG, lit(1, ti))))));
                if (r.chance(60)) b.push_back(es(assign(index(deref(vx(pp)), lit(0, ti)), rhs())));
                break;
            }
            case 3:
                b.push_back(es(assign(deref(vx(pp)), bin_ptr(O_ADD, vx(a), lit(1, ti)))));
                b.push_back(es(opassign(O_ADD, deref(vx(p)), lit(3, ti))));
                b.push_back(es(assign(vx(acc), index(deref(vx(pp)), lit(0, ti)))));
                break;
            default: {
                Expr* oa = opassign(O_ADD, vx(p), lit(1, ti));
                b.push_back(es(oa));
                Expr* os = opassign(O_SUB, deref(vx(pp)), lit(1, ti));
                b.push_back(es(os));
                b.push_back(es(assign(vx(acc), deref(vx(p)))));
            }
        }
        scope.resize(sc);
        depth--;
        return block(b);
    }
    Stmt* apt_pattern() {   // array of pointers, pointer to array
        auto as = accs();
        auto xs = cands([&](Var* v) { return v->t->arith() && !v->locked && !v->isenum; }, Ctx());
        if (as.empty() || xs.empty()) return assign_stmt();
        Var* acc = r.pick(as);
        Var* x = r.pick(xs);
        depth++;
        size_t sc = scope.size();
        std::vector<Stmt*> b;
        std::vector<Var*> same = cands([&](Var* v) { return v->t == x->t && !v->locked && !v->isenum; }, Ctx());
        auto ms = cands([&](Var* v) { return v->t->k == T_ARR && v->t->base->k == T_ARR && v->t->base->base->arith() && !v->locked; }, Ctx());
        if (!ms.empty() && r.chance(50)) {
            Var* m = r.pick(ms);
            m->addr = true;
            Var* q = V(nm("q"), ptr(m->t->base));
            q->locked = true;
            b.push_back(D(q, vx(m)));
            Expr* el = index(index(vx(q), idx(m->t->n, 1, Ctx())), idx(m->t->base->n, 1, Ctx()));
            if (r.chance(50)) b.push_back(es(assign(el, arith(2, Ctx()))));
            else b.push_back(es(assign(vx(acc), el)));
            if (m->t->n > 1 && r.chance(60)) {
                Expr* inc = X(X_PREINC, q->t);
                inc->a = vx(q);
                mark_write(inc, inc->a);
                b.push_back(es(inc));
                b.push_back(es(opassign(O_XOR, vx(acc), index(deref(vx(q)), lit((int64_t)r.below((uint64_t)m->t->base->n), ti)))));
            }
        } else {
            int n = 2 + (int)r.below(3);
            Var* ap = V(nm("ap"), arr(ptr(x->t), n));
            ap->locked = true;
            b.push_back(D(ap));
            for (int i = 0; i < n; i++) {
                Var* y = r.pick(same);
                b.push_back(keep(es(assign(index(vx(ap), lit(i, ti)), addr(vx(y))))));
            }
            Expr* i = (n & (n - 1)) == 0 ? bin(O_AND, arith(1, Ctx()), lit(n - 1, ti)) : lit((int64_t)r.below((uint64_t)n), ti);
            if (r.chance(50)) b.push_back(es(assign(deref(index(vx(ap), i)), arith(2, Ctx()))));
            b.push_back(es(assign(vx(acc), deref(index(vx(ap), lit((int64_t)r.below((uint64_t)n), ti))))));
        }
        scope.resize(sc);
        depth--;
        return block(b);
    }
    Stmt* memfp_pattern() {   // structure holding function pointers and data
        std::vector<Func*> fs;
        for (auto f : P.funcs)
            if (plain_target(f)) fs.push_back(f);
        auto as = accs();
        if (fs.empty() || as.empty() || !ft(FT_FPTR) || !ft(FT_STRUCT)) return assign_stmt();
        Func* f = r.pick(fs);
        Var* acc = r.pick(as);
        depth++;
        size_t sc = scope.size();
        std::vector<Stmt*> b;
        Struct* sd = new Struct;
        P.lstructs.push_back(sd);
        sd->tag = nm("O");
        Type* st = new Type{};
        st->k = T_STRUCT;
        st->sd = sd;
        P.types.push_back(st);
        sd->self = st;
        Type* at = rnd_arith();
        sd->m.push_back({"d", at, 0});
        sd->m.insert(sd->m.begin() + (long)r.below(2), Member{"fn", ptr(f->t), 0});
        if (r.chance(50)) sd->m.push_back({"e", rnd_arith(), 0});
        lay(sd);
        int fm = sd->m[0].name == "fn" ? 0 : 1, dm = 1 - fm;
        Stmt* t = keep(S(S_TYPE));
        t->sd = sd;
        b.push_back(t);
        Var* o = V(nm("o"), st);
        o->locked = o->addr = true;
        b.push_back(D(o));
        Var* po = V(nm("po"), ptr(st));
        po->locked = true;
        b.push_back(D(po, addr(vx(o))));
        auto obj = [&](int m) { return r.chance(50) ? member(vx(o), m) : arrow(vx(po), m); };
        Expr* fe = X(X_FUNC, ptr(f->t));
        fe->f = f;
        fe->form = (int)r.below(2);
        b.push_back(keep(es(assign(obj(fm), fe))));
        b.push_back(keep(es(assign(obj(dm), arith(2, Ctx())))));
        Expr* e = X(X_CALL, f->t->base);
        e->a = obj(fm);
        if (r.chance(30)) e->a = deref(e->a);
        e = fill_args(e, f->t->params, nullptr, 2, Ctx());
        if (e) {
            if (!f->pure) e->side = e->topw = true;
            if (r.chance(40) && !f->pure) b.push_back(es(assign(vx(acc), e)));
            else if (f->pure) b.push_back(es(assign(vx(acc), bin(r.chance(50) ? O_ADD : O_XOR, obj(dm), e))));
            else b.push_back(es(assign(obj(dm), e)));
            b.push_back(es(opassign(O_XOR, vx(acc), obj(dm))));
        }
        scope.resize(sc);
        depth--;
        return block(b);
    }
    Stmt* big_pattern() {   // a frame with large offsets
        auto as = accs();
        if (as.empty()) return assign_stmt();
        Var* acc = r.pick(as);
        depth++;
        size_t sc = scope.size();
        std::vector<Stmt*> b;
        static const int ns[] = {17, 32, 33, 100, 128, 513, 4096, 9001};
        int n = ns[r.below(r.chance(80) ? 6 : 8)];
        Var* a = V(nm("b"), arr(rnd_arith(), n));
        a->locked = a->addr = true;
        b.push_back(D(a));
        Var* x = V(nm("v"), rnd_arith());
        b.push_back(D(x, arith(2, Ctx())));
        int at[2] = {(int)r.below((uint64_t)n), r.chance(50) ? n - 1 : 0};
        for (int i : at) b.push_back(keep(es(assign(index(vx(a), lit(i, ti)), arith(2, Ctx())))));
        int lo = (int)r.below((uint64_t)std::max(1, n - 6));
        Var* i = V(nm("i"), ti);
        i->locked = true;
        i->lo = lo;
        i->hi = lo + 5;
        Stmt* s = keep(S(S_FOR));
        s->v = i;
        s->init = I();
        s->init->e = lit(lo, ti);
        s->e = bin(O_LT, vx(i), lit(std::min(n, lo + 6), ti));
        Expr* st = X(X_POSTINC, ti);
        st->a = vx(i);
        mark_write(st, st->a);
        s->e3 = st;
        s->s1 = es(assign(index(vx(a), vx(i)), bin(O_XOR, vx(i), vx(x))));
        s->s1->deletable = false;
        b.push_back(s);
        b.push_back(es(opassign(O_XOR, vx(acc), index(vx(a), lit(at[r.below(2)], ti)))));
        b.push_back(es(opassign(O_XOR, vx(acc), index(vx(a), lit(lo, ti)))));
        b.push_back(es(opassign(O_XOR, vx(acc), vx(x))));
        scope.resize(sc);
        depth--;
        return block(b);
    }
    Stmt* forever() {   // for (;;) / while (1) left by break
        depth++;
        size_t sc = scope.size();
        Var* w = V(nm("w"), ti);
        w->locked = true;
        w->lo = -1;
        w->hi = 100;
        Stmt* pre = D(w, lit((int64_t)r.below(4), ti));
        Stmt* s = keep(S(r.chance(50) ? S_FOR : S_WHILE));
        if (s->k == S_WHILE) s->e = lit(1 + (int64_t)r.below(3), ti);
        Expr* dec = X(X_POSTDEC, ti);
        dec->a = vx(w);
        mark_write(dec, dec->a);
        Stmt* q = keep(S(S_IF));
        q->e = bin(O_LE, dec, lit(0, ti));
        q->s1 = keep(S(S_BREAK));
        loopd++;
        int sw = switchd;
        switchd = 0;
        std::vector<Stmt*> b = {q};
        depth++;
        size_t s2 = scope.size();
        stmts(b, 1 + (int)r.below(3));
        scope.resize(s2);
        depth--;
        s->s1 = keep(block(b));
        switchd = sw;
        loopd--;
        scope.resize(sc);
        depth--;
        return block({pre, s});
    }
    Stmt* str_pattern() {   // char array filled from a literal, walked to its terminator
        auto as = cands([&](Var* v) { return v->t->arith() && !v->locked && !v->isenum; }, Ctx());
        if (as.empty()) return assign_stmt();
        Var* acc = r.pick(as);
        depth++;
        size_t sc = scope.size();
        std::string s;
        bool isarr = r.chance(50);
        bool vast = !isarr && loopd == 0 && ft(FT_BIG) && r.chance(25);
        size_t n = vast ? 200 + r.below(r.chance(30) ? 9000 : 1500) : 1 + r.below(r.chance(15) ? 70 : 9);
        for (size_t k = 0; k < n; k++) s += rnd_char();
        std::vector<Stmt*> b;
        Stmt* d = S(S_DECL);
        d->deletable = false;
        Var* p = V(nm("s"), isarr ? arr(tc, (int)n + 1 + (int)r.below(4)) : ptr(tc));
        p->locked = true;
        p->addr = true;
        d->v = p;
        d->init = I();
        if (isarr) {
            d->init->str = true;
            d->init->s = s;
        } else {
            Expr* q = X(X_STR, ptr(tc));
            q->s = s;
            d->init->e = q;
        }
        b.push_back(d);
        scope.push_back(p);
        Var* i = V(nm("i"), ti);
        i->locked = true;
        Stmt* d2 = S(S_DECL);
        d2->deletable = false;
        d2->v = i;
        d2->init = I();
        d2->init->e = lit(0, ti);
        b.push_back(d2);
        scope.push_back(i);
        Stmt* w = S(S_WHILE);
        w->e = index(vx(p), vx(i));
        if (r.chance(50)) w->e = bin(O_NE, w->e, lit(0, ti));
        Stmt* s1 = es(opassign(r.chance(50) ? O_XOR : O_ADD, vx(acc), index(vx(p), vx(i))));
        Expr* st = X(X_POSTINC, ti);
        st->a = vx(i);
        mark_write(st, st->a);
        Stmt* s2 = es(st);
        s2->deletable = false;
        w->s1 = block({s1, s2});
        b.push_back(w);
        scope.resize(sc);
        depth--;
        return block(b);
    }
    Expr* strx(size_t n, bool asarr = false) {
        Expr* q = X(X_STR, ptr(tc));
        for (size_t k = 0; k < n; k++) q->s += rnd_char();
        if (asarr) q->t = arr(tc, (int)n + 1);
        return q;
    }
    Expr* fx(Func* f) {
        Expr* q = X(X_FUNC, ptr(f->t));
        q->f = f;
        q->form = (int)r.below(2);
        return q;
    }
    Expr* tern(Expr* q, Expr* a, Expr* b) {
        Expr* e = X(X_COND, a->t);
        e->a = q;
        e->b = a;
        e->c = b;
        inherit(e, q);
        inherit(e, a);
        inherit(e, b);
        return e;
    }
    Expr* logic(EK k, Expr* a, Expr* b) {
        Expr* e = X(k, ti);
        e->a = a;
        e->b = b;
        inherit(e, a);
        inherit(e, b);
        return e;
    }
    Expr* cmp(int op, Expr* a, Expr* b) {
        Expr* e = X(X_BIN, ti);
        e->op = op;
        e->a = a;
        e->b = b;
        inherit(e, a);
        inherit(e, b);
        return e;
    }
    Expr* lnot(Expr* a) {
        Expr* e = X(X_UN, ti);
        e->op = O_LNOT;
        e->a = a;
        inherit(e, a);
        return e;
    }
    Expr* step(EK k, Expr* l) {
        Expr* e = X(k, l->t);
        e->a = l;
        inherit(e, l);
        mark_write(e, l);
        return e;
    }
    Init* ie(Expr* e) {
        Init* i = I();
        i->e = e;
        return i;
    }
    Init* il(const std::vector<Init*>& l) {
        Init* i = I();
        i->list = true;
        i->l = l;
        return i;
    }
    Stmt* DI(Var* v, Init* i) {
        Stmt* d = D(v);
        d->init = i;
        return d;
    }
    Stmt* into(Var* acc, Expr* e) {
        if (e->side) return es(assign(vx(acc), e));
        uint64_t q = r.below(4);
        if (q == 0) return es(assign(vx(acc), e));
        return es(opassign(q == 1 ? O_ADD : q == 2 ? O_XOR : O_SUB, vx(acc), e));
    }
    Expr* callp(Expr* callee, Func* f, bool pure) {   // call through an expression that designates a function
        Expr* e = X(X_CALL, f->t->base);
        e->a = callee;
        e = fill_args(e, f->t->params, nullptr, 2, Ctx());
        if (e && !pure) e->side = e->topw = true;
        return e;
    }
    Type* ftd(Type* t) {   // with luck, under a typedef name declared in front of everything
        if (ft(FT_TYPEDEF) && P.tds.size() < 9 && r.chance(30)) {
            bool plain = true;
            std::function<void(Type*)> see = [&](Type* q) {
                if (q->k == T_STRUCT) plain = false;
                if (q->base) see(q->base);
                for (auto x : q->params) see(x);
            };
            see(t);
            for (auto& d : P.tds) plain &= d.t != t;
            if (plain) P.tds.push_back({nm("TF"), t});
        }
        return t;
    }
    Stmt* px_pattern() {   // the less common shapes of pointers, functions and declarations
        auto as = accs();
        if (as.empty()) return assign_stmt();
        Var* acc = r.pick(as);
        std::vector<Func*> fs;
        for (auto f : P.funcs)
            if (plain_target(f)) fs.push_back(f);
        depth++;
        size_t sc = scope.size();
        std::vector<Stmt*> b;
        auto two = [&](Func*& f, Func*& g) {
            f = g = r.pick(fs);
            for (auto x : fs)
                if (x != f && x->t == f->t) g = x;
        };
        Type* et = rnd_arith();
        int n = 2 + (int)r.below(4);
        auto array = [&]() {   // a fresh initialised array
            Var* a = V(nm("v"), arr(et, n));
            a->addr = true;
            a->depth = depth;
            b.push_back(DI(a, zero_init(a->t, r.chance(60), 1)));
            if (b.back()->init->str) b.back()->init = zero_init(a->t, true, 0, false);
            return a;
        };
        auto K = [&](int64_t v) { return lit(v, ti); };
        auto below = [&](int m) { return (int64_t)r.below((uint64_t)m); };
        switch (r.below(13)) {
            case 0: {   // string literals as operands
                if (!ft(FT_STR) || !ft(FT_CHAR)) break;
                size_t m = 1 + r.below(8);
                Expr* q = strx(m);
                switch (r.below(5)) {
                    case 0: b.push_back(into(acc, index(q, idx((int)m, 2, Ctx())))); break;
                    case 1: b.push_back(into(acc, deref(q))); break;
                    case 2: b.push_back(into(acc, deref(bin_ptr(O_ADD, q, K(below((int)m + 1)))))); break;
                    case 3: {
                        Expr* so = X(X_SIZEOFE, tul);
                        so->a = strx(m, true);
                        b.push_back(into(acc, cast(r.chance(50) ? ti : tul, so)));
                        break;
                    }
                    default: {
                        Var* p = V(nm("s"), ptr(tc));
                        p->locked = true;
                        Expr* q2 = strx(m + r.below(3));
                        b.push_back(D(p, tern(arith(2, Ctx()), q, q2)));
                        b.push_back(into(acc, index(vx(p), K(below((int)m + 1)))));
                        if (r.chance(50)) {
                            b.push_back(keep(es(assign(vx(p), strx(3)))));
                            b.push_back(into(acc, index(vx(p), K(below(4)))));
                        }
                    }
                }
                break;
            }
            case 1: {   // pointer to a whole array
                Var* a = array();
                Var* p = V(nm("w"), ftd(ptr(a->t)));
                p->locked = true;
                b.push_back(D(p, addr(vx(a))));
                auto el = [&]() { return r.chance(60) ? index(deref(vx(p)), idx(n, 1, Ctx())) : r.chance(50) ? index(index(vx(p), K(0)), idx(n, 1, Ctx())) : deref(bin_ptr(O_ADD, deref(vx(p)), K(below(n)))); };
                b.push_back(es(assign(el(), arith(2, Ctx()))));
                b.push_back(into(acc, el()));
                if (r.chance(30)) {
                    Expr* so = X(X_SIZEOFE, tul);
                    so->a = deref(vx(p));
                    b.push_back(into(acc, cast(r.chance(50) ? ti : tul, so)));
                }
                break;
            }
            case 2: {   // pointer to a function pointer, comparisons and choices of functions
                if (fs.empty()) break;
                Func *f, *g;
                two(f, g);
                bool pure = f->pure && g->pure;
                Type* pt = ftd(ptr(f->t));
                Var* h = V(nm("h"), pt);
                h->locked = h->addr = true;
                b.push_back(D(h, fx(f)));
                Var* ph = V(nm("ph"), ptr(pt));
                ph->locked = true;
                b.push_back(D(ph, addr(vx(h))));
                if (r.chance(60)) b.push_back(es(assign(r.chance(50) ? vx(h) : deref(vx(ph)), tern(arith(2, Ctx()), fx(f), fx(g)))));
                Expr* callee = r.chance(40) ? deref(vx(ph)) : r.chance(50) ? deref(deref(vx(ph))) : r.chance(50) ? vx(h) : tern(arith(2, Ctx()), fx(f), vx(h));
                Expr* e = callp(callee, f, pure);
                if (e) b.push_back(into(acc, e));
                Expr* c = cmp(r.chance(50) ? O_EQ : O_NE, r.chance(50) ? vx(h) : deref(vx(ph)), r.chance(50) ? fx(f) : fx(g));
                if (r.chance(30)) c = logic(r.chance(50) ? X_LAND : X_LOR, vx(h), c);
                if (r.chance(50)) b.push_back(into(acc, c));
                else {
                    Stmt* s = S(S_IF);
                    s->e = c;
                    s->s1 = assign_stmt();
                    b.push_back(s);
                }
                break;
            }
            case 3: {   // pointers and functions in brace-enclosed initialisers
                if (!fs.empty() && r.chance(60)) {
                    Func *f, *g;
                    two(f, g);
                    bool pure = f->pure && g->pure;
                    int m = 2 + (int)r.below(3);
                    Var* t = V(nm("t"), arr(ftd(ptr(f->t)), m));
                    t->locked = true;
                    std::vector<Init*> l;
                    for (int i = 0; i < m; i++) l.push_back(ie(fx(r.chance(50) ? f : g)));
                    b.push_back(DI(t, il(l)));
                    Expr* e = callp(r.chance(50) ? index(vx(t), idx(m, 1, Ctx())) : deref(index(vx(t), K(below(m)))), f, pure);
                    if (e) b.push_back(into(acc, e));
                } else {
                    Var* a = array();
                    int m = 1 + (int)r.below(4);
                    Var* t = V(nm("t"), arr(ptr(et), m));
                    t->locked = t->addr = true;
                    std::vector<Init*> l;
                    for (int i = 0; i < m; i++) l.push_back(ie(r.chance(30) ? vx(a) : r.chance(50) ? addr(index(vx(a), K(below(n)))) : bin_ptr(O_ADD, vx(a), K(below(n)))));
                    b.push_back(DI(t, il(l)));
                    Var* pp = V(nm("pp"), ptr(ptr(et)));
                    pp->locked = true;
                    b.push_back(D(pp, vx(t)));
                    b.push_back(es(assign(deref(index(vx(pp), K(below(m)))), arith(2, Ctx()))));
                    b.push_back(into(acc, r.chance(50) ? deref(index(vx(t), idx(m, 1, Ctx()))) : index(deref(vx(pp)), K(0))));
                }
                break;
            }
            case 4: {   // structure holding pointers, initialised with them
                if (!ft(FT_STRUCT)) break;
                Var* a = array();
                Struct* sd = new Struct;
                P.lstructs.push_back(sd);
                sd->tag = nm("O");
                Type* st = new Type{};
                st->k = T_STRUCT;
                st->sd = sd;
                P.types.push_back(st);
                sd->self = st;
                Func *f = nullptr, *g = nullptr;
                if (!fs.empty() && r.chance(60)) two(f, g);
                std::vector<Init*> l;
                std::vector<int> kind;
                int m = 2 + (int)r.below(4);
                for (int i = 0; i < m; i++) {
                    int q = i == 0 ? 1 : (int)r.below(4);
                    if (q == 2 && !f) q = 0;
                    if (q == 3 && (!ft(FT_STR) || !ft(FT_CHAR))) q = 0;
                    kind.push_back(q);
                    Type* mt = q == 0 ? rnd_arith() : q == 1 ? ptr(et) : q == 2 ? ptr(f->t) : ptr(tc);
                    sd->m.push_back({"k" + std::to_string(i), mt, 0});
                    l.push_back(ie(q == 0 ? arith(1, Ctx()) : q == 1 ? addr(index(vx(a), K(below(n)))) : q == 2 ? fx(r.chance(50) ? f : g) : strx(3)));
                }
                lay(sd);
                Stmt* t = keep(S(S_TYPE));
                t->sd = sd;
                t->fwd = r.chance(30);
                b.push_back(t);
                Var* o = V(nm("o"), st);
                o->locked = o->addr = true;
                b.push_back(DI(o, il(l)));
                Var* po = V(nm("po"), ptr(st));
                po->locked = true;
                b.push_back(D(po, addr(vx(o))));
                for (int i = 0; i < m; i++) {
                    Expr* x = r.chance(50) ? member(vx(o), i) : arrow(vx(po), i);
                    if (kind[(size_t)i] == 0) b.push_back(into(acc, x));
                    else if (kind[(size_t)i] == 1) {
                        if (r.chance(60)) b.push_back(es(assign(deref(x), arith(2, Ctx()))));
                        b.push_back(into(acc, index(member(vx(o), i), K(0))));
                    } else if (kind[(size_t)i] == 2) {
                        Expr* e = callp(r.chance(30) ? deref(x) : x, f, f->pure && g->pure);
                        if (e) b.push_back(into(acc, e));
                    } else
                        b.push_back(into(acc, index(x, K(below(4)))));
                }
                break;
            }
            case 5: {   // pointers in conditions, comparisons, differences and sums
                Var* a = array();
                Var *p = V(nm("p"), ptr(et)), *q = V(nm("q"), ptr(et));
                p->locked = q->locked = true;
                int64_t i = below(n), j = below(n + 1);
                b.push_back(D(p, addr(index(vx(a), K(i)))));
                b.push_back(D(q, bin_ptr(O_ADD, vx(a), K(j))));
                auto pa = [&](Var* v) { return r.chance(35) ? vx(a) : vx(v); };   // or the array, which decays
                for (int k = 1 + (int)r.below(4); k > 0; k--) {
                    Expr* e = nullptr;
                    switch (r.below(8)) {
                        case 0: e = logic(r.chance(50) ? X_LAND : X_LOR, pa(p), r.chance(50) ? pa(q) : arith(1, Ctx())); break;
                        case 1: e = logic(r.chance(50) ? X_LAND : X_LOR, arith(1, Ctx()), r.chance(50) ? lnot(pa(q)) : pa(p)); break;
                        case 2: e = cmp((int)(O_LT + r.below(6)), pa(p), pa(q)); break;
                        case 3: {
                            e = X(X_BIN, tl);
                            e->op = O_SUB;
                            e->a = r.chance(50) ? vx(q) : vx(a);
                            e->b = r.chance(50) ? vx(p) : addr(index(vx(a), K(below(n))));
                            break;
                        }
                        case 4: {
                            Expr* s = X(X_BIN, p->t);   // integer + pointer
                            s->op = O_ADD;
                            s->a = K(below((int)(n - i)));
                            s->b = pa(p);
                            e = deref(s);
                            break;
                        }
                        case 5: {
                            e = index(vx(p), K(below((int)(n - i))));
                            e->form = 1;   // 2[p]
                            break;
                        }
                        case 6: e = tern(pa(p), K(3), K(4)); break;
                        default: e = index(vx(p), un(O_NEG, K(below((int)i + 1))));
                    }
                    if (r.chance(15) && e->t->k == T_INT) e = lnot(e);
                    b.push_back(into(acc, e));
                }
                break;
            }
            case 6: {   // void *
                Var* x = nullptr;
                auto xs = cands([&](Var* v) { return v->t->arith() && !v->locked && !v->isenum; }, Ctx());
                if (xs.empty()) break;
                x = r.pick(xs);
                Var* v = V(nm("vp"), ptr(tv));
                v->locked = true;
                Expr* ax = addr(vx(x));
                b.push_back(D(v, ax));
                Var* q = V(nm("q"), ptr(x->t));
                q->locked = true;
                b.push_back(D(q, vx(v)));
                b.push_back(es(assign(deref(vx(q)), arith(2, Ctx()))));
                if (r.chance(50)) {
                    Var* a = array();
                    b.push_back(keep(es(assign(vx(v), vx(a)))));
                    Var* q2 = V(nm("q"), ptr(et));
                    q2->locked = true;
                    b.push_back(D(q2, vx(v)));
                    b.push_back(into(acc, index(vx(q2), K(below(n)))));
                }
                b.push_back(into(acc, tern(r.chance(50) ? (Expr*)vx(v) : lnot(vx(v)), deref(vx(q)), K(5))));
                break;
            }
            case 7: {   // several declarators in a for statement
                if (!ft(FT_FOR) || loopd > 2) break;
                Stmt* s = S(S_FOR);
                s->deletable = false;
                int N = 1 + (int)r.below(6);
                bool wp = r.chance(50);
                Var* a = nullptr;
                if (wp) et = ti, n = std::max(n, N), a = array();
                Var* i = V(nm("i"), ti);
                i->locked = true;
                i->lo = 0;
                i->hi = N - 1;
                s->v = i;
                s->init = ie(K(0));
                scope.push_back(i);
                std::vector<Var*> more;
                for (int k = 1 + (int)r.below(3); k > 0; k--) {
                    Var* j = V(nm("j"), wp && k == 1 ? ptr(ti) : ti);
                    j->locked = true;
                    s->body.push_back(D(j, wp && k == 1 ? vx(a) : r.chance(60) ? K(below(99)) : arith(1, Ctx())));
                    more.push_back(j);
                }
                s->e = bin(O_LT, vx(i), K(N));
                s->e3 = step(r.chance(50) ? X_POSTINC : X_PREINC, vx(i));
                std::vector<Stmt*> w;
                loopd++;
                int sw = switchd;
                switchd = 0;
                for (auto j : more) {
                    if (j->t->arith()) w.push_back(into(acc, vx(j))), w.push_back(es(opassign(O_XOR, vx(j), vx(i))));
                    else {
                        Expr* pi = X(r.chance(50) ? X_POSTINC : X_PREINC, j->t);
                        if (pi->k == X_POSTINC) {
                            pi->a = vx(j);
                            mark_write(pi, pi->a);
                            w.push_back(es(opassign(O_XOR, vx(acc), deref(pi))));
                        } else {
                            w.push_back(into(acc, deref(vx(j))));
                            pi->a = vx(j);
                            mark_write(pi, pi->a);
                            w.push_back(keep(es(pi)));
                        }
                    }
                }
                if (r.chance(40)) stmts(w, 1);
                switchd = sw;
                loopd--;
                s->s1 = block(w);
                b.push_back(s);
                break;
            }
            case 8: {   // function returning a data pointer: the result used as an operand
                std::vector<Func*> ps;
                for (auto f : P.funcs)
                    if (!f->ext && f->idx < cf->idx && f->retlen > 0 && !f->rec && !in_pure) ps.push_back(f);
                if (ps.empty()) break;
                Func* f = r.pick(ps);
                Expr* e = call(f, 2, Ctx());
                if (!e) break;
                Type* bt = f->t->base->base;
                int m = f->retlen;
                auto el = [&](Expr* x) -> Expr* {
                    if (bt->k == T_STRUCT) {
                        for (size_t q = 0; q < bt->sd->m.size(); q++)
                            if (bt->sd->m[q].t->arith()) return arrow(x, (int)q);
                        return nullptr;
                    }
                    return r.chance(50) ? index(x, K(below(m))) : deref(m > 1 && r.chance(50) ? bin_ptr(O_ADD, x, K(below(m))) : x);
                };
                if (r.chance(40)) {
                    Expr* x = el(e);
                    if (x) b.push_back(es(assign(vx(acc), x)));
                } else if (r.chance(40)) {
                    Expr* x = el(e);
                    if (x) b.push_back(es(assign(x, r.chance(50) ? rlit() : vx(acc))));
                } else {
                    Var* p = V(nm("p"), f->t->base);
                    p->locked = true;
                    b.push_back(D(p, e));
                    Expr* x = el(vx(p));
                    if (x) b.push_back(es(assign(x, arith(2, Ctx()))));
                    x = el(vx(p));
                    if (x) b.push_back(into(acc, x));
                }
                break;
            }
            case 9: {   // function returning a function pointer
                std::vector<Func*> ps;
                for (auto f : P.funcs)
                    if (f->selects && f->idx < cf->idx && (!in_pure || f->pure)) ps.push_back(f);
                if (ps.empty()) break;
                Func* f = r.pick(ps);
                Type* tt = f->t->base->base;
                Expr* e = call(f, 2, Ctx());
                if (!e) break;
                bool pure = f->selpure;
                if (r.chance(50)) {
                    Var* p = V(nm("p"), f->t->base);
                    p->locked = true;
                    b.push_back(D(p, e));
                    e = vx(p);
                }
                if (r.chance(30)) e = deref(e);
                Expr* c = X(X_CALL, tt->base);
                c->a = e;
                Ctx cc;
                if (e->side) {   // the arguments may be read before or after the designator's own call
                    cc = noside(cc);
                    cc.stable = true;
                    merge_avoid(cc, e->writes, Ctx());
                }
                c = fill_args(c, tt->params, nullptr, 1, cc);
                if (c) {
                    inherit(c, e);
                    if (!pure) c->side = c->topw = true;
                    b.push_back(es(assign(vx(acc), c)));
                }
                break;
            }
            case 10: {   // structures that point at each other
                if (!ft(FT_STRUCT)) break;
                Struct* sd[2];
                for (int i = 0; i < 2; i++) {
                    sd[i] = new Struct;
                    P.lstructs.push_back(sd[i]);
                    sd[i]->tag = nm("M");
                    Type* st = new Type{};
                    st->k = T_STRUCT;
                    st->sd = sd[i];
                    P.types.push_back(st);
                    sd[i]->self = st;
                }
                int dm[2], pm[2];
                for (int i = 0; i < 2; i++) {
                    Member d{"d", rnd_arith(), 0}, q{"o", ptr(sd[1 - i]->self), 0};
                    bool first = r.chance(50);
                    if (r.chance(40)) sd[i]->m.push_back({"z", rnd_arith(), 0});
                    pm[i] = (int)sd[i]->m.size() + (first ? 0 : 1);
                    dm[i] = (int)sd[i]->m.size() + (first ? 1 : 0);
                    sd[i]->m.push_back(first ? q : d);
                    sd[i]->m.push_back(first ? d : q);
                    lay(sd[i]);
                }
                for (int i = 0; i < 2; i++) {
                    Stmt* t = keep(S(S_TYPE));
                    t->sd = sd[i];
                    if (i == 0) t->fwd2 = sd[1];
                    b.push_back(t);
                }
                Var* o[2];
                for (int i = 0; i < 2; i++) {
                    o[i] = V(nm("o"), sd[i]->self);
                    o[i]->locked = o[i]->addr = true;
                    b.push_back(D(o[i]));
                }
                for (int i = 0; i < 2; i++) {
                    b.push_back(keep(es(assign(member(vx(o[i]), pm[i]), addr(vx(o[1 - i]))))));
                    b.push_back(keep(es(assign(member(vx(o[i]), dm[i]), arith(2, Ctx())))));
                }
                for (int k = 1 + (int)r.below(2); k > 0; k--) {
                    int i = (int)r.below(2);
                    Expr* x = member(vx(o[i]), pm[i]);
                    int at = 1 - i;
                    for (int h = (int)r.below(4); h > 0; h--) x = arrow(x, pm[at]), at = 1 - at;
                    if (r.chance(40)) b.push_back(es(assign(arrow(x, dm[at]), arith(2, Ctx()))));
                    else b.push_back(into(acc, arrow(x, dm[at])));
                }
                b.push_back(into(acc, member(vx(o[0]), dm[0])));
                b.push_back(into(acc, member(vx(o[1]), dm[1])));
                break;
            }
            case 11: {   // a name declared for the function again inside a block, and local type names
                if (!fs.empty() && r.chance(60)) {
                    Func* f = r.pick(fs);
                    if (C.nunits == 1) {
                        Stmt* t = keep(S(S_TYPE));
                        t->proto = f;
                        b.push_back(t);
                    }
                    Expr* e = call(f, 2, Ctx());
                    if (e) b.push_back(into(acc, e));
                }
                if (ft(FT_TYPEDEF)) {
                    Type* t = r.chance(60) ? rnd_arith() : r.chance(50) ? ptr(et) : arr(et, n);
                    Stmt* d = keep(S(S_TYPE));
                    d->tdname = nm("TB");
                    d->tdt = t;
                    b.push_back(d);
                    if (t->k == T_PTR) {
                        Var* a = array();
                        Var* p = V(nm("p"), t);
                        p->tdname = d->tdname;
                        p->locked = true;
                        b.push_back(D(p, vx(a)));
                        b.push_back(into(acc, index(vx(p), K(below(n)))));
                    } else {
                        Var* x = V(nm("l"), t);
                        x->tdname = d->tdname;
                        x->depth = depth;
                        Init* in = zero_init(t, true, 0, false);
                        b.push_back(DI(x, in));
                        stmts(b, 1 + (int)r.below(2));
                        if (visible(acc) && visible(x)) b.push_back(into(acc, t->arith() ? vx(x) : index(vx(x), K(below(n)))));
                    }
                }
                break;
            }
            default: {   // choice between objects
                Var *a = array(), *c = array();
                Expr* x = tern(arith(2, Ctx()), r.chance(50) ? vx(a) : addr(index(vx(a), K(0))), r.chance(50) ? vx(c) : addr(index(vx(c), K(0))));
                x->t = ptr(et);
                if (r.chance(50)) b.push_back(es(assign(r.chance(50) ? deref(x) : index(x, idx(n, 1, Ctx())), arith(2, Ctx()))));
                else b.push_back(into(acc, index(x, idx(n, 1, Ctx()))));
                b.push_back(into(acc, index(vx(a), K(below(n)))));
                b.push_back(into(acc, index(vx(c), K(below(n)))));
            }
        }
        scope.resize(sc);
        depth--;
        if (b.empty()) return assign_stmt();
        return block(b);
    }
    int focus = 0;
    Stmt* focused() {
        switch (focus) {
            case 1: case 2: return press_pattern();
            case 3: return fptr_pattern();
            case 4: return ft(FT_PTR) && ft(FT_ARR) ? walk() : nullptr;
            case 5: return ft(FT_PTR) && ft(FT_STRUCT) ? list_pattern() : nullptr;
            case 6: return ft(FT_LTYPE) ? ltype_pattern() : nullptr;
            case 7: return ft(FT_PTRX) ? pp_pattern() : nullptr;
            case 8: return ft(FT_PTRX) ? memfp_pattern() : nullptr;
            case 9: return ft(FT_PTRX) ? apt_pattern() : nullptr;
            case 10: return ft(FT_STR) && ft(FT_CHAR) ? str_pattern() : nullptr;
            case 11: return ft(FT_SWITCH) && switchd < 2 ? sw(3) : nullptr;
            case 12: return ft(FT_FOR) && loopd < 3 ? loop_for(3) : nullptr;
            case 13: return ft(FT_WHILE) && loopd < 3 ? loop_while(3) : nullptr;
            case 14: return decl();
            case 15: {
                auto as = accs();
                return as.empty() ? nullptr : es(assign(vx(r.pick(as)), chain(3, Ctx())));
            }
            case 16: case 17: case 18: case 19: case 20: return ft(FT_PTRX) && ft(FT_ARR) && ft(FT_PTR) ? px_pattern() : nullptr;
        }
        return nullptr;
    }
    void stmts(std::vector<Stmt*>& b, int n) {
        for (int i = 0; i < n && budget > 0; i++) {
            budget--;
            uint64_t k = r.below(100);
            if (focus && r.chance(30)) {   // swarm: this program has much of one kind
                Stmt* f = focused();
                if (f) {
                    b.push_back(f);
                    continue;
                }
            }
            if (ft(FT_PTRX) && ft(FT_ARR) && ft(FT_PTR) && r.chance(6)) b.push_back(px_pattern());
            else if (k < 24) b.push_back(decl());
            else if (k < 50) b.push_back(simple());
            else if (k < 62) {
                Stmt* s = S(S_IF);
                Ctx c;
                c.side = true;
                s->e = truthy(C.depth, c);
                s->s1 = single_or_block(3);
                if (r.chance(50)) s->s2 = single_or_block(3);
                else if (r.chance(15)) {   // dangling else: belongs to the inner if
                    Stmt* in = S(S_IF);
                    in->e = truthy(2, Ctx());
                    in->s1 = s->s1;
                    in->s2 = single_or_block(2);
                    if (in->s1->k == S_IF) in->s1 = block({in->s1});
                    s->s1 = in;
                }
                // keep nested single ifs in blocks
                if (s->s1->k == S_IF && s->s2) s->s1 = block({s->s1});
                b.push_back(s);
            } else if (k < 70 && ft(FT_FOR) && loopd < 3) b.push_back(loop_for(3));
            else if (k < 76 && ft(FT_WHILE) && loopd < 3) b.push_back(loop_while(3));
            else if (k < 82 && ft(FT_SWITCH) && switchd < 2) b.push_back(sw(3));
            else if (k < 85) b.push_back(body(3));
            else if (k < 88 && ft(FT_PTR) && ft(FT_ARR)) b.push_back(walk());
            else if (k < 90 && ft(FT_PTR) && ft(FT_STRUCT)) b.push_back(list_pattern());
            else if (k < 93 && ft(FT_FPTR)) b.push_back(ft(FT_CHAIN) && r.chance(40) ? press_pattern() : fptr_pattern());
            else if (k < 94 && ft(FT_LTYPE)) b.push_back(ltype_pattern());
            else if (k < 95 && ft(FT_PTRX)) b.push_back(r.chance(50) ? pp_pattern() : r.chance(50) ? memfp_pattern() : apt_pattern());
            else if (k < 96 && ft(FT_STR) && ft(FT_CHAR)) b.push_back(str_pattern());
            else if (k < 97 && ft(FT_BIG)) b.push_back(big_pattern());
            else if (k < 98 && ft(FT_WHILE) && loopd < 3 && r.chance(40)) b.push_back(forever());
            else if (k < 98 && loopd > 0 && (switchd == 0 || r.chance(50))) {
                Stmt* s = S(S_IF);
                s->e = truthy(2, Ctx());
                Stmt* br = S(r.chance(50) || switchd ? S_CONTINUE : S_BREAK);
                s->s1 = r.chance(50) ? br : block({br});
                b.push_back(s);
            } else if (k < 99 && depth > 1) {
                Stmt* s = S(S_IF);
                s->e = arith(2, Ctx());
                s->s1 = ret();
                b.push_back(s);
            } else
                b.push_back(simple());
        }
    }
    Stmt* ret() {
        Stmt* s = S(S_RETURN);
        s->deletable = false;
        if (cf->isvoid()) return s;
        if (cf->t->base->k == T_PTR) {
            Expr* e = nullptr;
            if (cf->selects) {
                e = fx(r.pick(cf->choice));
                if (r.chance(50)) e = tern(arith(2, Ctx()), fx(r.pick(cf->choice)), e);
                s->e = e;
                return s;
            }
            for (auto p : cf->params)
                if (p->t == cf->t->base && visible(p) && (!e || r.chance(50))) {
                    Expr* x = p->len > cf->retlen && r.chance(40) ? bin_ptr(O_ADD, vx(p), lit((int64_t)r.below((uint64_t)(p->len - cf->retlen + 1)), ti)) : vx(p);
                    e = e && r.chance(40) ? tern(arith(2, Ctx()), x, e) : x;
                }
            if (!e) P.ok = false, P.why = "no pointer to return";
            s->e = e;
            return s;
        }
        Ctx c;
        c.side = !in_pure || true;
        s->e = arith(C.depth, c);
        return s;
    }
    // ---- top level
    void lay(Struct* sd) {
        int off = 0;
        for (auto& m : sd->m) {
            int al = m.t->align();
            off = (off + al - 1) / al * al;
            m.off = off;
            off += m.t->size();
            sd->align = std::max(sd->align, al);
        }
        sd->size = (off + sd->align - 1) / sd->align * sd->align;
    }
    Struct* mk_struct(int i, bool ptrs) {
        Struct* sd = new Struct;
        sd->tag = nm("S");
        Type* st = new Type{};
        st->k = T_STRUCT;
        st->sd = sd;
        P.types.push_back(st);
        sd->self = st;
        int nm_ = 1 + (int)r.below(5);
        if (ft(FT_BIG) && r.chance(6)) nm_ = 10 + (int)r.below(30);
        bool selfp = ptrs && ft(FT_PTR) && r.chance(45);
        for (int k = 0; k < nm_; k++) {
            Type* t = rnd_arith();
            uint64_t q = r.below(10);
            if (q == 0) t = arr(t, 1 + (int)r.below(4));
            else if (q == 1 && i > 0) t = P.structs[r.below((uint64_t)i)]->self;
            else if (q == 2 && ft(FT_2D)) t = arr(arr(t, 2), 2);
            else if (q == 3 && i > 0 && r.chance(40)) t = arr(P.structs[r.below((uint64_t)i)]->self, 1 + (int)r.below(2));
            sd->m.push_back({"m" + std::to_string(k), t, 0});
        }
        if (selfp) sd->m.insert(sd->m.begin() + (long)r.below(sd->m.size() + 1), Member{"nx", ptr(st), 0});
        if (ptrs && i + 1 == C.structs && ft(FT_BIG) && r.chance(8)) {   // offsets of more than 16 bits
            Type* t = r.chance(70) ? arr(tl, 4097 + (int)r.below(4200)) : arr(ti, 8193 + (int)r.below(200));
            sd->m.insert(sd->m.begin() + (long)r.below(sd->m.size() + 1), Member{"huge", t, 0});
        }
        lay(sd);
        if (ft(FT_TYPEDEF) && r.chance(40)) {
            sd->tdname = nm("TS");
            sd->anon = !selfp && r.chance(30);
        }
        return sd;
    }
    void mk_structs() {
        for (int i = 0; i < C.structs && ft(FT_STRUCT); i++) P.structs.push_back(mk_struct(i, true));
    }
    Enum* mk_enum() {
        Enum* e = new Enum;
        e->tag = nm("E");
        int64_t v = 0;
        int k = 1 + (int)r.below(4);
        if (ft(FT_BIG) && r.chance(10)) k = 20 + (int)r.below(60);
        for (int j = 0; j < k; j++) {
            bool ex = r.chance(35);
            if (ex) v = (int64_t)r.below(200);
            e->e.push_back({nm("C"), v});
            e->explicit_val.push_back(ex);
            v++;
        }
        return e;
    }
    void mk_enums() {
        if (!ft(FT_ENUM)) return;
        int n = (int)r.below(3);
        for (int i = 0; i < n; i++) P.enums.push_back(mk_enum());
    }
    void mk_tds() {
        if (!ft(FT_TYPEDEF)) return;
        int n = (int)r.below(3);
        for (int i = 0; i < n; i++) {
            Type* t = rnd_arith();
            uint64_t q = r.below(9);
            if (q == 0) t = ptr(t);
            else if (q == 1 && ft(FT_SPELL)) t = arr(t, 1 + (int)r.below(8));
            else if (q == 2 && ft(FT_SPELL)) t = tv;
            P.tds.push_back({nm("TD"), t});
        }
    }
    void mk_globals() {
        for (int i = 0; i < C.globals; i++) {
            Type* t = rnd_arith();
            uint64_t q = r.below(10);
            static const int ns[] = {1, 2, 3, 4, 6, 8};
            if (q < 3 && ft(FT_ARR)) {
                t = arr(t, ns[r.below(6)]);
                if (ft(FT_2D) && r.chance(30)) t = arr(t, 1 + (int)r.below(3));
            } else if (q == 3 && ft(FT_STRUCT) && !P.structs.empty()) {
                t = r.pick(P.structs)->self;
                if (r.chance(30)) t = arr(t, 1 + (int)r.below(3));
            }
            if (has_ptr(t) && t->k != T_STRUCT) t = ti;
            Var* v = V(nm("g"), t);
            v->global = true;
            if (C.nunits > 1) v->unit = (int)r.below((uint64_t)C.nunits);
            v->depth = 0;
            if (t->k == T_STRUCT) v->addr = true;
            if (r.chance(60) && !has_ptr(t) && t->size() < 8192) v->init = zero_init(t, true, 0);
            P.globals.push_back(v);
        }
    }
    void mk_exts() {
        if (C.pure_only) return;
        int n = 1 + (int)r.below((uint64_t)std::max(1, C.exts));
        for (int i = 0; i < n; i++) {
            Func* f = new Func;
            f->idx = (int)P.funcs.size();
            P.funcs.push_back(f);
            f->ext = true;
            f->name = nm("x");
            std::vector<Type*> ps;
            int np = (int)r.below(4);
            if (ft(FT_MANY) && r.chance(20)) np = 5 + (int)r.below(5);
            for (int k = 0; k < np; k++) {
                ps.push_back(rnd_arith());
                f->ei.len.push_back(0);
                uint64_t q = r.below(10);
                if (q == 0 && ft(FT_PTR)) {
                    Type* b = (ft(FT_STRUCT) && !P.structs.empty() && r.chance(40)) ? r.pick(P.structs)->self : rnd_arith();
                    if (b->size() >= 8192) b = tl;
                    ps.back() = ptr(b);
                    f->ei.len.back() = b->k == T_STRUCT ? 1 : 1 + (int)r.below(3);
                } else if (q == 1 && ft(FT_STR)) {
                    ps.back() = ptr(tc);
                    f->ei.len.back() = -1;
                } else if (q == 2 && ft(FT_CB) && ft(FT_FPTR)) {
                    ps.back() = ptr(func(ti, {ti}));
                    f->ei.len.back() = -2;
                }
            }
            f->t = func(r.chance(15) ? tv : rnd_arith(), ps);
        }
    }
    int many = 20;
    void mk_func(int i, int total) {
        Func* f = new Func;
        f->idx = (int)P.funcs.size();
        f->name = nm("f");
        if (C.nunits > 1) f->unit = (int)r.below((uint64_t)C.nunits);
        f->pure = C.pure_only || (i + 1 < total && r.chance(45));
        f->rec = ft(FT_REC) && i + 1 < total && r.chance(20);
        std::vector<Type*> ps;
        int np = (int)r.below(4);
        if ((ft(FT_MANY) || focus == 1) && r.chance(many)) np = 5 + (int)r.below(5);
        std::vector<int> lens;
        for (int k = 0; k < np; k++) {
            Type* t = rnd_arith();
            int len = 0;
            if (ft(FT_PTR) && r.chance(18) && !f->pure && i + 1 < total) {
                Type* b = (ft(FT_STRUCT) && !P.structs.empty() && r.chance(40)) ? r.pick(P.structs)->self : rnd_arith();
                len = b->k == T_STRUCT ? 1 : 1 + (int)r.below(3);
                t = ptr(b);
            }
            if (!len && ft(FT_FPTR) && ft(FT_PTRX) && r.chance(12) && !f->pure && i + 1 < total) {
                std::vector<Type*> ts;
                for (auto g : P.funcs) {
                    if (g->ext || g->rec || g->isvoid() || !g->t->base->arith()) continue;
                    bool ok = true;
                    for (auto q : g->t->params) ok &= q->arith();
                    if (ok) ts.push_back(g->t);
                }
                if (!ts.empty()) t = ptr(r.pick(ts)), len = -2;
            }
            ps.push_back(t);
            lens.push_back(len);
        }
        Type* rt = r.chance(12) && !C.pure_only && i + 1 < total ? tv : rnd_arith();
        bool cb = ft(FT_CB) && ft(FT_FPTR) && !C.pure_only && i == 0;
        if (cb) {   // shape usable as a callback
            ps = {ti};
            lens = {0};
            rt = ti;
            f->rec = false;
        }
        if (f->rec) {
            ps.push_back(ti);
            lens.push_back(0);
        }
        if (!cb && !f->rec && i + 1 < total && ft(FT_PTRX) && r.chance(focus >= 16 ? 60 : 30)) {
            std::vector<size_t> q;
            for (size_t k = 0; k < ps.size(); k++)
                if (lens[k] > 0) q.push_back(k);
            std::vector<Func*> ts;
            for (auto g : P.funcs) {
                if (g->ext || g->rec || g->isvoid() || !g->t->base->arith() || (f->pure && !g->pure)) continue;
                bool ok = true;
                for (auto x : g->t->params) ok &= x->arith();
                if (ok) ts.push_back(g);
            }
            if (!q.empty()) {
                rt = ps[r.pick(q)];
                for (size_t k = 0; k < ps.size(); k++)
                    if (ps[k] == rt) f->retlen = f->retlen ? std::min(f->retlen, lens[k]) : lens[k];
            } else if (!ts.empty() && ft(FT_FPTR) && np <= 4) {
                Func* g = r.pick(ts);
                rt = ptr(g->t);
                f->selects = true;
                f->selpure = true;
                for (auto x : ts)
                    if (x->t == g->t) f->choice.push_back(x), f->selpure &= x->pure;
            }
            if (rt->k == T_PTR) f->scalar_params = false;
        }
        f->t = func(rt, ps);
        cf = f;
        in_pure = f->pure;
        depth = 1;
        scope.clear();
        for (size_t k = 0; k < ps.size(); k++) {
            Var* v = V(nm("a"), ps[k]);
            v->param = true;
            v->len = lens[k];
            if (f->rec && k + 1 == ps.size()) v->locked = true;
            if (v->len) f->scalar_params = false;
            if (v->len == -2) v->len = 0, v->callable = v->locked = true;
            f->params.push_back(v);
            scope.push_back(v);
        }
        P.funcs.push_back(f);
        budget = C.stmts + (int)r.below((uint64_t)C.stmts + 1);
        std::vector<Stmt*> b;
        if (f->rec) {
            Stmt* s = S(S_IF);
            s->deletable = false;
            s->e = bin(O_LE, vx(f->params.back()), lit(0, ti));
            int sv = budget;
            budget = -1;
            s->s1 = ret_norec();
            budget = sv;
            b.push_back(s);
        }
        int n = 2 + (int)r.below((uint64_t)C.stmts);
        stmts(b, n);
        if (!f->isvoid() || r.chance(30)) b.push_back(ret());
        f->body = block(b);
        f->body->deletable = false;
        cf = nullptr;
    }
    Stmt* ret_norec() { return ret(); }
    void mk_calls() {
        std::vector<Func*> fs;
        for (auto f : P.funcs)
            if (!f->ext && f->scalar_params && !f->rec) fs.push_back(f);
        if (fs.empty()) {
            P.ok = false;
            P.why = "no entry";
            return;
        }
        int n = 1 + (int)r.below((uint64_t)std::max(1, C.calls));
        for (int i = 0; i < n; i++) {
            Func* f = (i == 0 || r.chance(50)) ? fs.back() : r.pick(fs);
            Call c;
            c.f = f->idx;
            for (size_t k = 0; k < f->t->params.size(); k++) c.args.push_back(env_value(r.next(), 1, k, f->t->params[k]));
            P.calls.push_back(c);
        }
    }
    void go() {
        P.feat = C.feat;
        if (r.chance(25)) fav = 1 + (unsigned)r.below(1000);
        if (r.chance(25)) {
            static const int ops[] = {O_SUB, O_MUL, O_DIV, O_MOD, O_DIV, O_XOR};
            favop = ops[r.below(6)];
            if ((favop == O_DIV || favop == O_MOD) && !ft(FT_DIV)) favop = O_SUB;
        }
        mk_enums();
        mk_structs();
        mk_tds();
        mk_globals();
        mk_exts();
        int n = 1 + (int)r.below((uint64_t)std::max(1, C.funcs));
        many = r.chance(15) ? 70 : 20;
        if (!C.probe && r.chance(30)) focus = 1 + (int)r.below(20);
        if (C.focus) focus = C.focus;
        if (focus == 1 || focus == 2) {
            many = 60;
            n = std::max(n, 3);
        }
        for (int i = 0; i < n; i++) mk_func(i, n);
        mk_calls();
    }
};

// register pressure of an expression as generated code would evaluate it left to right
thread_local bool exactneed = false;   // a literal operand and an assigned variable need no register
int need(const Expr* e) {
    if (!e) return 0;
    int n;
    switch (e->k) {
        case X_LIT: case X_ENUM: case X_STR: case X_SIZEOFT: case X_SIZEOFE: case X_FUNC: return 1;
        case X_VAR: return 1;
        case X_BIN: case X_INDEX: return std::max(need(e->a), 1 + (exactneed && e->b->k == X_LIT && e->k == X_BIN ? 0 : need(e->b)));
        case X_ASSIGN: case X_OPASSIGN:
            if (exactneed && e->k == X_ASSIGN && e->a->k == X_VAR) return need(e->b);
            return std::max(need(e->a) + 1, need(e->b) + 1) + (e->k == X_OPASSIGN ? 1 : 0);
        case X_LAND: case X_LOR: return 1 + std::max(need(e->a), need(e->b));
        case X_COND: return 1 + std::max(need(e->a), std::max(need(e->b), need(e->c)));
        case X_CALL:
            n = e->a ? need(e->a) + 1 : 1;
            for (auto a : e->args) n = std::max(n, need(a) + (e->a ? 1 : 0));
            return n;
        default: return std::max(need(e->a) + 0, 1);
    }
}
}   // namespace

int expr_need(const Expr* e) { return need(e); }

static void simplify(Gen& g, Prog& p, const std::vector<Edit>& edits) {
    for (auto& ed : edits) {
        if (ed.kind == 0 && ed.id >= 0 && ed.id < (int)p.stmts.size()) {
            Stmt* s = p.stmts[(size_t)ed.id];
            if (s->deletable) {
                s->k = S_EMPTY;
                s->e = nullptr;
                s->body.clear();
                s->cases.clear();
            }
        } else if (ed.kind == 1 && ed.id >= 0 && ed.id < (int)p.exprs.size()) {
            Expr* e = p.exprs[(size_t)ed.id];
            if (e->t->arith() && e->k != X_LIT && e->k != X_VAR && e->k != X_ENUM) {
                bool lv = e->k == X_INDEX || e->k == X_MEMBER || e->k == X_ARROW || e->k == X_DEREF;
                if (!lv) {
                    e->k = X_LIT;
                    e->val = 1;
                    e->form = 0;
                    if (e->t->k == T_CHAR) e->t = g.ti;
                    e->side = e->topw = false;
                    e->writes.clear();
                }
            }
        } else if (ed.kind == 2 && ed.id >= 0 && ed.id < (int)p.calls.size())
            p.calls[(size_t)ed.id].f = -1;
        else if (ed.kind == 4 && ed.id >= 0 && ed.id < (int)p.exprs.size()) {   // replace binary by its left operand type-compatibly
            Expr* e = p.exprs[(size_t)ed.id];
            if ((e->k == X_BIN || e->k == X_UN || e->k == X_CAST || e->k == X_LAND || e->k == X_LOR) && e->t->arith() && e->a && e->a->t->arith()) {
                Type* t = e->t;
                Expr* a = e->a;
                e->k = X_CAST;
                e->ty = t;
                e->a = a;
                e->b = nullptr;
            }
        } else if (ed.kind == 5 && ed.id >= 0 && ed.id < (int)p.exprs.size()) {   // ... or by its right operand
            Expr* e = p.exprs[(size_t)ed.id];
            if ((e->k == X_BIN || e->k == X_LAND || e->k == X_LOR || e->k == X_COND) && e->t->arith() && e->b && e->b->t->arith()) {
                Expr* b = e->b;
                e->k = X_CAST;
                e->ty = e->t;
                e->a = b;
                e->b = e->c = nullptr;
            }
        } else if (ed.kind == 6 && ed.id >= 0 && ed.id < (int)p.stmts.size()) {   // if/loop -> its body
            Stmt* s = p.stmts[(size_t)ed.id];
            if (s->deletable && s->k == S_IF && s->s1) {
                s->k = S_BLOCK;
                s->body = {s->s1};
            }
        }
    }
    p.calls.erase(std::remove_if(p.calls.begin(), p.calls.end(), [](const Call& c) { return c.f < 0; }), p.calls.end());
}

Prog* gen_prog(uint64_t seed, const GenCfg& cfg, const std::vector<Edit>& edits) {
    Prog* p = new Prog;
    Gen g(*p, seed, cfg);
    g.go();
    p->nunits = cfg.nunits;
    // reduce register pressure where the expression would need too many registers: wrap deep right operands in casts
    // is not semantics preserving for types, so replace them by literals instead
    exactneed = g.focus == 1 || g.focus == 2 || cfg.maxlive >= 8;
    int maxlive = exactneed ? std::max(cfg.maxlive, 8) : cfg.maxlive;
    if (maxlive > 0) {
        for (int round = 0; round < 40; round++) {
            bool again = false;
            for (auto e : p->exprs) {
                if (need(e) > maxlive) {
                    // find the deepest offending operand and cut it
                    Expr* x = e;
                    while (x) {
                        Expr* nxt = nullptr;
                        int best = 0;
                        bool wr = x->k == X_ASSIGN || x->k == X_OPASSIGN || (x->k >= X_PREINC && x->k <= X_POSTDEC) || x->k == X_ADDR || x->k == X_MEMBER;
                        std::vector<Expr*> ch = {wr ? nullptr : x->a, x->b, x->c};
                        for (auto a : x->args) ch.push_back(a);
                        for (auto c : ch)
                            if (c && need(c) > best) best = need(c), nxt = c;
                        bool lv = x->k == X_INDEX || x->k == X_MEMBER || x->k == X_ARROW || x->k == X_DEREF || x->k == X_ASSIGN || x->k == X_OPASSIGN || x->k == X_ADDR;
                        if (best <= 2 && x->t->arith() && !lv && x != e) {
                            x->k = X_LIT;
                            x->val = 1;
                            x->form = 0;
                            if (x->t->k == T_CHAR) x->t = g.ti;
                            again = true;
                            break;
                        }
                        x = nxt;
                    }
                }
            }
            if (!again) break;
        }
    }
    simplify(g, *p, edits);
    return p;
}
