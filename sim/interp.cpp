// The C abstract machine for the generated subset: the reference model all machine histories are compared with.
#include "prog.h"
#include <climits>
#include <cstring>
#include <unordered_map>

namespace {
struct Repair {};
struct Bad {
    std::string why;
};
struct Obj {
    std::vector<uint8_t> b, ini;
    bool live = true;
};
enum Flow { NORMAL, BRK, CONT, RET };
struct Fr {
    std::unordered_map<const Var*, uint32_t> m;
    int64_t ret = 0;
};
struct In {
    Prog& p;
    uint64_t seed, maxs, steps = 0, ncall = 0;
    std::vector<Obj> objs;
    std::unordered_map<const Var*, uint32_t> gl;
    std::unordered_map<const Expr*, uint32_t> strs;
    std::vector<Fr*> fr;
    History& h;
    int cbdepth = 0;
    bool probe_only = false;   // do not repair the program
    In(Prog& pp, uint64_t s, History& hh, uint64_t m) : p(pp), seed(s), maxs(m), h(hh) { objs.resize(1); }
    ~In() {
        for (auto f : fr) delete f;
    }
    void tick() {
        if (++steps > maxs) throw Bad{"too long"};
    }
    uint32_t mkobj(int size, bool zero) {
        Obj o;
        o.b.assign((size_t)size, 0);
        o.ini.assign((size_t)size, zero ? 1 : 0);
        objs.push_back(std::move(o));
        return (uint32_t)objs.size() - 1;
    }
    static uint64_t P(uint32_t o, int64_t off) { return ((uint64_t)o << 32) | (uint32_t)off; }
    int64_t load(uint64_t a, const Type* t) {
        uint32_t o = (uint32_t)(a >> 32);
        uint32_t off = (uint32_t)a;
        int n = t->size();
        if (o == 0 || o >= objs.size()) throw Bad{"bad pointer load"};
        Obj& ob = objs[o];
        if (!ob.live) throw Bad{"dangling load"};
        if ((uint64_t)off + (uint64_t)n > ob.b.size()) throw Bad{"load out of bounds"};
        int64_t v = 0;
        for (int i = 0; i < n; i++) {
            if (!ob.ini[off + (uint32_t)i]) throw Bad{"uninitialised load"};
            v |= (int64_t)((uint64_t)ob.b[off + (uint32_t)i] << (8 * i));
        }
        return canon(v, t);
    }
    void store(uint64_t a, const Type* t, int64_t v) {
        uint32_t o = (uint32_t)(a >> 32);
        uint32_t off = (uint32_t)a;
        int n = t->size();
        if (o == 0 || o >= objs.size()) throw Bad{"bad pointer store"};
        Obj& ob = objs[o];
        if (!ob.live) throw Bad{"dangling store"};
        if ((uint64_t)off + (uint64_t)n > ob.b.size()) throw Bad{"store out of bounds"};
        for (int i = 0; i < n; i++) {
            ob.b[off + (uint32_t)i] = (uint8_t)((uint64_t)v >> (8 * i));
            ob.ini[off + (uint32_t)i] = 1;
        }
    }
    uint64_t var_addr(const Var* v) {
        if (v->global) return P(gl.at(v), 0);
        auto it = fr.back()->m.find(v);
        if (it == fr.back()->m.end()) throw Bad{"variable " + v->name + " not in scope"};
        return P(it->second, 0);
    }
    uint64_t lval(Expr* e) {
        tick();
        switch (e->k) {
            case X_VAR: return var_addr(e->v);
            case X_DEREF: return (uint64_t)eval(e->a);
            case X_INDEX: {
                uint64_t b = (uint64_t)eval(e->a);
                int64_t i = eval(e->b);
                return padd(b, i, e->a->t->base->size());
            }
            case X_MEMBER: return lval(e->a) + (uint64_t)e->a->t->sd->m[(size_t)e->mi].off;
            case X_ARROW: return (uint64_t)eval(e->a) + (uint64_t)e->a->t->base->sd->m[(size_t)e->mi].off;
            default: throw Bad{"not an lvalue"};
        }
    }
    uint64_t padd(uint64_t b, int64_t i, int sz) {
        if (b == 0) throw Bad{"arithmetic on null"};
        int64_t off = (int64_t)(uint32_t)b + i * sz;
        uint32_t o = (uint32_t)(b >> 32);
        if (o >= objs.size() || off < 0 || off > (int64_t)objs[o].b.size()) throw Bad{"pointer arithmetic out of bounds"};
        return P(o, off);
    }
    static bool fits(__int128 v, const Type* t) {
        if (t->k == T_INT) return v >= INT_MIN && v <= INT_MAX;
        return v >= (__int128)LONG_MIN && v <= (__int128)LONG_MAX;
    }
    int64_t binop(Expr* site, int op, int64_t a, int64_t b, const Type* t, const Type* opt) {
        // opt: type in which the operation is done
        (void)t;
        bool sg = opt->sgn();
        __int128 A, B;
        if (sg) A = a, B = b;
        else A = (__int128)(uint64_t)a, B = (__int128)(uint64_t)b;
        switch (op) {
            case O_ADD: case O_SUB: case O_MUL: {
                if (!sg) {
                    uint64_t x = (uint64_t)a, y = (uint64_t)b;
                    return canon((int64_t)(op == O_ADD ? x + y : op == O_SUB ? x - y : x * y), opt);
                }
                __int128 v = op == O_ADD ? A + B : op == O_SUB ? A - B : A * B;
                if (!fits(v, opt)) {
                    if (probe_only) throw Bad{"undefined"};
                    site->op = op == O_ADD ? O_XOR : op == O_SUB ? O_OR : O_AND;
                    throw Repair{};
                }
                return (int64_t)v;
            }
            case O_DIV: case O_MOD: {
                if (B == 0 || (sg && !fits(A / B, opt))) {
                    if (probe_only) throw Bad{"undefined"};
                    site->op = O_AND;
                    throw Repair{};
                }
                return canon((int64_t)(op == O_DIV ? A / B : A % B), opt);
            }
            case O_AND: return canon(a & b, opt);
            case O_OR: return canon(a | b, opt);
            case O_XOR: return canon(a ^ b, opt);
            case O_SHL: {
                int w = opt->size() * 8;
                if (b < 0 || b >= w) {
                    if (probe_only) throw Bad{"undefined"};
                    if (site->b && site->b->k == X_LIT) site->b->val = 1;
                    else site->op = O_AND;
                    throw Repair{};
                }
                if (sg) {
                    __int128 v = A << b;
                    if (a < 0 || !fits(v, opt)) {
                        if (probe_only) throw Bad{"undefined"};
                    site->op = O_SHR;
                        throw Repair{};
                    }
                    return (int64_t)v;
                }
                return canon((int64_t)((uint64_t)a << b), opt);
            }
            case O_SHR: {
                int w = opt->size() * 8;
                if (b < 0 || b >= w) {
                    if (probe_only) throw Bad{"undefined"};
                    if (site->b && site->b->k == X_LIT) site->b->val = 1;
                    else site->op = O_AND;
                    throw Repair{};
                }
                if (sg) return canon(a >> b, opt);
                return canon((int64_t)((uint64_t)a >> b), opt);
            }
            case O_LT: return A < B;
            case O_GT: return A > B;
            case O_LE: return A <= B;
            case O_GE: return A >= B;
            case O_EQ: return A == B;
            case O_NE: return A != B;
            default: throw Bad{"op"};
        }
    }
    static const Type* promo(const Type* t) {
        static Type ti{};
        ti.k = T_INT;
        return t->k == T_CHAR ? &ti : t;
    }
    static const Type* uac(const Type* a, const Type* b) {
        a = promo(a);
        b = promo(b);
        static Type ull{};
        ull.k = T_ULLONG;
        const Type *x = a->k >= b->k ? a : b, *y = a->k >= b->k ? b : a;
        if (x->k == T_LLONG && y->k == T_ULONG) return &ull;
        return x;
    }
    int64_t bin2(Expr* site, int op, int64_t a, const Type* ta, int64_t b, const Type* tb) {
        const Type* opt = (op == O_SHL || op == O_SHR) ? promo(ta) : uac(ta, tb);
        a = canon(a, opt);
        if (op != O_SHL && op != O_SHR) b = canon(b, opt);
        return binop(site, op, a, b, opt, opt);
    }
    int64_t incdec(Expr* e, int d, bool post) {
        uint64_t l = lval(e->a);
        const Type* t = e->a->t;
        int64_t v = load(l, t), n;
        if (t->k == T_PTR) n = (int64_t)padd((uint64_t)v, d, t->base->size());
        else {
            const Type* o = promo(t);
            if (o->sgn()) {
                __int128 w = (__int128)v + d;
                if (!fits(w, o)) {
                    if (probe_only) throw Bad{"undefined"};
                    if (++e->val > 3) throw Bad{"increment overflow"};
                    e->k = e->k == X_PREINC ? X_PREDEC : e->k == X_PREDEC ? X_PREINC : e->k == X_POSTINC ? X_POSTDEC : X_POSTINC;
                    throw Repair{};
                }
                n = (int64_t)w;
            } else
                n = canon(v + d, o);
            n = canon(n, t);
        }
        store(l, t, n);
        return post ? v : n;
    }
    bool truth(Expr* e) { return eval(e) != 0; }
    int64_t eval(Expr* e) {
        tick();
        switch (e->k) {
            case X_LIT: return canon(e->val, e->t);
            case X_ENUM: return e->val;
            case X_FUNC: return (int64_t)P(0x7f000000u | (uint32_t)e->f->idx, 0);
            case X_STR: {
                auto it = strs.find(e);
                if (it == strs.end()) {
                    uint32_t o = mkobj((int)e->s.size() + 1, true);
                    memcpy(objs[o].b.data(), e->s.data(), e->s.size());
                    it = strs.insert({e, o}).first;
                }
                return (int64_t)P(it->second, 0);
            }
            case X_VAR: case X_DEREF: case X_INDEX: case X_MEMBER: case X_ARROW: {
                if (e->k == X_DEREF && e->t->k == T_FUNC) return eval(e->a);
                uint64_t l = lval(e);
                if (e->t->k == T_ARR || e->t->k == T_STRUCT) return (int64_t)l;
                return load(l, e->t);
            }
            case X_UN: {
                int64_t v = eval(e->a);
                const Type* t = promo(e->a->t);
                switch (e->op) {
                    case O_NEG:
                        if (t->sgn()) {
                            if (!fits(-(__int128)v, t)) {
                                if (probe_only) throw Bad{"undefined"};
                                e->op = O_NOT;
                                throw Repair{};
                            }
                            return -v;
                        }
                        return canon((int64_t)(0 - (uint64_t)v), t);
                    case O_POS: return v;
                    case O_NOT: return canon(~v, t);
                    default: return v == 0;
                }
            }
            case X_BIN: {
                bool pa = !e->a->t->arith(), pb = !e->b->t->arith();
                if (pa || pb) return ptrop(e, pa, pb);
                int64_t a = eval(e->a);
                int64_t b = eval(e->b);
                return bin2(e, e->op, a, e->a->t, b, e->b->t);
            }
            case X_LAND: return truth(e->a) && truth(e->b);
            case X_LOR: return truth(e->a) || truth(e->b);
            case X_COND: {
                bool q = truth(e->a);
                Expr* x = q ? e->b : e->c;
                int64_t v = eval(x);
                return e->t->arith() ? canon(v, e->t) : v;
            }
            case X_ASSIGN: {
                int64_t v = eval(e->b);
                uint64_t l = lval(e->a);
                v = canon(v, e->a->t);
                store(l, e->a->t, v);
                return v;
            }
            case X_OPASSIGN: {
                int64_t b = eval(e->b);
                uint64_t l = lval(e->a);
                int64_t a = load(l, e->a->t);
                int64_t v;
                if (e->a->t->k == T_PTR) v = (int64_t)padd((uint64_t)a, e->op == O_ADD ? b : -b, e->a->t->base->size());
                else v = canon(bin2(e, e->op, a, e->a->t, b, e->b->t), e->a->t);
                store(l, e->a->t, v);
                return v;
            }
            case X_PREINC: return incdec(e, 1, false);
            case X_PREDEC: return incdec(e, -1, false);
            case X_POSTINC: return incdec(e, 1, true);
            case X_POSTDEC: return incdec(e, -1, true);
            case X_ADDR: return (int64_t)lval(e->a);
            case X_CAST: {
                int64_t v = eval(e->a);
                return e->ty->arith() ? canon(v, e->ty) : v;
            }
            case X_SIZEOFT: return e->ty->size();
            case X_SIZEOFE: return e->a->t->size();
            case X_CALL: {
                Func* f = e->f;
                if (e->a) {
                    uint64_t v = (uint64_t)eval(e->a);
                    uint32_t o = (uint32_t)(v >> 32);
                    if ((o & 0xff000000u) != 0x7f000000u) throw Bad{"bad function pointer"};
                    f = p.funcs.at(o & 0xffffff);
                }
                std::vector<int64_t> as;
                for (size_t i = 0; i < e->args.size(); i++) {
                    int64_t v = eval(e->args[i]);
                    as.push_back(canon(v, f->t->params[i]));
                }
                return call(f, as);
            }
        }
        throw Bad{"expr"};
    }
    int64_t ptrop(Expr* e, bool pa, bool pb) {
        int64_t a = eval(e->a), b = eval(e->b);
        if (pa && pb) {
            if (((uint64_t)a >> 32) != ((uint64_t)b >> 32) && e->op != O_EQ && e->op != O_NE) throw Bad{"relational between objects"};
            int64_t x = (uint32_t)a, y = (uint32_t)b;
            switch (e->op) {
                case O_LT: return x < y;
                case O_GT: return x > y;
                case O_LE: return x <= y;
                case O_GE: return x >= y;
                case O_EQ: return a == b;
                case O_NE: return a != b;
                case O_SUB: return (x - y) / e->a->t->base->size();
                default: throw Bad{"pointer op"};
            }
        }
        if (pa) return (int64_t)padd((uint64_t)a, e->op == O_ADD ? b : -b, e->a->t->base->size());
        return (int64_t)padd((uint64_t)b, a, e->b->t->base->size());
    }
    void do_init(uint64_t at, const Type* t, Init* i) {
        if (i->str) {
            for (int k = 0; k < t->n; k++) store(at + (uint64_t)k, t->base, k < (int)i->s.size() ? (int8_t)i->s[(size_t)k] : 0);
            return;
        }
        if (i->list) {
            if (t->k == T_ARR) {
                for (int k = 0; k < t->n; k++) {
                    if (k < (int)i->l.size()) do_init(at + (uint64_t)(k * t->base->size()), t->base, i->l[(size_t)k]);
                    else zero(at + (uint64_t)(k * t->base->size()), t->base);
                }
            } else {
                for (size_t k = 0; k < t->sd->m.size(); k++) {
                    if (k < i->l.size()) do_init(at + (uint64_t)t->sd->m[k].off, t->sd->m[k].t, i->l[k]);
                    else zero(at + (uint64_t)t->sd->m[k].off, t->sd->m[k].t);
                }
            }
            return;
        }
        int64_t v = eval(i->e);
        store(at, t, canon(v, t));
    }
    void zero(uint64_t at, const Type* t) {
        if (t->scalar()) store(at, t, 0);
        else if (t->k == T_ARR)
            for (int k = 0; k < t->n; k++) zero(at + (uint64_t)(k * t->base->size()), t->base);
        else
            for (auto& m : t->sd->m) zero(at + (uint64_t)m.off, m.t);
    }
    void declare(Var* v, Init* init) {
        uint32_t o = mkobj(v->t->size(), false);
        auto it = fr.back()->m.find(v);
        if (it != fr.back()->m.end()) objs[it->second].live = false;
        // the initialiser cannot see the new object (names are distinct or hidden)
        if (init) do_init(P(o, 0), v->t, init);
        fr.back()->m[v] = o;
    }
    Flow stmt(Stmt* s) {
        tick();
        switch (s->k) {
            case S_EMPTY: case S_TYPE: return NORMAL;
            case S_EXPR: eval(s->e); return NORMAL;
            case S_DECL: declare(s->v, s->init); return NORMAL;
            case S_IF:
                if (truth(s->e)) return stmt(s->s1);
                return s->s2 ? stmt(s->s2) : NORMAL;
            case S_WHILE:
                while (truth(s->e)) {
                    Flow f = stmt(s->s1);
                    if (f == BRK) break;
                    if (f == RET) return RET;
                }
                return NORMAL;
            case S_FOR: {
                if (s->v) {
                    declare(s->v, s->init);
                    for (auto x : s->body) declare(x->v, x->init);
                } else if (s->e2) eval(s->e2);
                while (!s->e || truth(s->e)) {
                    Flow f = stmt(s->s1);
                    if (f == BRK) break;
                    if (f == RET) return RET;
                    if (s->e3) eval(s->e3);
                }
                return NORMAL;
            }
            case S_SWITCH: {
                int64_t v = eval(s->e);
                int at = -1;
                for (size_t i = 0; i < s->cases.size(); i++)
                    if (!s->cases[i].dflt && s->cases[i].val == v) at = (int)i;
                if (at < 0)
                    for (size_t i = 0; i < s->cases.size(); i++)
                        if (s->cases[i].dflt) at = (int)i;
                if (at < 0) return NORMAL;
                for (size_t i = (size_t)at; i < s->cases.size(); i++)
                    for (auto x : s->cases[i].body) {
                        Flow f = stmt(x);
                        if (f == BRK) return NORMAL;
                        if (f != NORMAL) return f;
                    }
                return NORMAL;
            }
            case S_BLOCK:
                for (auto x : s->body) {
                    Flow f = stmt(x);
                    if (f != NORMAL) return f;
                }
                return NORMAL;
            case S_RETURN:
                if (s->e) fr.back()->ret = eval(s->e);
                return RET;
            case S_BREAK: return BRK;
            case S_CONTINUE: return CONT;
        }
        return NORMAL;
    }
    int64_t call(Func* f, const std::vector<int64_t>& as) {
        tick();
        if (f->ext) return ext(f, as);
        if (fr.size() > 60) throw Bad{"recursion too deep"};
        Fr* n = new Fr;
        for (size_t i = 0; i < f->params.size(); i++) {
            uint32_t o = mkobj(f->params[i]->t->size(), false);
            store(P(o, 0), f->params[i]->t, as[i]);
            n->m[f->params[i]] = o;
        }
        fr.push_back(n);
        Flow fl = f->body ? stmt(f->body) : NORMAL;
        if (fl != RET && !f->isvoid()) throw Bad{"fell off the end"};
        int64_t r = n->ret;
        for (auto& kv : n->m) objs[kv.second].live = false;
        fr.pop_back();
        delete n;
        if (f->isvoid()) return 0;
        return f->t->base->arith() ? canon(r, f->t->base) : r;
    }
    int64_t ext(Func* f, const std::vector<int64_t>& as) {
        uint64_t k = ++ncall;
        if (k > 300) throw Bad{"too many external calls"};
        Ev e;
        e.kind = 0;
        e.fn = f->idx;
        std::vector<std::pair<uint64_t, const Type*>> fields;
        Func* cb = nullptr;
        for (size_t i = 0; i < as.size(); i++) {
            int len = f->ei.len[i];
            Type* t = f->t->params[i];
            if (len == 0) e.args.push_back(as[i]);
            else if (len == -1) {
                for (uint64_t q = (uint64_t)as[i];; q++) {
                    static Type tc{};
                    tc.k = T_CHAR;
                    int64_t c = load(q, &tc);
                    e.mem.push_back(c);
                    if (!c) break;
                }
            } else if (len == -2) {
                uint32_t o = (uint32_t)((uint64_t)as[i] >> 32);
                cb = p.funcs.at(o & 0xffffff);
            } else {
                for (int j = 0; j < len; j++) {
                    std::vector<std::pair<int, const Type*>> fs;
                    int_fields(t->base, j * t->base->size(), fs);
                    for (auto& x : fs) {
                        fields.push_back({(uint64_t)as[i] + (uint64_t)x.first, x.second});
                        e.mem.push_back(load((uint64_t)as[i] + (uint64_t)x.first, x.second));
                    }
                }
            }
        }
        e.ret = env_value(seed, k, 0, f->t->base);
        h.ev.push_back(e);
        if (cb && cbdepth < 2) {
            cbdepth++;
            static Type tii{};
            tii.k = T_INT;
            Ev c;
            c.kind = 2;
            c.fn = cb->idx;
            c.args = {env_value(seed, k, 500, &tii)};
            c.ret = call(cb, c.args);
            h.ev.push_back(c);
            cbdepth--;
        }
        for (size_t i = 0; i < fields.size(); i++)
            if ((hash2(seed ^ 0x55, k * 1000 + i) & 3) == 0) store(fields[i].first, fields[i].second, env_value(seed, k, 1000 + i, fields[i].second));
        peer();
        return e.ret;
    }
    uint64_t npeer = 0;
    void peer() {
        if (!p.peer) return;
        npeer++;
        for (int j = 0; j < p.peer; j++) {
            PeerOp o = peer_op(p, seed, npeer, j);
            if (o.g < 0) continue;
            Ev e;
            e.kind = 3;
            e.fn = o.g;
            uint64_t a = P(gl.at(p.globals[(size_t)o.g]), o.off);
            e.args = {o.field, o.write ? o.val : 0};
            e.ret = load(a, o.t);
            if (o.write) store(a, o.t, o.val);
            h.ev.push_back(e);
        }
    }
    void run() {
        for (auto g : p.globals) {
            uint32_t o = mkobj(g->t->size(), true);
            gl[g] = o;
            if (g->init) do_init(P(o, 0), g->t, g->init);
        }
        for (auto& c : p.calls) {
            Func* f = p.funcs[(size_t)c.f];
            Ev e;
            e.kind = 1;
            e.fn = c.f;
            e.args = c.args;
            e.ret = call(f, c.args);
            h.ev.push_back(e);
            peer();
        }
        for (auto g : p.globals) h.globals.push_back(objs[gl[g]].b);
        h.steps = steps;
        h.ok = true;
    }
};
}   // namespace
PeerOp peer_op(const Prog& p, uint64_t seed, uint64_t k, int j) {
    PeerOp o;
    if (p.globals.empty()) return o;
    uint64_t h = hash2(hash2(seed ^ 0x9e37, k), (uint64_t)j);
    int g = (int)(h % p.globals.size());
    std::vector<std::pair<int, const Type*>> fs;
    int_fields(p.globals[(size_t)g]->t, 0, fs);
    if (fs.empty()) return o;
    o.g = g;
    o.field = (int)((h >> 20) % fs.size());
    o.off = fs[(size_t)o.field].first;
    o.t = fs[(size_t)o.field].second;
    o.write = (h >> 40) & 1;
    o.val = env_value(seed ^ 0x77, k * 64 + (uint64_t)j, 9, o.t);
    return o;
}
bool interp_run(Prog& p, uint64_t env_seed, History& h, uint64_t max_steps) {
    h = History();
    In in(p, env_seed, h, max_steps);
    try {
        in.run();
    } catch (Repair&) {
        h.ok = false;
        h.why = "repair";
        return false;
    } catch (Bad& b) {
        h.ok = false;
        h.why = b.why;
        return false;
    } catch (std::exception& e) {
        h.ok = false;
        h.why = e.what();
        return false;
    }
    return true;
}
bool interp_pure(Prog& p, int fn, const std::vector<int64_t>& args, int64_t& ret, uint64_t max_steps) {
    History h;
    In in(p, 1, h, max_steps);
    in.probe_only = true;
    try {
        ret = in.call(p.funcs.at((size_t)fn), args);
    } catch (Repair&) {
        return false;
    } catch (Bad&) {
        return false;
    } catch (std::exception&) {
        return false;
    }
    return true;
}
bool interp_repair(Prog& p, uint64_t env_seed, History& h, uint64_t max_steps) {
    for (int i = 0; i < 400; i++) {
        if (interp_run(p, env_seed, h, max_steps)) return true;
        if (h.why != "repair") return false;
    }
    return false;
}
