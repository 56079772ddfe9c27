// Scenarios C08-C11: the compiled program on the simulated machine, in a simulated (adversarial but conforming) environment.
#include <cstring>
#include <algorithm>
#include <memory>
#include <unistd.h>
#include <sys/wait.h>
#include "case.h"
#include "emu.h"

// ------------------------------------------------------------------ generator parameters
void plan_gen(Case& c, Rng& r, const std::string& x, int size) {
    // size 0 tiny, 1 small, 2 medium, 3 large
    static const int fn[] = {1, 3, 5, 9}, stm[] = {3, 6, 10, 18}, dep[] = {2, 3, 3, 4};
    c.p[x + "seed"] = (int64_t)(r.next() >> 1);
    c.p[x + "funcs"] = 1 + (int64_t)r.below((uint64_t)fn[size]);
    c.p[x + "stmts"] = 2 + (int64_t)r.below((uint64_t)stm[size]);
    c.p[x + "depth"] = 1 + (int64_t)r.below((uint64_t)dep[size]);
    c.p[x + "globals"] = (int64_t)r.below(6);
    c.p[x + "structs"] = (int64_t)r.below(4);
    c.p[x + "exts"] = 1 + (int64_t)r.below(4);
    c.p[x + "calls"] = 1 + (int64_t)r.below(3);
    c.p[x + "maxlive"] = r.chance(25) ? 7 + (int64_t)r.below(2) : 3 + (int64_t)r.below(4);
    c.p[x + "style"] = (int64_t)r.below(1000);
    // swarm: every feature is switched off in part of the runs
    uint64_t f = 0;
    int mode = (int)r.below(4);
    for (int b = 0; b < 36; b++)
        if (r.chance(mode == 0 ? 90 : mode == 1 ? 65 : mode == 2 ? 40 : 75)) f |= 1ull << b;
    if (r.chance(10)) f = ~0ull;
    c.p[x + "feat"] = (int64_t)(f & 0xfffffffffull);
}
GenCfg gen_cfg(const Case& c, const std::string& x) {
    GenCfg g;
    g.funcs = (int)c.get(x + "funcs", 3);
    g.stmts = (int)c.get(x + "stmts", 6);
    g.depth = (int)c.get(x + "depth", 3);
    g.globals = (int)c.get(x + "globals", 3);
    g.structs = (int)c.get(x + "structs", 1);
    g.exts = (int)c.get(x + "exts", 2);
    g.calls = (int)c.get(x + "calls", 2);
    g.maxlive = (int)c.get(x + "maxlive", 5);
    g.feat = (uint64_t)c.get(x + "feat", 0xfffffffffll);
    g.pure_only = c.get(x + "pure") != 0;
    g.nunits = (int)c.get(x + "units", 1);
    g.probe = (int)c.get(x + "probe", 0);
    g.focus = (int)c.get(x + "focus", 0);
    return g;
}
std::vector<Edit> case_edits(const Case& c) {
    std::vector<Edit> e;
    for (auto& it : c.items)
        if (it.tag == "edit" && it.v.size() >= 2) e.push_back({(int)it.v[0], (int)it.v[1]});
    return e;
}
// ------------------------------------------------------------------ compiling in the simulated host
struct Compiled {
    bool ok = false;
    std::string why, cls, s;
    std::unique_ptr<AsmUnit> u;
};
static std::string slurp_cmd(const std::string& src, const char* cmd, int& rc) {   // development: run gcc
    char dir[] = "/tmp/simx-XXXXXX";
    if (!mkdtemp(dir)) return "";
    std::string d = dir;
    FILE* f = fopen((d + "/a.c").c_str(), "w");
    fwrite(src.data(), 1, src.size(), f);
    fclose(f);
    rc = system(("cd " + d + " && " + cmd).c_str());
    std::string o;
    f = fopen((d + "/a.s").c_str(), "r");
    if (f) {
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
        fclose(f);
    }
    unlink((d + "/a.c").c_str());
    unlink((d + "/a.s").c_str());
    unlink((d + "/a.o").c_str());
    rmdir(d.c_str());
    return o;
}
// does the real assembler accept this text?  (only asked when the machine's own parser has doubts)
static bool as_accepts(const std::string& s, std::string& msg) {
    int in[2], out[2];
    char tmpl[] = "/tmp/simx-as-XXXXXX";
    int ofd = mkstemp(tmpl);
    if (ofd < 0) return true;
    close(ofd);
    if (pipe(in) || pipe(out)) return true;
    pid_t pid = fork();
    if (pid == 0) {
        dup2(in[0], 0);
        dup2(out[1], 1);
        dup2(out[1], 2);
        close(in[1]);
        close(out[0]);
        execlp("as", "as", "--64", "-o", tmpl, "-", (char*)nullptr);
        _exit(127);
    }
    close(in[0]);
    close(out[1]);
    size_t off = 0;
    while (off < s.size()) {
        ssize_t n = write(in[1], s.data() + off, s.size() - off);
        if (n <= 0) break;
        off += (size_t)n;
    }
    close(in[1]);
    char b[2000];
    ssize_t n;
    while ((n = read(out[0], b, sizeof b)) > 0) msg.append(b, (size_t)n);
    close(out[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    unlink(tmpl);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 127) return true;   // no assembler here
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static Compiled compile_src(const std::string& src, Verdict& v, const HostCfg& hc, const std::string& path = "p.c") {
    Compiled r;
    if (g_use_gcc) {
        int rc = 0;
        r.s = slurp_cmd(src, "gcc -std=c99 -w -O0 -S -fcf-protection=none -fno-pic -mno-sse -mno-sse2 -fno-stack-protector -fno-asynchronous-unwind-tables -fno-common a.c -o a.s 2>/tmp/simx-gcc.log", rc);
        if (rc) {
            r.cls = "gcc rejects";
            r.why = "gcc";
            return r;
        }
    } else {
        Disk d;
        d.put(path, src);
        ProcSpec ps;
        ps.argv = {path};
        ps.cfg = hc;
        ProcResult pr = host_run1(d, ps);
        ST->n["host_steps"] += pr.steps;
        ST->n["compiles"]++;
        v.hu(pr.trace);
        if (pr.end != E_EXIT || pr.code != 0) {
            r.cls = pr.end == E_EXIT ? "valid program rejected" : "compiler dies on a valid program";
            r.why = pr.describe() + "; " + hexs(pr.err, 300);
            return r;
        }
        std::string sp = path;
        sp[sp.size() - 1] = 's';
        r.s = d.get(sp);
    }
    v.hs(r.s);
    r.u.reset(new AsmUnit(parse_asm(r.s)));
    if (!r.u->err.empty() || !r.u->unsup.empty()) {
        std::string msg;
        if (!as_accepts(r.s, msg)) {
            r.cls = "output is not valid assembly";
            r.why = (r.u->err.empty() ? r.u->unsup : r.u->err) + "; as: " + msg.substr(0, 300);
        } else {
            r.cls = "unsupported";
            r.why = r.u->err.empty() ? r.u->unsup : r.u->err;
            ST->n["machine_unsupported"]++;
            ST->first["machine_unsupported"] = r.why;
        }
        return r;
    }
    r.ok = true;
    return r;
}
// ------------------------------------------------------------------ the machine and its environment
struct SigItem {
    uint64_t at;       // machine step
    int fn;            // handler: index of a pure function
    uint64_t argseed;
};
struct TOpt {
    uint64_t env_seed = 1, mach_seed = 1;
    std::vector<SigItem> sigs;
    bool chase = false;       // signals right behind stores to hidden static memory
    int reenter = 0;          // chance in percent that an external function re-enters a pure function
    bool abi = true;
    uint64_t cap = 2000000;
};
struct TOut {
    std::vector<Ev> ev;
    std::vector<std::vector<uint8_t>> gl;
    std::string cls, what;    // machine fault
    std::vector<std::string> abi;
    uint64_t steps = 0, trace = 0, ext = 0, fired = 0, reentered = 0, sigsteps = 0;
    std::vector<std::string> disturb;   // results of handlers / re-entries that differ
    uint64_t lines = 0;
};
static uint64_t garb(uint64_t v, const Type* t, Rng& q, bool ret) {
    // bits above the type are unspecified
    if (t->k == T_CHAR && !ret) return (uint64_t)(uint32_t)(int32_t)(int8_t)v | (q.next() << 32);
    if (t->k == T_CHAR) return (v & 0xff) | (q.next() << 8);
    if (t->size() == 4) return (v & 0xffffffffull) | (q.next() << 32);
    return v;
}
static const uint64_t STK = 0x7ffe00000000ull, STKSZ = 1u << 20;
struct World : EnvIf {
    Prog& p;
    TOpt o;
    TOut& out;
    Emu m;
    Rng q;
    uint64_t ncall = 0, npeer = 0;
    int cbdepth = 0, insig = 0;
    size_t nextsig = 0;
    std::vector<int> ext_idx;
    std::vector<uint64_t> faddr;
    std::map<std::string, int64_t> pure_res;   // undisturbed results of handlers
    std::vector<std::pair<int, uint64_t>> chasers;   // handlers that use the hidden static state as well
    uint64_t lasthot = 0, chased = 0;
    int arm = 0;
    bool quiet = false;
    World(Prog& pp, const TOpt& oo, TOut& t) : p(pp), o(oo), out(t), q(hash2(oo.mach_seed, 99)) {}
    bool setup(const std::vector<AsmUnit*>& us) {
        std::vector<std::string> ex;
        for (auto f : p.funcs)
            if (f->ext) ex.push_back(f->name), ext_idx.push_back(f->idx);
        if (!m.link(us, ex, hash2(o.mach_seed, 5))) return false;
        m.g = Rng(hash2(o.mach_seed, 3));
        m.cap = o.cap;
        m.env = this;
        m.abi_check = o.abi;
        faddr.assign(p.funcs.size(), 0);
        for (auto f : p.funcs) {
            auto it = m.gsym.find(f->name);
            if (it != m.gsym.end()) faddr[(size_t)f->idx] = it->second;
            else if (f->body) {
                m.err = "function `" + f->name + "' is not visible to other code";
                return false;
            }
        }
        for (auto g : p.globals)
            if (!m.gsym.count(g->name)) {
                m.err = "variable `" + g->name + "' is not visible to other code";
                return false;
            } else
                m.owned[m.gsym[g->name] + (uint64_t)g->t->size()] = m.gsym[g->name];
        return true;
    }
    void add_stack(Cpu& c, int k) {
        Region s;
        s.base = STK + (uint64_t)k * 4 * STKSZ + 16 * q.below(256);
        s.m.resize(STKSZ);
        s.name = "stack";
        uint64_t x = q.next();
        for (size_t i = 0; i < s.m.size(); i += 8) {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            memcpy(&s.m[i], &x, 8);
        }
        c.r[RSP] = s.base + STKSZ - 4096 - 16 * q.below(64);
        m.reg.push_back(std::move(s));
    }
    std::vector<uint64_t> mkargs(Func* f, const std::vector<int64_t>& a) {
        std::vector<uint64_t> v;
        for (size_t i = 0; i < a.size(); i++) v.push_back(garb((uint64_t)a[i], f->t->params[i], q, false));
        return v;
    }
    int64_t result(Func* f, uint64_t rax) { return f->isvoid() ? 0 : canon((int64_t)rax, f->t->base); }
    int64_t load(uint64_t a, const Type* t) { return canon((int64_t)m.rd(a, t->size()), t); }
    void peer() {
        if (!p.peer) return;
        npeer++;
        for (int j = 0; j < p.peer; j++) {
            PeerOp po = peer_op(p, o.env_seed, npeer, j);
            if (po.g < 0) continue;
            Ev e;
            e.kind = 3;
            e.fn = po.g;
            uint64_t a = m.gsym.at(p.globals[(size_t)po.g]->name) + (uint64_t)po.off;
            e.args = {po.field, po.write ? po.val : 0};
            e.ret = load(a, po.t);
            if (po.write) m.wrm(a, po.t->size(), (uint64_t)po.val);
            out.ev.push_back(e);
        }
    }
    // runs a pure function in the middle of something else and compares with its undisturbed result
    void intrude(Cpu& c, uint64_t sp, int fn, uint64_t argseed, const char* what) {
        Func* f = p.funcs[(size_t)fn];
        std::vector<int64_t> a;
        for (size_t i = 0; i < f->t->params.size(); i++) a.push_back(i + 1 == f->t->params.size() && f->rec ? (int64_t)(argseed % 3) : env_value(argseed, 3, i, f->t->params[i]));
        auto it = pure_res.find(std::to_string(fn) + ":" + std::to_string(argseed));
        if (it == pure_res.end()) return;   // not a well-defined call
        Cpu k = c;
        k.r[RSP] = sp;
        uint64_t s0 = m.steps;
        int64_t r = result(f, m.call(k, faddr[(size_t)fn], mkargs(f, a), q.next()));
        out.sigsteps += m.steps - s0;
        if (it->second != r && out.disturb.size() < 4)
            out.disturb.push_back(std::string(what) + " runs " + f->name + " and gets " + std::to_string(r) + " instead of " + std::to_string(it->second));
    }
    void on_step(Emu&, Cpu& c) override {
        if (quiet) return;
        // compiled code keeps something in static memory that is no object of the program: a signal right behind the store
        bool chase = false;
        if (o.chase && !insig && !chasers.empty() && chased < 4000) {
            if (m.nhot != lasthot) {
                lasthot = m.nhot;
                arm = 1 + (int)q.below(4);
            }
            if (arm && !--arm) chase = true;
        }
        while (chase || (nextsig < o.sigs.size() && m.steps >= o.sigs[nextsig].at && insig < 3)) {
            SigItem s;
            if (chase) {
                auto& k = chasers[(size_t)q.below(chasers.size())];
                s.at = m.steps;
                s.fn = k.first;
                s.argseed = k.second;
                chase = false;
                chased++;
            } else
                s = o.sigs[nextsig++];
            if (c.ip < 0 || c.ip >= (int64_t)m.code.size()) return;
            insig++;
            out.fired++;
            Region* st = m.find(c.r[RSP], 1);
            if (!st || st->name != "stack" || c.r[RSP] < st->base + 70000) {
                insig--;
                continue;
            }
            uint64_t lo = st->base, top = c.r[RSP] - 128;   // the kernel keeps off the red zone only
            m.garbage(top - 2048 > lo ? top - 2048 : lo, 2048, q.next());
            Cpu save = c;
            uint64_t h[3] = {m.steps, (uint64_t)c.ip, (uint64_t)s.fn};
            fnv(m.trace, h, sizeof h);
            if (s.fn >= 0) intrude(c, (top - 512 - 8 * q.below(8)) & ~15ull, s.fn, s.argseed, "a signal handler");
            c = save;
            insig--;
        }
    }
    void ext_call(Emu&, Cpu& c, int id) override {
        Func* f = p.funcs[(size_t)ext_idx[(size_t)id]];
        static const int ar[] = {RDI, RSI, RDX, RCX, R8, R9};
        uint64_t k = ++ncall;
        if (k > 400) throw EmuFault{"runaway", "more external calls than the program makes"};
        uint64_t sp = c.r[RSP];
        std::vector<uint64_t> a;
        size_t n = f->t->params.size();
        for (size_t i = 0; i < n; i++) a.push_back(i < 6 ? c.r[ar[i]] : m.rd(sp + 8 + 8 * (i - 6), 8));
        Ev e;
        e.fn = f->idx;
        std::vector<std::pair<uint64_t, const Type*>> fields;
        int cb = -1;
        for (size_t i = 0; i < n; i++) {
            int len = f->ei.len[i];
            Type* t = f->t->params[i];
            if (len == 0) e.args.push_back(canon((int64_t)a[i], t));
            else if (len == -1) {
                for (uint64_t x = a[i];; x++) {
                    int64_t ch = (int8_t)m.rd(x, 1);
                    e.mem.push_back(ch);
                    if (!ch || e.mem.size() > 5000) break;
                }
            } else if (len == -2) {
                for (size_t z = 0; z < faddr.size(); z++)
                    if (faddr[z] && faddr[z] == a[i]) cb = (int)z;
                if (cb < 0) throw EmuFault{"crash", "external function got a bad function pointer"};
            } else
                for (int j = 0; j < len; j++) {
                    std::vector<std::pair<int, const Type*>> fs;
                    int_fields(t->base, j * t->base->size(), fs);
                    for (auto& x : fs) {
                        fields.push_back({a[i] + (uint64_t)x.first, x.second});
                        e.mem.push_back(load(a[i] + (uint64_t)x.first, x.second));
                    }
                }
        }
        e.ret = env_value(o.env_seed, k, 0, f->t->base);
        out.ev.push_back(e);
        out.ext++;
        uint64_t save[16];
        memcpy(save, c.r, sizeof save);
        // the callee owns everything below the return address and its incoming argument slots
        uint64_t hs = m.steps;
        fnv(m.trace, &hs, 8);
        m.garbage(sp - 4096, 4096, q.next());
        if (cb >= 0 && cbdepth < 2) {
            cbdepth++;
            static Type tii{};
            tii.k = T_INT;
            Ev ce;
            ce.kind = 2;
            ce.fn = cb;
            ce.args = {env_value(o.env_seed, k, 500, &tii)};
            Cpu kc = c;
            kc.r[RSP] = (sp - 256) & ~15ull;
            ce.ret = result(p.funcs[(size_t)cb], m.call(kc, faddr[(size_t)cb], mkargs(p.funcs[(size_t)cb], ce.args), q.next()));
            out.ev.push_back(ce);
            cbdepth--;
        }
        if (o.reenter && !insig && (int)(hash2(o.mach_seed, k * 7 + 1) % 100) < o.reenter) {
            std::vector<int> pf;
            for (auto g : p.funcs)
                if (g->pure && g->body && g->scalar_params) pf.push_back(g->idx);
            if (!pf.empty()) {
                out.reentered++;
                uint64_t hh = hash2(o.env_seed, k * 31);
                intrude(c, (sp - 512) & ~15ull, pf[hh % pf.size()], hh % 16, "an external function");
            }
        }
        for (size_t i = 0; i < fields.size(); i++)
            if ((hash2(o.env_seed ^ 0x55, k * 1000 + i) & 3) == 0) m.wrm(fields[i].first, fields[i].second->size(), (uint64_t)env_value(o.env_seed, k, 1000 + i, fields[i].second));
        peer();
        memcpy(c.r, save, sizeof save);
        for (int r : {RAX, RCX, RDX, RSI, RDI, R8, R9, R10, R11}) c.r[r] = q.next();
        for (size_t i = 6; i < n; i++) m.wrm(sp + 8 + 8 * (i - 6), 8, q.next());
        if (!f->isvoid()) c.r[RAX] = garb((uint64_t)e.ret, f->t->base, q, true);
        c.cf = q.next() & 1;
        c.zf = q.next() & 1;
        c.sf = q.next() & 1;
        c.of = q.next() & 1;
    }
    void globals() {
        for (auto g : p.globals) {
            std::vector<uint8_t> b((size_t)g->t->size());
            uint64_t a = m.gsym.at(g->name);
            for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)m.rd(a + i, 1);
            out.gl.push_back(b);
        }
    }
    void undisturbed() {   // reference results of the functions that handlers will run
        quiet = true;
        std::vector<SigItem> todo = o.sigs;
        Cpu c;
        add_stack(c, 1);
        auto one = [&](int fn, uint64_t as) {
            std::string key = std::to_string(fn) + ":" + std::to_string(as);
            if (pure_res.count(key)) return;
            Func* f = p.funcs[(size_t)fn];
            std::vector<int64_t> a;
            for (size_t i = 0; i < f->t->params.size(); i++) a.push_back(i + 1 == f->t->params.size() && f->rec ? (int64_t)(as % 3) : env_value(as, 3, i, f->t->params[i]));
            int64_t dummy;
            if (!interp_pure(p, fn, a, dummy, 20000)) return;
            Cpu k = c;
            uint64_t h0 = m.nhot;
            pure_res[key] = result(f, m.call(k, faddr[(size_t)fn], mkargs(f, a), q.next()));
            if (m.nhot != h0) chasers.push_back({fn, as});
        };
        for (auto& s : todo)
            if (s.fn >= 0) one(s.fn, s.argseed);
        if (o.reenter || o.chase)
            for (auto g : p.funcs)
                if (g->pure && g->body && g->scalar_params)
                    for (uint64_t as = 0; as < 16; as++) one(g->idx, as);
        if (o.chase && !chasers.empty()) ST->n["hidden_state_shared"]++;
        if (o.chase && chasers.empty())
            for (auto& kv : pure_res) chasers.push_back({atoi(kv.first.c_str()), strtoull(strchr(kv.first.c_str(), ':') + 1, nullptr, 10)});
        quiet = false;
        m.steps = 0;
        lasthot = m.nhot;
    }
    void run() {
        Cpu c;
        try {
            add_stack(c, 0);
            if (o.chase) m.watch = true;
            if (!o.sigs.empty() || o.reenter || o.chase) undisturbed();
            m.want_step = !o.sigs.empty() || o.chase;
            for (auto& cl : p.calls) {
                Func* f = p.funcs[(size_t)cl.f];
                Ev e;
                e.kind = 1;
                e.fn = cl.f;
                e.args = cl.args;
                e.ret = result(f, m.call(c, faddr[(size_t)cl.f], mkargs(f, cl.args), q.next()));
                out.ev.push_back(e);
                peer();
            }
            globals();
        } catch (EmuFault& f) {
            out.cls = f.cls;
            out.what = f.what + " (" + m.where(c.ip) + ")";
        }
        out.abi = m.abi;
        out.steps = m.steps;
        out.trace = m.trace;
        for (auto b : m.line_hit) out.lines += b;
        ST->n["machine_steps"] += m.steps;
        ST->n["machine_runs"]++;
        ST->n["ext_calls"] += out.ext;
    }
};
static std::string diff_hist(const Prog& p, const std::vector<Ev>& a, const std::vector<std::vector<uint8_t>>& ga, const std::vector<Ev>& b,
                             const std::vector<std::vector<uint8_t>>& gb, const char* na, const char* nb) {
    for (size_t i = 0; i < a.size() || i < b.size(); i++) {
        if (i < a.size() && i < b.size() && a[i] == b[i]) continue;
        std::string s = "event " + std::to_string(i) + ": " + na + " ";
        s += i < a.size() ? ev_text(p, a[i]) : std::string("nothing more");
        s += std::string(", ") + nb + " ";
        s += i < b.size() ? ev_text(p, b[i]) : std::string("nothing more");
        return s;
    }
    for (size_t g = 0; g < ga.size() && g < gb.size(); g++) {
        std::vector<std::pair<int, const Type*>> fs;
        int_fields(p.globals[g]->t, 0, fs);
        for (auto& f : fs) {
            if (memcmp(&ga[g][(size_t)f.first], &gb[g][(size_t)f.first], (size_t)f.second->size())) {
                int64_t x = 0, y = 0;
                memcpy(&x, &ga[g][(size_t)f.first], (size_t)f.second->size());
                memcpy(&y, &gb[g][(size_t)f.first], (size_t)f.second->size());
                return "final value of " + p.globals[g]->name + " at offset " + std::to_string(f.first) + ": " + na + " " + std::to_string(canon(x, f.second)) + ", " + nb +
                       " " + std::to_string(canon(y, f.second));
            }
        }
    }
    return "";
}
static void hash_out(Verdict& v, const TOut& t) {
    v.hu(t.trace);
    v.hu(t.steps);
    for (auto& e : t.ev) {
        v.hu((uint64_t)e.ret);
        v.hu((uint64_t)e.fn);
        for (auto a : e.args) v.hu((uint64_t)a);
        for (auto a : e.mem) v.hu((uint64_t)a);
    }
    for (auto& g : t.gl) v.h(g.data(), g.size());
    v.hs(t.cls);
    for (auto& s : t.abi) v.hs(s);
    for (auto& s : t.disturb) v.hs(s);
}
static std::string hist_text(const Prog& p, const std::vector<Ev>& ev) {
    std::string s;
    for (size_t i = 0; i < ev.size() && i < 40; i++) s += "  " + ev_text(p, ev[i]) + "\n";
    return s;
}

// ------------------------------------------------------------------ planning
Case plan_t(const std::string& prop, uint64_t seed) {
    Case c;
    c.prop = prop;
    c.seed = seed;
    Rng r(hash2(seed, 0xC0DE));
    int size = (int)r.below(10);
    size = size < 3 ? 0 : size < 7 ? 1 : size < 9 ? 2 : 3;
    plan_gen(c, r, "g.", size);
    c.p["env"] = (int64_t)(r.next() >> 1);
    c.p["mach"] = (int64_t)(r.next() >> 1);
    c.p["mach2"] = (int64_t)(r.next() >> 1);
    c.p["hist"] = 1 + (int64_t)r.below(2);
    if (prop == "C08") {
        if (r.chance(55)) {
            c.p["g.probe"] = 1;
            c.p["g.feat"] = (c.p["g.feat"] | FT_NESTCALL) & ~(int64_t)(FT_DIV | FT_SHIFT);
            if (r.chance(70)) c.p["g.feat"] |= FT_MANY;
            c.p["g.depth"] = 1 + (int64_t)r.below(3);
        }
    } else if (prop == "C10") {
        int mode = (int)r.below(3);   // 0 signals, 1 threads, 2 signals + re-entry
        c.p["mode"] = mode;
        if (mode != 1 && r.chance(30)) {   // code with many live values and calls through pointers
            c.p["g.focus"] = 1;
            c.p["g.feat"] |= FT_FPTR | FT_MANY | FT_NESTCALL;
        }
        if (mode == 1) {
            c.p["g.pure"] = 1;
            c.p["threads"] = 2 + (int64_t)r.below(3);
            int n = 2 + (int)r.below(40);
            c.p["loop"] = r.chance(50);
            int64_t burst = 1 + (int64_t)r.below(r.chance(50) ? 4 : 60);
            for (int i = 0; i < n; i++) c.items.push_back({"run", {(int64_t)r.below((uint64_t)c.p["threads"]), 1 + (int64_t)r.below((uint64_t)burst)}});
        } else {
            c.p["reenter"] = mode == 2 ? 60 : 0;
            int n = 1 + (int)r.below(12);
            for (int i = 0; i < n; i++) c.items.push_back({"sig", {(int64_t)r.below(100000), r.chance(75) ? (int64_t)r.below(1000) : -1, (int64_t)r.below(64)}});
            c.p["loop"] = r.chance(50);
            c.p["dense"] = r.chance(40) ? 1 + (int64_t)r.below(7) : 0;   // a signal every few instructions
        }
    } else if (prop == "C11") {
        c.p["g.units"] = 1 + (int64_t)r.below(4);
        c.p["g.funcs"] = 2 + (int64_t)r.below(6);
        c.p["g.globals"] = 1 + (int64_t)r.below(6);
        if (r.chance(60)) c.p["g.probe"] = 1;
        c.p["g.feat"] |= FT_NESTCALL;
        if (r.chance(70)) c.p["g.feat"] |= FT_STR | FT_STRUCT | FT_ARR | FT_PTR;
        c.p["peer"] = (int64_t)r.below(6);
        c.p["order"] = (int64_t)(r.next() >> 1);
        int n = (int)r.below(4);
        for (int i = 0; i < n; i++) c.items.push_back({"recompile", {(int64_t)r.below(8), (int64_t)r.below(3)}});
    }
    return c;
}
// ------------------------------------------------------------------ running
static bool make_prog(const Case& c, std::unique_ptr<Prog>& p, std::vector<History>& hs, Verdict& v) {
    GenCfg g = gen_cfg(c, "g.");
    p.reset(gen_prog((uint64_t)c.get("g.seed"), g, case_edits(c)));
    if (!p->ok) {
        ST->n["gen_rejected"]++;
        v.skip = true;
        return false;
    }
    p->peer = (int)c.get("peer");
    int nh = (int)c.get("hist", 1);
    for (int round = 0; round < 20; round++) {
        hs.clear();
        bool again = false;
        for (int i = 0; i < nh; i++) {
            History h;
            uint64_t es = hash2((uint64_t)c.get("env"), (uint64_t)i);
            if (!interp_run(*p, es, h, 60000)) {
                if (h.why != "repair" || !interp_repair(*p, es, h, 60000)) {
                    if (i > 0 && h.why != "repair") {   // this history does not exist for the program; keep the others
                        nh = i;
                        again = true;   // a repair may have changed the program before it failed
                        break;
                    }
                    ST->n["gen_invalid"]++;
                    ST->first["gen_invalid " + h.why] = std::to_string(c.seed);
                    v.skip = true;
                    return false;
                }
                again = true;
            }
            hs.push_back(std::move(h));
        }
        if (!again) return true;
    }
    v.skip = true;
    ST->n["gen_unrepairable"]++;
    return false;
}
static Verdict run_c10(const Case& c, Prog& p, Compiled& cu, Verdict v) {
    std::vector<int> pf;
    for (auto f : p.funcs)
        if (f->pure && f->body && f->scalar_params) pf.push_back(f->idx);
    TOpt o;
    o.env_seed = hash2((uint64_t)c.get("env"), 0);
    o.mach_seed = (uint64_t)c.get("mach");
    o.abi = false;
    if (c.get("mode") == 1) {
        // threads on their own stacks, switched at instruction boundaries
        int nt = (int)c.get("threads", 2);
        if (pf.empty()) {
            v.skip = true;
            return v;
        }
        struct Job {
            int fn = -1;
            std::vector<int64_t> a;
            int64_t want = 0, got = 0;
        };
        std::vector<std::vector<Job>> jobs((size_t)nt);
        Rng r((uint64_t)c.get("env"));
        TOut base;
        World w(p, o, base);
        if (!w.setup({cu.u.get()})) {
            v.skip = true;
            return v;
        }
        try {
            Cpu c0;
            int bad = 0;
            Job hotjob;
            w.m.watch = true;
            w.add_stack(c0, 20);
            for (int t = 0; t < nt; t++)
                for (int k = 0; k < 2; k++) {
                    Job j;
                    j.fn = k == 0 && t > 0 && bad < 5 && r.chance(c.get("loop") ? 80 : 50) ? jobs[0][0].fn : pf[r.below(pf.size())];
                    Func* f = p.funcs[(size_t)j.fn];
                    uint64_t as = r.next();
                    for (size_t i = 0; i < f->t->params.size(); i++)
                        j.a.push_back(i + 1 == f->t->params.size() && f->rec ? (int64_t)(as % 3) : env_value(as, 3, i, f->t->params[i]));
                    int64_t dummy;
                    if (!interp_pure(p, j.fn, j.a, dummy, 20000)) {
                        if (++bad > 40) {
                            v.skip = true;
                            return v;
                        }
                        k--;
                        continue;
                    }
                    Cpu kc = c0;
                    uint64_t s0 = w.m.steps, h0 = w.m.nhot;
                    j.want = w.result(f, w.m.call(kc, w.faddr[(size_t)j.fn], w.mkargs(f, j.a), r.next()));
                    if (w.m.steps - s0 > 200000) {
                        v.skip = true;
                        return v;
                    }
                    if (w.m.nhot != h0) hotjob = j;
                    jobs[(size_t)t].push_back(j);
                }
            if (hotjob.fn >= 0) ST->n["hidden_state_threads"]++;
            if (hotjob.fn >= 0) ST->first["hidden_state_threads"] = std::to_string(c.seed);
            if (hotjob.fn >= 0)   // hidden static state: everybody uses it, with other arguments
                for (int t = 0; t < nt; t++)
                    for (int tr = 0; tr < 6; tr++) {
                        Job j = hotjob;
                        Func* f = p.funcs[(size_t)j.fn];
                        uint64_t as = r.next();
                        for (size_t i = 0; i < f->t->params.size(); i++)
                            j.a[i] = i + 1 == f->t->params.size() && f->rec ? (int64_t)(as % 3) : env_value(as, 3, i, f->t->params[i]);
                        int64_t dummy;
                        if (!interp_pure(p, j.fn, j.a, dummy, 20000)) continue;
                        Cpu kc = c0;
                        uint64_t s0 = w.m.steps;
                        j.want = w.result(f, w.m.call(kc, w.faddr[(size_t)j.fn], w.mkargs(f, j.a), r.next()));
                        if (w.m.steps - s0 <= 200000) jobs[(size_t)t].push_back(j);
                    }
        } catch (EmuFault& f) {
            v.skip = true;   // wrong without any disturbance: decided by C08/C09
            ST->n["undisturbed_fault"]++;
            return v;
        }
        struct Th {
            Cpu c;
            std::vector<Shadow> sh;
            Emu::Pending pend;
            size_t job = 0;
            bool running = false, done = false;
        };
        std::vector<Th> th((size_t)nt);
        std::string sched;
        uint64_t switches = 0, inter = 0xcbf29ce484222325ull;
        try {
            for (int t = 0; t < nt; t++) w.add_stack(th[(size_t)t].c, t);
            auto slice = [&](int t, uint64_t n) {
                Th& T = th[(size_t)t];
                if (T.done) return;
                switches++;
                w.m.sh.swap(T.sh);
                uint64_t hot0 = w.m.nhot;
                for (uint64_t i = 0; i < n && !T.done && w.m.nhot == hot0; i++) {   // state outside the stack: let the others run
                    if (!T.running) {
                        Job& j = jobs[(size_t)t][T.job];
                        Func* f = p.funcs[(size_t)j.fn];
                        T.pend = w.m.begin_call(T.c, w.faddr[(size_t)j.fn], w.mkargs(f, j.a), w.q.next());
                        T.running = true;
                    }
                    if (!w.m.step(T.c)) {
                        Job& j = jobs[(size_t)t][T.job];
                        j.got = w.result(p.funcs[(size_t)j.fn], w.m.end_call(T.c, T.pend));
                        v.hu((uint64_t)j.got);
                        T.running = false;
                        if (++T.job == jobs[(size_t)t].size()) T.done = true;
                    }
                }
                uint64_t z[3] = {(uint64_t)t, (uint64_t)T.c.ip, T.job};
                fnv(inter, z, sizeof z);
                w.m.sh.swap(T.sh);
            };
            w.m.watch = true;
            bool more = true;
            for (int rep = 0; rep < (c.get("loop") ? 400 : 3) && more; rep++) {
                more = false;
                for (auto& it : c.items)
                    if (it.tag == "run" && it.v.size() == 2 && it.v[0] < nt) {
                        slice((int)it.v[0], (uint64_t)it.v[1]);
                        more = more || !th[(size_t)it.v[0]].done;
                    }
            }
            for (more = true; more;) {
                more = false;
                for (int t = 0; t < nt; t++)
                    if (!th[(size_t)t].done) {
                        slice(t, 1000000);
                        more = true;
                    }
            }
        } catch (EmuFault& f) {
            v.fail("interleaved execution fails", "a thread that runs correctly alone fails when interleaved: " + f.what);
        }
        ST->n["machine_steps"] += w.m.steps;
        ST->n["machine_runs"]++;
        ST->n["fault_preemption"] += switches;
        ST->states.insert(inter);
        if (!v.viol)
            for (int t = 0; t < nt; t++)
                for (auto& j : jobs[(size_t)t])
                    if (j.want != j.got) {
                        v.fail("interleaving changes a result", "thread " + std::to_string(t) + " running " + p.funcs[(size_t)j.fn]->name + " gets " + std::to_string(j.got) +
                                                                  " instead of " + std::to_string(j.want));
                        break;
                    }
        v.hu(w.m.steps);
        v.hu(inter);
        if (switches > (uint64_t)nt) ST->distinct.insert(hash2(inter, (uint64_t)c.get("g.seed")));
        return v;
    }
    TOut base;
    std::vector<uint64_t> hot;
    {
        World w(p, o, base);
        if (!w.setup({cu.u.get()})) {
            v.skip = true;
            return v;
        }
        w.m.watch = true;
        w.run();
        hot = w.m.hot;
    }
    if (!base.cls.empty()) {
        v.skip = true;
        ST->n["undisturbed_fault"]++;
        return v;
    }
    hash_out(v, base);
    for (auto& it : c.items) {
        if (it.tag != "sig" || it.v.size() < 3) continue;
        SigItem s;
        s.at = 1 + (uint64_t)it.v[0] % (base.steps + 1);
        s.fn = it.v[1] < 0 || pf.empty() ? -1 : pf[(size_t)it.v[1] % pf.size()];
        s.argseed = (uint64_t)it.v[2];
        o.sigs.push_back(s);
    }
    int dense = (int)c.get("dense");
    if (dense) {
        Rng r((uint64_t)c.get("env") ^ 0xd3);
        for (uint64_t at = 1 + r.below((uint64_t)dense); at < base.steps && o.sigs.size() < 3000; at += 1 + r.below((uint64_t)dense * 2)) {
            SigItem s;
            s.at = at;
            bool runs = c.get("loop") && !pf.empty() && o.sigs.size() < 500;
            s.fn = runs ? pf[at % pf.size()] : -1;
            s.argseed = runs ? at % 5 : 0;
            o.sigs.push_back(s);
        }
    }
    o.chase = !hot.empty() && !pf.empty();
    if (!hot.empty()) ST->n["hidden_state"]++;
    std::sort(o.sigs.begin(), o.sigs.end(), [](const SigItem& a, const SigItem& b) { return a.at < b.at; });
    o.reenter = (int)c.get("reenter");
    o.cap = base.steps * 3 + 8000000;
    TOut d;
    World w(p, o, d);
    if (!w.setup({cu.u.get()})) {
        v.skip = true;
        return v;
    }
    w.run();
    hash_out(v, d);
    ST->n["fault_signal"] += d.fired;
    ST->n["fault_reentry"] += d.reentered;
    ST->n["handler_steps"] += d.sigsteps;
    ST->states.insert(d.trace);
    if (d.fired + d.reentered > 0) ST->distinct.insert(hash2(d.trace, (uint64_t)c.get("g.seed")));
    if (!d.cls.empty()) v.fail("interrupted execution fails", "undisturbed the program runs to the end, interrupted it fails: " + d.what);
    else if (!d.disturb.empty())
        v.fail("handler or re-entered function gets a wrong result", d.disturb[0]);
    else {
        std::string s = diff_hist(p, base.ev, base.gl, d.ev, d.gl, "undisturbed:", "interrupted:");
        if (!s.empty()) v.fail("interruption changes the behaviour", s);
    }
    if (v.viol) v.trace += "undisturbed history:\n" + hist_text(p, base.ev) + "disturbed history:\n" + hist_text(p, d.ev);
    return v;
}
Verdict run_t(const Case& c) {
    Verdict v;
    std::unique_ptr<Prog> p;
    std::vector<History> hs;
    if (!make_prog(c, p, hs, v)) return v;
    uint64_t style = (uint64_t)c.get("g.style");
    int nu = (int)c.get("g.units", 1);
    const std::string& P = c.prop;
    HostCfg hc;
    hc.step_cap = 300000000;
    std::vector<Compiled> cs;
    std::string alltext;
    if (P == "C11" && nu > 1) {
        // separate compilation history in one directory: any order, some units compiled again (after another version)
        std::vector<int> order;
        for (int i = 0; i < nu; i++) order.push_back(i);
        Rng r((uint64_t)c.get("order"));
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
        Disk d;
        std::vector<std::string> txt;
        for (int i = 0; i < nu; i++) {
            txt.push_back(print_prog(*p, style, i));
            alltext += "/* unit " + std::to_string(i) + " */\n" + txt.back();
        }
        auto comp = [&](int u, const std::string& t, bool must) -> bool {
            std::string path = "u" + std::to_string(u) + ".c";
            d.put(path, t);
            ProcSpec ps;
            ps.argv = {path};
            ps.cfg = hc;
            ps.cfg.heap_seed = r.next();
            ProcResult pr = host_run1(d, ps);
            ST->n["host_steps"] += pr.steps;
            ST->n["compiles"]++;
            v.hu(pr.trace);
            return !must || (pr.end == E_EXIT && pr.code == 0);
        };
        bool ok = true;
        for (int u : order) ok = ok && comp(u, txt[(size_t)u], true);
        for (auto& it : c.items)
            if (it.tag == "recompile" && ok) {
                int u = (int)(it.v[0] % nu);
                if (it.v[1] == 1) comp(u, "int unfinished( {", false);   // a broken intermediate version
                if (it.v[1] == 2) comp(u, "int other" + std::to_string(u) + "(int a) { return a; }\n", false);
                ok = comp(u, txt[(size_t)u], true);
                ST->n["fault_recompile"]++;
            }
        if (!ok) {
            v.skip = true;
            ST->n["compile_rejected"]++;
            return v;
        }
        for (int i = 0; i < nu; i++) {
            Compiled cc;
            cc.s = d.get("u" + std::to_string(i) + ".s");
            v.hs(cc.s);
            cc.u.reset(new AsmUnit(parse_asm(cc.s)));
            if (!cc.u->err.empty() || !cc.u->unsup.empty()) {
                v.skip = true;
                ST->n["asm_rejected"]++;
                return v;
            }
            cs.push_back(std::move(cc));
        }
    } else {
        std::string src = print_prog(*p, style);
        alltext = src;
        cs.push_back(compile_src(src, v, hc));
        Compiled& cc = cs[0];
        if (!cc.ok) {
            ST->n["rejected: " + cc.cls]++;
            bool deep = false;   // more values live than the compiler promises registers for
            for (auto e : p->exprs) deep |= expr_need(e) > 6;
            if (deep && cc.cls == "valid program rejected") ST->n["deep_rejected"]++;
            if (P == "C09" && cc.cls != "unsupported" && !(deep && cc.cls == "valid program rejected")) {
                v.trace = "source:\n" + src + "\n";
                v.fail(cc.cls, cc.why);
            } else
                v.skip = true;
            return v;
        }
        if (P == "C09" && (c.seed & 31) == 7) {
            std::string msg;
            ST->n["as_cross_checks"]++;
            if (!as_accepts(cc.s, msg)) {
                v.trace = "source:\n" + src + "\nassembly:\n" + cc.s;
                v.fail("output is not valid assembly", "as: " + msg.substr(0, 300));
                return v;
            }
        }
    }
    v.trace = "source:\n" + alltext + "\n";
    std::vector<AsmUnit*> us;
    for (auto& x : cs) us.push_back(x.u.get());
    if (P == "C10") {
        if (g_verbose) v.trace += "assembly:\n" + cs[0].s + "\n";
        return run_c10(c, *p, cs[0], v);
    }
    for (size_t hi = 0; hi < hs.size() && !v.viol; hi++) {
        History& h = hs[hi];
        TOpt o;
        o.env_seed = hash2((uint64_t)c.get("env"), hi);
        o.mach_seed = hash2((uint64_t)c.get("mach"), hi);
        o.cap = h.steps * 200 + 200000;
        TOut t;
        {
            World w(*p, o, t);
            if (!w.setup(us)) {
                if (P == "C11" || P == "C09") v.fail("does not link", w.m.err);
                else v.skip = true;
                return v;
            }
            w.run();
        }
        hash_out(v, t);
        ST->states.insert(t.trace);
        ST->n["histories"]++;
        std::string df = t.cls.empty() ? diff_hist(*p, h.ev, h.globals, t.ev, t.gl, "C says:", "machine:") : "";
        if (t.ext + t.ev.size() > 1) ST->distinct.insert(hash2(t.trace, (uint64_t)c.get("g.seed")));
        if (P == "C09") {
            if (!t.cls.empty()) v.fail("compiled program fails", t.cls + ": " + t.what);
            else if (!df.empty()) v.fail("compiled program behaves differently", df);
        } else if (P == "C08") {
            TOut t2;
            TOpt o2 = o;
            o2.mach_seed = hash2((uint64_t)c.get("mach2"), hi);
            World w2(*p, o2, t2);
            w2.setup(us);
            w2.run();
            hash_out(v, t2);
            for (auto* q : {&t, &t2}) {
                if (q->cls == "abi") v.fail("breaks the calling convention", q->what);
                if (!q->abi.empty()) v.fail("breaks the calling convention", q->abi[0]);
            }
            if (!v.viol && t.cls != t2.cls) v.fail("depends on unspecified state", "with one machine state: " + (t.cls.empty() ? "fine" : t.what) + "; with another: " + (t2.cls.empty() ? "fine" : t2.what));
            if (!v.viol && t.cls.empty()) {
                std::string s = diff_hist(*p, t.ev, t.gl, t2.ev, t2.gl, "with one machine state:", "with another:");
                if (!s.empty()) v.fail("depends on unspecified state", s);
            }
            if (!v.viol && c.get("g.probe") && (!df.empty() || !t.cls.empty())) v.fail("arguments or results not in their places", df.empty() ? t.what : df);
            ST->n["fault_clobber"] += t.ext + t2.ext;
            ST->n["fault_entry_garbage"] += 2 * p->calls.size();
        } else if (P == "C11") {
            if (nu > 1) {
                // the same program as one unit
                Compiled one = compile_src(print_prog(*p, style), v, hc);
                if (one.ok) {
                    TOut t1;
                    World w1(*p, o, t1);
                    if (w1.setup({one.u.get()})) {
                        w1.run();
                        hash_out(v, t1);
                        if (t1.cls.empty() && !t.cls.empty()) v.fail("split program fails", t.what);
                        if (!v.viol && t1.cls.empty()) {
                            std::string s = diff_hist(*p, t1.ev, t1.gl, t.ev, t.gl, "one unit:", "split:");
                            if (!s.empty()) v.fail("split program behaves differently", s);
                        }
                    }
                }
            }
            if (!v.viol && c.get("g.probe") && (!df.empty() || !t.cls.empty())) v.fail("foreign code disagrees about data or calls", df.empty() ? t.what : df);
            ST->n["fault_foreign_access"] += (uint64_t)p->peer * (t.ext + 1);
            ST->n["units"] += (uint64_t)nu;
        }
        if (v.viol) v.trace += "expected history:\n" + hist_text(*p, h.ev) + "machine history:\n" + hist_text(*p, t.ev);
    }
    if (v.viol || g_verbose)
        for (auto& x : cs) v.trace += "assembly:\n" + x.s + "\n";
    return v;
}
