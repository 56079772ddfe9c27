// Command line of the simulator.
//   simx search PROP SEED0 STRIDE SECONDS MAXCASES OUT.json   seeded search; stops at the first violation
//   simx replay FILE                                           runs the case in FILE twice; exit 1 + hash if it violates
//   simx shrink FILE OUT SECONDS                               minimises the case in FILE
//   simx show PROP SEED                                        prints the planned case (and its trace)
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <algorithm>
#include <functional>
#include <memory>
#include <sstream>
#include "case.h"

static std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static void spit(const std::string& p, const std::string& d) {
    std::ofstream f(p, std::ios::binary);
    f << d;
}
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static bool is_t(const std::string& p) { return p == "C08" || p == "C09" || p == "C10" || p == "C11"; }
Case plan_case(const std::string& prop, uint64_t seed) { return is_t(prop) ? plan_t(prop, seed) : plan_h(prop, seed); }
Verdict run_case(const Case& c) { return is_t(c.prop) ? run_t(c) : run_h(c); }

static std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += (char)c;
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += (char)c;
    }
    return o + "\"";
}
static int do_search(int argc, char** argv) {
    if (argc < 8) return 2;
    std::string prop = argv[2];
    uint64_t s0 = strtoull(argv[3], nullptr, 0), stride = strtoull(argv[4], nullptr, 0);
    double secs = atof(argv[5]);
    uint64_t maxc = strtoull(argv[6], nullptr, 0);
    std::string out = argv[7];
    bool all = getenv("SIM_ALL") != nullptr;
    double t0 = now();
    uint64_t n = 0, skips = 0, viols = 0, rechecks = 0;
    std::string viol = "null";
    uint64_t acc = 0xcbf29ce484222325ull;
    std::map<std::string, int> classes;
    FILE* cur = fopen((out + ".cur").c_str(), "w");
    for (uint64_t seed = s0; n < maxc && now() - t0 < secs; seed += stride) {
        if (cur) {   // lets the driver know which case was running should this process be ended
            rewind(cur);
            fprintf(cur, "%020llu\n", (unsigned long long)seed);
            fflush(cur);
        }
        Case c = plan_case(prop, seed);
        Verdict v = run_case(c);
        n++;
        if (v.skip) skips++;
        fnv(acc, &v.hash, 8);
        if ((n % 64) == 5) {   // determinism self-test: same case again, same history
            Stats* keep = ST;
            Stats tmp;
            ST = &tmp;
            Verdict w = run_case(c);
            ST = keep;
            rechecks++;
            if (w.hash != v.hash || w.cls != v.cls) {
                fprintf(stderr, "NONDETERMINISM %s seed %llu\n", prop.c_str(), (unsigned long long)seed);
                return 3;
            }
        }
        if (v.viol) {
            viols++;
            if (all) {
                if (classes[v.cls]++ < (getenv("SIM_ALL") && atoi(getenv("SIM_ALL")) ? atoi(getenv("SIM_ALL")) : 3))
                    printf("%s seed %llu: %s: %s\n", prop.c_str(), (unsigned long long)seed, v.cls.c_str(), v.detail.c_str());
                continue;
            }
            spit(out + ".case", c.serialise());
            viol = "{\"seed\":" + std::to_string(seed) + ",\"cls\":" + jesc(v.cls) + ",\"detail\":" + jesc(v.detail) + "}";
            break;
        }
        if (ST->samples.size() < 3 && !v.skip && n > 3) {
            std::string s = c.serialise();
            if (s.size() < 3000) ST->samples.push_back(s);
        }
    }
    for (auto& kv : classes) printf("%6d  %s\n", kv.second, kv.first.c_str());
    char b[400];
    snprintf(b, sizeof b, "{\"cases\":%llu,\"skips\":%llu,\"viols\":%llu,\"rechecks\":%llu,\"wall\":%.3f,\"acc\":\"%llx\",\"edges\":%llu,", (unsigned long long)n,
             (unsigned long long)skips, (unsigned long long)viols, (unsigned long long)rechecks, now() - t0, (unsigned long long)acc, (unsigned long long)host_edges_total());
    spit(out, std::string(b) + "\"viol\":" + viol + ",\"stats\":" + ST->json() + "}\n");
    return 0;
}
static std::string body_of(const std::string& f) {
    std::string s = slurp(f);
    size_t i = s.find("simcase 1\n");
    return i == std::string::npos ? s : s.substr(i);
}
static int do_replay(int argc, char** argv) {
    if (argc < 3) return 2;
    Case c;
    if (!Case::parse(body_of(argv[2]), c)) {
        fprintf(stderr, "bad case file\n");
        return 2;
    }
    Verdict a = run_case(c), b = run_case(c);
    if (a.hash != b.hash || a.cls != b.cls) {
        printf("NONDETERMINISTIC\n");
        return 3;
    }
    printf("hash %016llx\n", (unsigned long long)a.hash);
    if (a.viol) {
        printf("class %s\ndetail %s\n", a.cls.c_str(), a.detail.c_str());
        if (argc > 3) printf("%s\n", a.trace.c_str());
        return 1;
    }
    printf(a.skip ? "skipped\n" : "holds\n");
    if (argc > 3) printf("%s\n", a.trace.c_str());
    return 0;
}
static int do_shrink(int argc, char** argv) {
    if (argc < 5) return 2;
    Case c;
    if (!Case::parse(body_of(argv[2]), c)) return 2;
    double end = now() + atof(argv[4]);
    Verdict v = run_case(c);
    if (!v.viol) {
        fprintf(stderr, "case does not violate\n");
        return 3;
    }
    std::string cls = v.cls;
    uint64_t tries = 0;
    auto bad = [&](const Case& d) {
        tries++;
        Verdict w = run_case(d);
        return w.viol && w.cls == cls;
    };
    // 1. the schedule / fault items
    auto shrink_items = [&](const char* skip_tag) {
        for (size_t k = c.items.size(); k >= 1 && now() < end; k /= 2)
            for (size_t i = 0; i < c.items.size() && now() < end;) {
                Case d = c;
                size_t e = std::min(d.items.size(), i + k);
                bool has = false;
                for (size_t j = i; j < e; j++) has |= d.items[j].tag == skip_tag;
                if (has) {
                    i += k;
                    continue;
                }
                d.items.erase(d.items.begin() + (long)i, d.items.begin() + (long)e);
                if (bad(d)) c = d;
                else i += k;
            }
    };
    shrink_items("edit");
    for (size_t i = 0; i < c.items.size() && now() < end; i++)
        for (size_t j = 0; j < c.items[i].v.size(); j++)
            for (int64_t t : {(int64_t)0, (int64_t)1, c.items[i].v[j] / 2}) {
                if (t >= c.items[i].v[j] || c.items[i].tag == "edit") continue;
                Case d = c;
                d.items[i].v[j] = t;
                if (bad(d)) c = d;
            }
    // 2. simplify parameters
    for (auto& kv : std::map<std::string, int64_t>(c.p)) {
        if (now() > end || kv.second == 0) continue;
        if (kv.first.compare(0, 2, "z.") == 0 || kv.first == "hist" || kv.first == "peer" || kv.first == "dense" || kv.first == "reenter" || kv.first == "g.style") {
            Case d = c;
            d.p[kv.first] = kv.first == "hist" ? 1 : 0;
            if (d.p[kv.first] != kv.second && bad(d)) c = d;
        }
    }
    // 3. the program: statement deletion, expression simplification
    if (is_t(c.prop)) {
        for (int round = 0; round < 3 && now() < end; round++) {
            size_t before = c.items.size();
            std::unique_ptr<Prog> p(gen_prog((uint64_t)c.get("g.seed"), gen_cfg(c, "g."), case_edits(c)));
            size_t nc = p->calls.size(), ns = p->stmts.size(), ne = p->exprs.size();
            p.reset();
            auto tryedit = [&](int kind, size_t id) {
                Case d = c;
                d.items.push_back({"edit", {kind, (int64_t)id}});
                if (bad(d)) {
                    c = d;
                    return true;
                }
                return false;
            };
            for (size_t i = 0; i < nc && now() < end; i++) tryedit(2, i);
            for (size_t i = 0; i < ns && now() < end; i++)
                if (!tryedit(0, i)) tryedit(6, i);
            for (size_t i = 0; i < ne && now() < end; i++)
                if (!tryedit(1, i) && !tryedit(4, i)) tryedit(5, i);
            if (c.items.size() == before) break;
        }
        shrink_items("none");
    } else {
        // make the sources literal, then delete lines and tokens
        for (auto& kv : std::map<std::string, int64_t>(c.p)) {
            if (kv.first.size() < 5 || kv.first.substr(kv.first.size() - 4) != "kind" || kv.first[0] != 's') continue;
            std::string x = kv.first.substr(0, kv.first.size() - 4);
            if (c.text.count(x + "text")) continue;
            Case d = c;
            d.text[x + "text"] = make_source(c, x);
            if (bad(d)) c = d;
        }
        for (auto& kv : std::map<std::string, std::string>(c.text)) {
            for (int pass = 0; pass < 3 && now() < end; pass++) {
                std::string cur = c.text[kv.first];
                std::vector<std::string> parts;
                std::string w;
                for (char ch : cur) {
                    if (pass == 0) {
                        w += ch;
                        if (ch == '\n') parts.push_back(w), w.clear();
                    } else if (pass == 1) {
                        bool id = isalnum((unsigned char)ch) || ch == '_';
                        bool pid = !w.empty() && (isalnum((unsigned char)w.back()) || w.back() == '_');
                        if (!w.empty() && !(id && pid)) parts.push_back(w), w.clear();
                        w += ch;
                    } else
                        parts.push_back(std::string(1, ch));
                }
                if (!w.empty()) parts.push_back(w);
                if (pass == 2 && parts.size() > 400) continue;
                for (size_t k = std::max<size_t>(1, parts.size() / 2); k >= 1 && now() < end; k /= 2)
                    for (size_t i = 0; i < parts.size() && now() < end;) {
                        std::vector<std::string> q = parts;
                        q.erase(q.begin() + (long)i, q.begin() + (long)std::min(q.size(), i + k));
                        std::string t;
                        for (auto& s : q) t += s;
                        Case d = c;
                        d.text[kv.first] = t;
                        if (bad(d)) c = d, parts = q;
                        else i += k;
                    }
            }
        }
        shrink_items("none");
    }
    Verdict f = run_case(c);
    std::ostringstream o;
    o << "# " << c.prop << ": " << f.cls << "\n# " << f.detail << "\n# hash " << std::hex << f.hash << std::dec << "  (minimised in " << tries << " runs)\n";
    o << "# replay: simx replay THIS-FILE\n";
    o << c.serialise();
    std::string tr = f.trace;
    o << "trace of the execution:\n" << tr << "\n";
    spit(argv[3], o.str());
    printf("class %s\ndetail %s\nhash %016llx\ntries %llu\n", f.cls.c_str(), f.detail.c_str(), (unsigned long long)f.hash, (unsigned long long)tries);
    return f.viol ? 1 : 3;
}
int do_pin(int argc, char** argv);
int main(int argc, char** argv) {
    host_init();
    g_use_gcc = getenv("SIM_GCC") != nullptr;
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    if (cmd == "search") return do_search(argc, argv);
    if (cmd == "replay") return do_replay(argc, argv);
    if (cmd == "shrink") return do_shrink(argc, argv);
    if (cmd == "show" && argc > 3) {
        g_verbose = true;
        Case c = plan_case(argv[2], strtoull(argv[3], nullptr, 0));
        Verdict v = run_case(c);
        printf("%s\n%s %s: %s\n%s\n", c.serialise().c_str(), v.viol ? "VIOL" : v.skip ? "skip" : "ok", v.cls.c_str(), v.detail.c_str(), v.trace.c_str());
        return 0;
    }
    if (cmd == "pin") return do_pin(argc, argv);
    if (cmd == "source" && argc > 3) {
        std::string x = damaged(plan_case(argv[2], strtoull(argv[3], nullptr, 0)));
        fwrite(x.data(), 1, x.size(), stdout);
        return 0;
    }
    if (cmd == "case" && argc > 3) {
        fputs(plan_case(argv[2], strtoull(argv[3], nullptr, 0)).serialise().c_str(), stdout);
        return 0;
    }
    return 2;
}
