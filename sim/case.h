#pragma once
// A case is the complete, explicit description of one simulated execution: parameters, fault/schedule items and (after
// minimisation) literal source texts.  run_case() is a pure function of the case and of the code under test.
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "host.h"
#include "prog.h"

struct Item {
    std::string tag;
    std::vector<int64_t> v;
};
struct Case {
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, int64_t> p;
    std::map<std::string, std::string> text;
    std::vector<Item> items;
    int64_t get(const std::string& k, int64_t d = 0) const {
        auto it = p.find(k);
        return it == p.end() ? d : it->second;
    }
    std::string serialise() const;
    static bool parse(const std::string& s, Case& c);
};
struct Stats {
    std::map<std::string, uint64_t> n;
    std::set<uint64_t> distinct;      // distinct non-trivial cases by the property's rule
    std::set<uint64_t> states;        // distinct states / interleavings by the stated measure
    std::vector<std::string> samples;
    std::map<std::string, std::string> first;   // first example per interesting key
    std::string json() const;
};
struct Verdict {
    bool viol = false, skip = false;
    std::string cls, detail, trace;
    uint64_t hash = 0xcbf29ce484222325ull;
    void h(const void* d, size_t n) { fnv(hash, d, n); }
    void hs(const std::string& s) { fnv(hash, s.data(), s.size()); }
    void hu(uint64_t u) { fnv(hash, &u, 8); }
    void fail(const std::string& c, const std::string& d) {
        if (!viol) viol = true, cls = c, detail = d;
    }
};
extern Stats* ST;
extern bool g_use_gcc;      // development only: validate generator, model and machine against gcc
extern bool g_verbose;

Case plan_case(const std::string& prop, uint64_t seed);
Verdict run_case(const Case& c);

// host side
Case plan_h(const std::string& prop, uint64_t seed);
Verdict run_h(const Case& c);
std::string make_source(const Case& c, const std::string& pfx);
std::string damaged(const Case& c);   // the source of a C06/C07 case after its storage faults
void plan_source(Case& c, Rng& r, const std::string& pfx, int kind);
// machine side
Case plan_t(const std::string& prop, uint64_t seed);
Verdict run_t(const Case& c);
void plan_gen(Case& c, Rng& r, const std::string& pfx, int size);
GenCfg gen_cfg(const Case& c, const std::string& pfx);
std::vector<Edit> case_edits(const Case& c);
int expr_need(const Expr* e);
std::string hexs(const std::string& s, size_t max = 400);
