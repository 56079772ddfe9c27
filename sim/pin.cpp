// Runs one function of one literal source on the simulated machine: used to re-check the recorded known findings.
//   simx pin FILE.c FUNCTION [ARG...]   prints "exit=E result=R calls=name(arg),..."; external functions return their first argument.
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include "case.h"
#include "emu.h"

namespace {
struct PinEnv : EnvIf {
    std::string log;
    void ext_call(Emu& m, Cpu& c, int id) override {
        log += (log.empty() ? "" : ",") + m.exts[(size_t)id] + "(" + std::to_string((int32_t)c.r[RDI]) + ")";
        c.r[RAX] = c.r[RDI];
    }
};
}  // namespace
int do_pin(int argc, char** argv) {
    if (argc < 4) return 2;
    std::ifstream f(argv[2], std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    Disk d;
    d.put("p.c", ss.str());
    ProcSpec ps;
    ps.argv = {"p.c"};
    ProcResult r = host_run1(d, ps);
    if (r.end != E_EXIT || r.code) {
        printf("exit=%d %s\n", r.code, r.describe().c_str());
        return 0;
    }
    AsmUnit u = parse_asm(d.get("p.s"));
    if (!u.err.empty() || !u.unsup.empty()) {
        printf("asm %s%s\n", u.err.c_str(), u.unsup.c_str());
        return 0;
    }
    Emu m;
    PinEnv env;
    m.env = &env;
    if (!m.link({&u}, {"ext"}, 1) || !m.gsym.count(argv[3])) {
        printf("link %s\n", m.err.c_str());
        return 0;
    }
    Region st;
    st.base = 0x7ffe00000000ull;
    st.m.resize(1 << 20);
    st.name = "stack";
    Cpu c;
    c.r[RSP] = st.base + (1 << 20) - 8192;
    m.reg.push_back(std::move(st));
    std::vector<uint64_t> args;
    for (int i = 4; i < argc; i++) args.push_back((uint64_t)strtoll(argv[i], nullptr, 0));
    try {
        uint64_t v = m.call(c, m.gsym[argv[3]], args, 1);
        printf("exit=0 result=%d calls=%s\n", (int)(int32_t)v, env.log.c_str());
    } catch (EmuFault& e) {
        printf("fault %s %s\n", e.cls.c_str(), e.what.c_str());
    }
    return 0;
}
