#pragma once
// Simulator H: the real compiler running as simulated processes on a simulated host.
#include <cstdint>
#include <cstdio>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "rng.h"

enum FaultKind {
    F_NONE = 0,
    F_OPEN_FAIL,    // a=nth open, b=errno
    F_READ_FAIL,    // a=nth read, b=errno
    F_READ_EOF,     // a=nth read returns 0 although data remains (file shrank / remote truncation) -- not used by oracles
    F_SEEK_FAIL,    // a=nth seek, b=errno
    F_WRITE_FAIL,   // a=nth write, b=errno (once)
    F_WRITE_SHORT,  // a=nth write transfers only part (legal), b=divisor
    F_DISK_FULL,    // a=bytes that still fit (persistent ENOSPC afterwards)
    F_CLOSE_FAIL,   // a=nth close of a written file, b=errno, c=1: unsynced data lost from offset
    F_ALLOC_NTH,    // a=nth allocation fails
    F_ALLOC_FROM,   // a=all allocations from nth on fail
    F_ALLOC_BIG,    // a=size limit, larger ones fail
    F_KILL_STEP,    // a=step
    F_KILL_SYS,     // a=nth syscall, b=0 before effect, 1 after effect
    F_EINTR_READ,   // a=nth read interrupted
    F_RENAME_FAIL,  // a=nth rename/remove/flush-type call
    F_NUM
};
extern const char* fault_name[F_NUM];
struct Fault {
    int kind = 0;
    int64_t a = 0, b = 0, c = 0;
};

struct Inode {
    std::string data;
    bool isdir = false, ro = false, unreadable = false, seekable = true;
    uint64_t writes = 0;   // number of modifications
    int64_t mtime = 0;     // in units of the simulated clock, which other machines and restores may set back
};
using InodeP = std::shared_ptr<Inode>;
struct Disk {
    std::map<std::string, InodeP> f;
    int64_t tick = 0;
    static std::string norm(const std::string& p) {   // ./x is x
        std::string r = p;
        while (r.size() > 2 && r[0] == '.' && r[1] == '/') {
            r.erase(0, 2);
            while (!r.empty() && r[0] == '/') r.erase(0, 1);
        }
        return r;
    }
    InodeP& at(const std::string& p) { return f[norm(p)]; }
    void put(const std::string& p, const std::string& d) {
        auto i = std::make_shared<Inode>();
        i->data = d;
        uint64_t h = d.size() * 0x9e3779b97f4a7c15ull ^ (d.empty() ? 0 : (uint64_t)(unsigned char)d[d.size() / 2] << 40);
        i->mtime = ++tick;   // a file put there by the user: usually new, sometimes restored with an old or with a skewed date
        if (h >> 61 == 1) i->mtime -= 5000;
        if (h >> 61 == 2) i->mtime += 5000;
        f[norm(p)] = i;
    }
    void mkdir(const std::string& p) {
        auto i = std::make_shared<Inode>();
        i->isdir = true;
        f[norm(p)] = i;
    }
    bool has(const std::string& p) const { return f.count(norm(p)) != 0; }
    const std::string& get(const std::string& p) const {
        static const std::string none;
        auto it = f.find(norm(p));
        return it == f.end() ? none : it->second->data;
    }
    Disk clone() const {
        Disk d;
        d.tick = tick;
        std::map<Inode*, InodeP> seen;
        for (auto& kv : f) {
            auto& n = seen[kv.second.get()];
            if (!n) n = std::make_shared<Inode>(*kv.second);
            d.f[kv.first] = n;
        }
        return d;
    }
};

struct HostCfg {          // the legal, non-faulty variability of one simulated process
    uint64_t heap_seed = 0;   // garbage, layout, reuse policy, ASLR; 0 = canonical
    int reuse = 0;            // 0 never reuse, 1 LIFO reuse, 2 random
    int fill = 0;             // 0 random, 1 0x00, 2 0xff, 3 0xbe, 4 small ints
    int realloc_mode = 0;     // 0 move, 1 in place when shrinking, 2 random
    int rbuf = 0, wbuf = 0;   // stdio buffer size; 0 default, -1 unbuffered
    int chunk = 0;            // max bytes one read transfers (0: all); seeded jitter
    uint64_t step_cap = 400000000;
    uint64_t mem_cap = 200u << 20;
    uint64_t preempt = 0;     // mean steps between preemptions (concurrent runs)
};

enum EndKind { E_RUNNING = 0, E_EXIT, E_SIGNAL, E_KILLED, E_HANG, E_MEMHOG };
struct MemErr {
    std::string what;
    uintptr_t pc = 0;
    long off = 0, size = 0, blk = 0;
};
struct ProcResult {
    EndKind end = E_RUNNING;
    int code = 0;
    std::string err, out;
    uint64_t steps = 0, syscalls = 0, allocs = 0, opens = 0, reads = 0, writes = 0, seeks = 0, closes = 0, peak = 0;
    uint64_t trace = 0;      // hash of the full event history (syscalls + step counts)
    uint64_t cov = 0;        // hash of the set of branch pairs reached
    std::vector<MemErr> mem;
    bool reached_emit = false;   // opened a file for writing
    int fired[F_NUM] = {0};
    std::string describe() const;
};
struct ProcSpec {
    std::vector<std::string> argv;   // without program name
    HostCfg cfg;
    std::vector<Fault> faults;
};
struct RunLog {
    std::vector<std::pair<int, uint64_t>> switches;   // (process, at step)
    uint64_t nswitch = 0;
};
// Runs the given processes concurrently on the disk; sched decides the interleaving.
using Sched = std::vector<std::pair<int, uint64_t>>;   // (process, basic blocks to run); rest runs in index order
std::vector<ProcResult> host_run(Disk& disk, const std::vector<ProcSpec>& specs, const Sched& sched = {},
                                 RunLog* log = nullptr);
ProcResult host_run1(Disk& disk, const ProcSpec& spec);
void host_init();
uint64_t host_edges_total();   // distinct edges seen so far in this worker
void host_symbolize_hint(std::string& out, uintptr_t pc);
