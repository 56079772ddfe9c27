// Simulator H.  The compiler's objects are linked in with their libc references redirected to the sim_* functions
// below (objcopy --redefine-syms), so file system, stdio transport, heap, exit, clock and randomness are simulated.
#include "host.h"
#include <malloc.h>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_map>

const char* fault_name[F_NUM] = {"none",       "open_fail",  "read_fail",  "read_eof",   "seek_fail", "write_fail",
                                 "write_short", "disk_full",  "close_fail", "alloc_nth",  "alloc_from", "alloc_big",
                                 "kill_step",  "kill_sys",   "eintr_read", "rename_fail"};

extern "C" int umlcc_main(int, char**);
extern "C" {
extern char __start_umldata[] __attribute__((weak));
extern char __stop_umldata[] __attribute__((weak));
extern char __start_umlbss[] __attribute__((weak));
extern char __stop_umlbss[] __attribute__((weak));
FILE* sim_stderr;
FILE* sim_stdout;
FILE* sim_stdin;
}

static const uintptr_t SHADOW_OFF = 0x100000000000ull;
static const uintptr_t ARENA = 0x200000000000ull;
static const uintptr_t SLOT = 1ull << 30;
static const uintptr_t HEAPSZ = 512ull << 20;
static const uintptr_t STK_OFF = 768ull << 20;
static const uintptr_t STK_SZ = 64ull << 20;
static const int NSLOT = 8;
static const uint32_t COVN = 1 << 18;

static inline uint8_t* shadow(uintptr_t a) { return (uint8_t*)((a >> 3) + SHADOW_OFF); }

struct OFile;
struct Proc;
struct Slot {
    uintptr_t base = 0, brk = 0, start = 0;
    uint32_t* meta = nullptr;   // per 16 bytes: 0 none, (size<<2|1) live, (size<<2|2) freed
    std::unordered_map<size_t, std::vector<uintptr_t>> freel;
    uintptr_t minsp = 0;
};
static Slot slots[NSLOT];

struct OFile {
    Proc* p = nullptr;
    InodeP ino;
    std::string path;
    size_t pos = 0;
    bool rd = false, wr = false, app = false, open = true, err = false;
    FILE* fp = nullptr;
    char* buf = nullptr;
    int fd = -1;
    bool wrote = false;
    size_t synced = 0;
};
struct Proc {
    int id = 0;
    Slot* s = nullptr;
    const ProcSpec* spec = nullptr;
    ProcResult r;
    Disk* disk = nullptr;
    ucontext_t ctx;
    bool started = false, dead = false, ending = false;
    std::vector<OFile*> files;
    FILE *ferr = nullptr, *fout = nullptr, *fin = nullptr;
    std::string gdata, gbss;
    uint64_t next_event = 0, slice_end = ~0ull, kill_step = ~0ull;
    uint64_t used = 0;
    uint32_t prev = 0;
    int err_no = 0;
    Rng rng;
    int argc = 0;
    char** argv = nullptr;
    int64_t disk_left = -1;
    std::vector<void (*)(void)> atexit_fns;
    uint64_t clk = 0;
    std::vector<uint32_t> covhit;
};
static Proc* cur = nullptr;
static ucontext_t main_ctx;
static sigjmp_buf sched_jmp;
static std::string g_data0, g_bss0;
static std::vector<uint8_t> cov_global;
static std::vector<uint32_t> cov_run;
static uint32_t cov_runid = 0;
static uint64_t edges_total = 0;

static void yield_to_sched() {
    Proc* p = cur;
    p->err_no = errno;
    swapcontext(&p->ctx, &main_ctx);
    errno = p->err_no;
}
[[noreturn]] static void finish(EndKind e, int code) {
    Proc* p = cur;
    p->r.end = e;
    p->r.code = code;
    p->dead = true;
    setcontext(&main_ctx);
    __builtin_unreachable();
}
static void recompute(Proc* p) {
    p->next_event = std::min(std::min(p->slice_end, p->kill_step), p->spec->cfg.step_cap);
}
static void slow_step(Proc* p) {
    if (p->ending) {
        p->next_event = ~0ull;
        return;
    }
    if (p->r.steps >= p->kill_step) {
        p->r.fired[F_KILL_STEP]++;
        finish(E_KILLED, 9);
    }
    if (p->r.steps >= p->spec->cfg.step_cap) finish(E_HANG, 0);
    if (p->r.steps >= p->slice_end) {
        p->slice_end = ~0ull;
        yield_to_sched();
    }
    recompute(p);
}
extern "C" void __sanitizer_cov_trace_pc(void) {
    Proc* p = cur;
    if (!p) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    uint32_t h = (uint32_t)((pc * 0x9e3779b97f4a7c15ull) >> 32);
    uint32_t idx = (h ^ p->prev) & (COVN - 1);
    p->prev = h >> 1;
    if (cov_run[idx] != cov_runid) {
        cov_run[idx] = cov_runid;
        p->r.cov += mix64(idx);
        if (!cov_global[idx]) {
            cov_global[idx] = 1;
            edges_total++;
        }
    }
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    if (sp < p->s->minsp) p->s->minsp = sp;
    if (++p->r.steps >= p->next_event) slow_step(p);
}
uint64_t host_edges_total() { return edges_total; }

// ---------------------------------------------------------------- memory checking
static void memerr(const char* what, uintptr_t addr, size_t n, uintptr_t pc) {
    Proc* p = cur;
    if (!p || p->r.mem.size() >= 6) return;
    for (auto& m : p->r.mem)
        if (m.pc == pc) return;
    MemErr e;
    e.what = what;
    e.pc = pc;
    e.size = (long)n;
    Slot* s = p->s;
    if (addr >= s->base && addr < s->brk) {   // find the block the address belongs to or follows
        uintptr_t i = (addr - s->base) / 16;
        for (int k = 0; k < 4096; k++) {
            uint32_t m = s->meta[i];
            if (m) {
                e.off = (long)(addr - (s->base + i * 16));
                e.blk = (long)(m >> 2);
                if ((m & 3) == 2) e.what += " (freed block)";
                break;
            }
            if (i == 0) break;
            i--;
        }
    }
    p->r.mem.push_back(e);
}
static bool bad_access(uintptr_t a, size_t n) {
    Proc* p = cur;
    if (!p || n == 0) return false;
    Slot* s = p->s;
    if (a >= ARENA && a < ARENA + SLOT * NSLOT) {
        if (a >= s->base && a < s->base + HEAPSZ) {
            if (a + n > s->brk || a < s->start) return true;
        } else if (!(a >= s->base + STK_OFF && a < s->base + STK_OFF + STK_SZ))
            return true;
    } else if (a >= (1ull << 31))
        return false;
    // shadow check
    uintptr_t e = a + n - 1;
    if ((a >> 3) == (e >> 3)) {
        uint8_t v = *shadow(a);
        return v && (v >= 0x80 || (e & 7) >= v);
    }
    uint8_t v = *shadow(a);
    if (v && (v >= 0x80 || 7 >= v)) return true;
    for (uintptr_t g = (a >> 3) + 1; g < (e >> 3); g++)
        if (*(uint8_t*)(g + SHADOW_OFF)) return true;
    v = *shadow(e);
    return v && (v >= 0x80 || (e & 7) >= v);
}
static inline void chk(const void* a, size_t n, const char* what, uintptr_t pc) {
    if (bad_access((uintptr_t)a, n)) memerr(what, (uintptr_t)a, n, pc);
}
#define RA ((uintptr_t)__builtin_return_address(0))
extern "C" {
#define ASANFN(n)                                                                                          \
    void __asan_load##n##_noabort(uintptr_t a) { chk((void*)a, n, "read out of bounds or after free", RA); } \
    void __asan_store##n##_noabort(uintptr_t a) { chk((void*)a, n, "write out of bounds or after free", RA); }
ASANFN(1) ASANFN(2) ASANFN(4) ASANFN(8) ASANFN(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { chk((void*)a, n, "read out of bounds or after free", RA); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { chk((void*)a, n, "write out of bounds or after free", RA); }
void __asan_handle_no_return(void) {}
void __asan_before_dynamic_init(const void*) {}
void __asan_after_dynamic_init(void) {}
struct AsanGlobal {
    uintptr_t beg, size, size_rz, name, module, dyn, loc, odr;
};
static bool shadow_mapped = false;
static void map_shadow() {
    if (shadow_mapped) return;
    shadow_mapped = true;
    void* a = mmap((void*)SHADOW_OFF, 1ull << 28, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    void* b = mmap((void*)(SHADOW_OFF + (ARENA >> 3)), (SLOT * NSLOT) >> 3, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (a == MAP_FAILED || b == MAP_FAILED) {
        fprintf(stderr, "simx: cannot map shadow\n");
        _exit(3);
    }
}
void __asan_register_globals(AsanGlobal* g, size_t n) {
    map_shadow();
    for (size_t i = 0; i < n; i++) {
        if (g[i].beg >= (1ull << 31)) continue;
        uintptr_t e = g[i].beg + g[i].size;
        if (e & 7) *shadow(e) = e & 7;
        for (uintptr_t a = (e + 7) & ~7ull; a < g[i].beg + g[i].size_rz; a += 8) *shadow(a) = 0xf9;
    }
}
void __asan_unregister_globals(AsanGlobal*, size_t) {}
}

// ---------------------------------------------------------------- heap
static void set_shadow_block(uintptr_t a, size_t n) {
    memset(shadow(a), 0, n >> 3);
    if (n & 7) *shadow(a + n) = n & 7;
}
static void fill(Proc* p, void* q, size_t n) {
    switch (p->spec->cfg.fill) {
        case 1: memset(q, 0, n); return;
        case 2: memset(q, 0xff, n); return;
        case 3: memset(q, 0xbe, n); return;
        case 4: {
            uint32_t v = (uint32_t)p->rng.below(7);
            for (size_t i = 0; i < n; i++) ((char*)q)[i] = (i & 3) ? 0 : (char)v;
            return;
        }
        default: {
            uint64_t x = p->rng.next() | 0x0101010101010101ull;
            size_t i = 0;
            for (; i + 8 <= n; i += 8) {
                memcpy((char*)q + i, &x, 8);
                x = x * 6364136223846793005ull + 1442695040888963407ull;
            }
            for (; i < n; i++, x >>= 8) ((char*)q)[i] = (char)x;
        }
    }
}
static void* heap_alloc(Proc* p, size_t n) {
    Slot* s = p->s;
    if (n > HEAPSZ) return nullptr;
    size_t rn = (n + 15) & ~15ull;
    if (rn == 0) rn = 16;
    uintptr_t a = 0;
    const HostCfg& c = p->spec->cfg;
    if (c.reuse) {
        auto it = s->freel.find(rn);
        if (it != s->freel.end() && !it->second.empty() && (c.reuse == 1 || p->rng.chance(50))) {
            size_t k = c.reuse == 1 ? it->second.size() - 1 : p->rng.below(it->second.size());
            a = it->second[k];
            it->second[k] = it->second.back();
            it->second.pop_back();
        }
    }
    if (!a) {
        size_t gap = 32 + (c.heap_seed ? 16 * p->rng.below(6) : 0);
        a = s->brk + gap;
        if (a + rn + 64 > s->base + HEAPSZ) return nullptr;
        memset(shadow(s->brk), 0xfa, (a + rn + 32 - s->brk) >> 3);
        s->brk = a + rn + 32;
    }
    set_shadow_block(a, n);
    s->meta[(a - s->base) / 16] = (uint32_t)(n << 2 | 1);
    p->used += n;
    if (p->used > p->r.peak) p->r.peak = p->used;
    fill(p, (void*)a, n);
    if (s->brk - s->base > c.mem_cap) finish(E_MEMHOG, 0);
    return (void*)a;
}
static bool alloc_fault(Proc* p, size_t n) {
    uint64_t k = ++p->r.allocs;
    for (auto& f : p->spec->faults) {
        if ((f.kind == F_ALLOC_NTH && (uint64_t)f.a == k) || (f.kind == F_ALLOC_FROM && k >= (uint64_t)f.a) ||
            (f.kind == F_ALLOC_BIG && n > (size_t)f.a)) {
            p->r.fired[f.kind]++;
            return true;
        }
    }
    return false;
}
static uint32_t* find_meta(Proc* p, void* q) {
    uintptr_t a = (uintptr_t)q;
    if (a < p->s->base || a >= p->s->brk || (a & 15)) return nullptr;
    return &p->s->meta[(a - p->s->base) / 16];
}
static bool libc_block(void* q) {
    uintptr_t a = (uintptr_t)q;
    if (a >= ARENA && a < ARENA + SLOT * NSLOT) return false;
    static uintptr_t brk0 = ((uintptr_t)sbrk(0)) & ~0xffffffull;
    extern char end;
    if (a & 15) return false;
    if (a < (1ull << 31)) return a > (uintptr_t)&end && a < (uintptr_t)sbrk(0) && brk0;
    uintptr_t here = (uintptr_t)__builtin_frame_address(0);
    return !(a > here && a < here + (8u << 20));
}
static void heap_free(Proc* p, void* q, uintptr_t pc) {
    if (!q) return;
    uint32_t* m = find_meta(p, q);
    if (!m && libc_block(q)) {   // handed out by a libc function that allocates by itself
        free(q);
        return;
    }
    if (!m || (*m & 3) != 1) {
        memerr(m && (*m & 3) == 2 ? "double free" : "free of a pointer that was not allocated", (uintptr_t)q, 0, pc);
        return;
    }
    size_t n = *m >> 2, rn = (n + 15) & ~15ull;
    if (!rn) rn = 16;
    *m = (uint32_t)(n << 2 | 2);
    p->used -= n;
    memset(shadow((uintptr_t)q), 0xfd, rn >> 3);
    if (p->spec->cfg.fill == 1)
        memset(q, 0xdd, n);
    else
        fill(p, q, n);
    if (p->spec->cfg.reuse) p->s->freel[rn].push_back((uintptr_t)q);
}
extern "C" {
void* sim_malloc(size_t n) {
    if (alloc_fault(cur, n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* q = heap_alloc(cur, n);
    if (!q) errno = ENOMEM;
    return q;
}
void* sim_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || alloc_fault(cur, n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void* q = heap_alloc(cur, n);
    if (q)
        memset(q, 0, n);
    else
        errno = ENOMEM;
    return q;
}
void sim_free(void* q) { heap_free(cur, q, RA); }
void* sim_realloc(void* q, size_t n) {
    Proc* p = cur;
    if (!q) return sim_malloc(n);
    if (alloc_fault(p, n)) {
        errno = ENOMEM;
        return nullptr;
    }
    uint32_t* m = find_meta(p, q);
    if (!m && libc_block(q)) {
        void* r2 = heap_alloc(p, n);
        if (r2) memcpy(r2, q, std::min(n, malloc_usable_size(q))), free(q);
        return r2;
    }
    if (!m || (*m & 3) != 1) {
        memerr("realloc of a pointer that is not live", (uintptr_t)q, 0, RA);
        return heap_alloc(p, n);
    }
    size_t old = *m >> 2;
    int mode = p->spec->cfg.realloc_mode;
    bool inplace = n <= old && n > 0 && (mode == 1 || (mode == 2 && p->rng.chance(50)));
    if (inplace) {
        size_t orn = (old + 15) & ~15ull, rn = (n + 15) & ~15ull;
        if (orn == rn) {
            memset(shadow((uintptr_t)q), 0xfa, orn >> 3);
            set_shadow_block((uintptr_t)q, n);
            *m = (uint32_t)(n << 2 | 1);
            p->used -= old - n;
            return q;
        }
    }
    void* r = heap_alloc(p, n);
    if (!r) {
        errno = ENOMEM;
        return nullptr;
    }
    memcpy(r, q, std::min(n, old));
    heap_free(p, q, RA);
    return r;
}
void* sim_reallocarray(void* q, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return sim_realloc(q, n);
}
char* sim_strdup(const char* s) {
    size_t n = strlen(s) + 1;
    chk(s, n, "string read out of bounds", RA);
    char* q = (char*)sim_malloc(n);
    if (q) memcpy(q, s, n);
    return q;
}
char* sim_strndup(const char* s, size_t k) {
    size_t n = strnlen(s, k);
    char* q = (char*)sim_malloc(n + 1);
    if (q) {
        memcpy(q, s, n);
        q[n] = 0;
    }
    return q;
}
// ------------------------------------------------ checked string functions
#define RD "read out of bounds or after free"
#define WR "write out of bounds or after free"
void* sim_memcpy(void* d, const void* s, size_t n) {
    chk(s, n, RD, RA);
    chk(d, n, WR, RA);
    return memmove(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
    chk(s, n, RD, RA);
    chk(d, n, WR, RA);
    return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
    chk(d, n, WR, RA);
    return memset(d, c, n);
}
int sim_memcmp(const void* a, const void* b, size_t n) {
    chk(a, n, RD, RA);
    chk(b, n, RD, RA);
    int r = memcmp(a, b, n);
    return r;
}
size_t sim_strlen(const char* s) {
    size_t n = strlen(s);
    chk(s, n + 1, RD, RA);
    return n;
}
size_t sim_strnlen(const char* s, size_t k) {
    size_t n = strnlen(s, k);
    chk(s, n < k ? n + 1 : n, RD, RA);
    return n;
}
char* sim_strcpy(char* d, const char* s) {
    size_t n = strlen(s) + 1;
    chk(s, n, RD, RA);
    chk(d, n, WR, RA);
    memmove(d, s, n);
    return d;
}
char* sim_stpcpy(char* d, const char* s) {
    size_t n = strlen(s) + 1;
    chk(s, n, RD, RA);
    chk(d, n, WR, RA);
    memmove(d, s, n);
    return d + n - 1;
}
char* sim_strncpy(char* d, const char* s, size_t k) {
    chk(s, strnlen(s, k), RD, RA);
    chk(d, k, WR, RA);
    return strncpy(d, s, k);
}
char* sim_strcat(char* d, const char* s) {
    size_t n = strlen(s) + 1, m = strlen(d);
    chk(s, n, RD, RA);
    chk(d, m + n, WR, RA);
    memmove(d + m, s, n);
    return d;
}
char* sim_strncat(char* d, const char* s, size_t k) {
    size_t n = strnlen(s, k), m = strlen(d);
    chk(s, n, RD, RA);
    chk(d, m + n + 1, WR, RA);
    memmove(d + m, s, n);
    d[m + n] = 0;
    return d;
}
int sim_strcmp(const char* a, const char* b) {
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    chk(a, i + 1, RD, RA);
    chk(b, i + 1, RD, RA);
    return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int sim_strncmp(const char* a, const char* b, size_t n) {
    size_t i = 0;
    while (i < n && a[i] && a[i] == b[i]) i++;
    if (i == n) {
        chk(a, n, RD, RA);
        chk(b, n, RD, RA);
        return 0;
    }
    chk(a, i + 1, RD, RA);
    chk(b, i + 1, RD, RA);
    return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
char* sim_strchr(const char* s, int c) {
    char* r = (char*)strchr(s, c);
    chk(s, r ? (size_t)(r - s) + 1 : strlen(s) + 1, RD, RA);
    return r;
}
char* sim_strrchr(const char* s, int c) {
    chk(s, strlen(s) + 1, RD, RA);
    return (char*)strrchr(s, c);
}
char* sim_strstr(const char* s, const char* t) {
    chk(s, strlen(s) + 1, RD, RA);
    chk(t, strlen(t) + 1, RD, RA);
    return (char*)strstr(s, t);
}
// the strings a format reads must be memory the compiler owns
static void fmt_chk(const char* f, va_list ap0, uintptr_t ra) {
    va_list ap;
    va_copy(ap, ap0);
    chk(f, strlen(f) + 1, RD, ra);
    for (; *f; f++) {
        if (*f != '%') continue;
        f++;
        long prec = -1;
        int lng = 0;
        while (*f && strchr("-+ #0'", *f)) f++;
        if (*f == '*') (void)va_arg(ap, int), f++;
        while (*f >= '0' && *f <= '9') f++;
        if (*f == '.') {
            f++;
            prec = 0;
            if (*f == '*') prec = va_arg(ap, int), f++;
            while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
        }
        for (; *f && strchr("hljztqL", *f); f++) lng += *f == 'l' || *f == 'j' || *f == 'z' || *f == 't' || *f == 'q' ? 1 : *f == 'L' ? 100 : 0;
        if (!*f) break;
        if (strchr("diouxXc", *f)) {
            if (lng) (void)va_arg(ap, long);
            else (void)va_arg(ap, int);
        } else if (strchr("eEfFgGaA", *f)) {
            if (lng >= 100) (void)va_arg(ap, long double);
            else (void)va_arg(ap, double);
        } else if (*f == 's') {
            const char* q = va_arg(ap, const char*);
            if (q) chk(q, prec >= 0 ? std::max<size_t>(1, strnlen(q, (size_t)prec)) : strlen(q) + 1, RD, ra);
        } else if (*f == 'p' || *f == 'n')
            (void)va_arg(ap, void*);
        else if (*f != '%')
            break;
    }
    va_end(ap);
}
int sim_vsprintf(char* d, const char* f, va_list ap) {
    char* t = nullptr;
    fmt_chk(f, ap, RA);
    int n = vasprintf(&t, f, ap);
    if (n < 0) return n;
    chk(d, (size_t)n + 1, WR, RA);
    memmove(d, t, (size_t)n + 1);
    free(t);
    return n;
}
int sim_sprintf(char* d, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    char* t = nullptr;
    fmt_chk(f, ap, RA);
    int n = vasprintf(&t, f, ap);
    va_end(ap);
    if (n < 0) return n;
    chk(d, (size_t)n + 1, WR, RA);
    memmove(d, t, (size_t)n + 1);
    free(t);
    return n;
}
int sim_vsnprintf(char* d, size_t k, const char* f, va_list ap) {
    char* t = nullptr;
    fmt_chk(f, ap, RA);
    int n = vasprintf(&t, f, ap);
    if (n < 0) return n;
    if (k) {
        size_t m = std::min((size_t)n, k - 1);
        chk(d, m + 1, WR, RA);
        memmove(d, t, m);
        d[m] = 0;
    }
    free(t);
    return n;
}
int sim_snprintf(char* d, size_t k, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = sim_vsnprintf(d, k, f, ap);
    va_end(ap);
    return n;
}
}

// ---------------------------------------------------------------- file system
static void ev(Proc* p, const char* k, uint64_t a, uint64_t b, uint64_t c) {
    uint64_t v[4] = {p->r.steps, a, b, c};
    fnv(p->r.trace, k, strlen(k));
    fnv(p->r.trace, v, sizeof v);
}
static void sys_enter(Proc* p) {
    if (p->ending) return;
    p->r.syscalls++;
    for (auto& f : p->spec->faults)
        if (f.kind == F_KILL_SYS && f.b == 0 && (uint64_t)f.a == p->r.syscalls) {
            p->r.fired[F_KILL_SYS]++;
            finish(E_KILLED, 9);
        }
}
static void sys_leave(Proc* p) {
    if (p->ending) return;
    for (auto& f : p->spec->faults)
        if (f.kind == F_KILL_SYS && f.b == 1 && (uint64_t)f.a == p->r.syscalls) {
            p->r.fired[F_KILL_SYS]++;
            finish(E_KILLED, 9);
        }
}
static const Fault* hit(Proc* p, int kind, uint64_t n) {
    for (auto& f : p->spec->faults)
        if (f.kind == kind && (uint64_t)f.a == n) {
            p->r.fired[kind]++;
            return &f;
        }
    return nullptr;
}
static std::string dirname_of(const std::string& p) {
    size_t k = p.rfind('/');
    return k == std::string::npos ? "" : p.substr(0, k);
}
static std::string norm(const std::string& p) { return Disk::norm(p); }
// returns 0 or errno
static int fs_open(Proc* p, const std::string& path0, bool rd, bool wr, bool creat, bool trunc, bool excl, InodeP& out) {
    sys_enter(p);
    uint64_t n = ++p->r.opens;
    std::string path = norm(path0);
    if (wr) p->r.reached_emit = true;
    if (auto f = hit(p, F_OPEN_FAIL, n)) {
        ev(p, "open!", n, (uint64_t)f->b, 0);
        sys_leave(p);
        return (int)f->b;
    }
    int e = 0;
    auto it = p->disk->f.find(path);
    std::string dir = dirname_of(path);
    if (!dir.empty() && (!p->disk->has(dir) || !p->disk->f[dir]->isdir))
        e = p->disk->has(dir) ? ENOTDIR : ENOENT;
    else if (path.empty())
        e = ENOENT;
    else if (it == p->disk->f.end()) {
        if (!creat)
            e = ENOENT;
        else {
            auto d = p->disk->f.find(dir.empty() ? "." : dir);
            if (d != p->disk->f.end() && d->second->ro)
                e = EACCES;
            else {
                out = std::make_shared<Inode>();
                out->mtime = ++p->disk->tick;
                p->disk->f[path] = out;
            }
        }
    } else {
        out = it->second;
        if (excl && creat)
            e = EEXIST;
        else if (out->isdir && wr)
            e = EISDIR;
        else if (wr && out->ro)
            e = EACCES;
        else if (rd && out->unreadable)
            e = EACCES;
        else if (trunc && wr) {
            if (!out->data.empty()) out->writes++;
            out->mtime = ++p->disk->tick;
            out->data.clear();
        }
    }
    ev(p, "open", n, (uint64_t)e, wr);
    fnv(p->r.trace, path.data(), path.size());
    sys_leave(p);
    return e;
}
static ssize_t fs_read(OFile* o, char* buf, size_t n) {
    Proc* p = o->p;
    if (p->dead) return 0;
    sys_enter(p);
    uint64_t k = ++p->r.reads;
    ssize_t r = 0;
    if (auto f = hit(p, F_READ_FAIL, k)) {
        errno = (int)f->b;
        r = -1;
    } else if (hit(p, F_EINTR_READ, k)) {
        errno = EINTR;
        r = -1;
    } else if (!o->rd) {
        errno = EBADF;
        r = -1;
    } else if (o->ino->isdir) {
        errno = EISDIR;
        r = -1;
    } else if (o->pos < o->ino->data.size()) {
        size_t m = std::min(n, o->ino->data.size() - o->pos);
        int ch = p->spec->cfg.chunk;
        if (ch > 0) m = std::min(m, (size_t)1 + (size_t)p->rng.below((uint64_t)ch));
        memcpy(buf, o->ino->data.data() + o->pos, m);
        o->pos += m;
        r = (ssize_t)m;
    }
    ev(p, "read", k, (uint64_t)r, 0);
    int e = errno;
    sys_leave(p);
    errno = e;
    return r;
}
static ssize_t fs_write(OFile* o, const char* buf, size_t n) {
    Proc* p = o->p;
    if (p->dead) return (ssize_t)n;
    sys_enter(p);
    uint64_t k = ++p->r.writes;
    ssize_t r = (ssize_t)n;
    if (!o->wr) {
        errno = EBADF;
        r = -1;
    } else if (auto f = hit(p, F_WRITE_FAIL, k)) {
        errno = (int)f->b;
        r = -1;
    } else {
        size_t m = n;
        if (n > 1)
            if (auto f2 = hit(p, F_WRITE_SHORT, k)) m = std::max<size_t>(1, n / (size_t)std::max<int64_t>(2, f2->b));
        if (p->disk_left >= 0 && (int64_t)m > p->disk_left) {
            m = (size_t)p->disk_left;
            p->r.fired[F_DISK_FULL]++;
            if (m == 0) {
                errno = ENOSPC;
                r = -1;
            }
        }
        if (r >= 0) {
            if (p->disk_left >= 0) p->disk_left -= (int64_t)m;
            if (o->app) o->pos = o->ino->data.size();
            if (o->pos > o->ino->data.size()) o->ino->data.resize(o->pos, '\0');
            o->ino->data.replace(o->pos, std::min(m, o->ino->data.size() - o->pos), buf, m);
            o->pos += m;
            o->ino->writes++;
            o->ino->mtime = ++p->disk->tick;
            o->wrote = true;
            r = (ssize_t)m;
        }
    }
    ev(p, "write", k, (uint64_t)r, o->pos);
    if (r > 0) fnv(p->r.trace, buf, (size_t)r);
    int e = errno;
    sys_leave(p);
    errno = e;
    return r;
}
static int fs_seek(OFile* o, int64_t* off, int whence) {
    Proc* p = o->p;
    if (p->dead) return 0;
    sys_enter(p);
    uint64_t k = ++p->r.seeks;
    int rc = 0;
    if (auto f = hit(p, F_SEEK_FAIL, k)) {
        errno = (int)f->b;
        rc = -1;
    } else if (!o->ino->seekable) {
        errno = ESPIPE;
        rc = -1;
    } else {
        int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)o->pos : (int64_t)o->ino->data.size();
        if (o->ino->isdir && whence == SEEK_END) base = INT64_MAX;   // what ext4 answers for directories
        int64_t t = base + *off;
        if (t < 0) {
            errno = EINVAL;
            rc = -1;
        } else {
            o->pos = (size_t)t;
            *off = t;
        }
    }
    ev(p, "seek", k, (uint64_t)whence, (uint64_t)o->pos);
    int e = errno;
    sys_leave(p);
    errno = e;
    return rc;
}
static int fs_close(OFile* o) {
    Proc* p = o->p;
    o->open = false;
    if (p->dead) return 0;
    sys_enter(p);
    int rc = 0;
    if (o->wr) {
        uint64_t k = ++p->r.closes;
        if (auto f = hit(p, F_CLOSE_FAIL, k)) {
            if (f->c && o->ino->data.size() > 0) {   // delayed allocation / NFS: accepted data is lost
                o->ino->data.resize(o->ino->data.size() * (size_t)(f->c % 100) / 100);
                o->ino->writes++;
            }
            errno = (int)f->b;
            rc = -1;
        }
    }
    ev(p, "close", p->r.closes, (uint64_t)rc, 0);
    int e = errno;
    sys_leave(p);
    errno = e;
    return rc;
}
extern "C" {
static ssize_t ck_read(void* c, char* b, size_t n) { return fs_read((OFile*)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
    // like the C library's own file streams: continue after a short write, stop at an error
    size_t done = 0;
    while (done < n) {
        ssize_t r = fs_write((OFile*)c, b + done, n - done);
        if (r <= 0) break;
        done += (size_t)r;
    }
    return (ssize_t)done;
}
static int ck_seek(void* c, off64_t* o, int w) {
    int64_t v = *o;
    int r = fs_seek((OFile*)c, &v, w);
    *o = v;
    return r;
}
static int ck_close(void* c) { return fs_close((OFile*)c); }
}
static FILE* mkfile(Proc* p, InodeP ino, const std::string& path, const char* mode, bool rd, bool wr, bool app) {
    OFile* o = new OFile;
    o->p = p;
    o->ino = ino;
    o->path = path;
    o->rd = rd;
    o->wr = wr;
    o->app = app;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    o->fp = fopencookie(o, mode, io);
    __fsetlocking(o->fp, FSETLOCKING_BYCALLER);
    int bs = wr ? p->spec->cfg.wbuf : p->spec->cfg.rbuf;
    if (bs < 0)
        setvbuf(o->fp, nullptr, _IONBF, 0);
    else {
        if (bs == 0) bs = 4096;
        o->buf = (char*)malloc((size_t)bs);
        setvbuf(o->fp, o->buf, _IOFBF, (size_t)bs);
    }
    o->fd = 3 + (int)p->files.size();
    p->files.push_back(o);
    return o->fp;
}
static OFile* of(Proc* p, FILE* fp) {
    for (auto o : p->files)
        if (o->fp == fp) return o;
    return nullptr;
}
static OFile* offd(Proc* p, int fd) {
    for (auto o : p->files)
        if (o->fd == fd && o->open) return o;
    return nullptr;
}
static ssize_t cap_write(void* c, const char* b, size_t n) {
    std::string* s = (std::string*)c;
    if (s->size() < 65536) s->append(b, n);
    return (ssize_t)n;
}
extern "C" {
FILE* sim_fopen(const char* path, const char* mode) {
    Proc* p = cur;
    chk(path, strlen(path) + 1, RD, RA);
    bool plus = strchr(mode, '+') != nullptr;
    bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
    InodeP ino;
    int e = fs_open(p, path, rd, wr, mode[0] != 'r', mode[0] == 'w', strchr(mode, 'x') != nullptr, ino);
    if (e) {
        errno = e;
        return nullptr;
    }
    return mkfile(p, ino, path, mode, rd, wr, mode[0] == 'a');
}
int sim_fclose(FILE* fp) {
    Proc* p = cur;
    if (fp == p->ferr || fp == p->fout || fp == p->fin) return fflush(fp);
    if (!fp) {
        *(volatile int*)fp = 0;   // same crash as the real library
        return EOF;
    }
    OFile* o = of(p, fp);
    if (!o || !o->open) {
        memerr("fclose of a stream that is not open", (uintptr_t)fp, 0, RA);
        return EOF;
    }
    int r = fclose(fp);
    o->fp = nullptr;
    o->open = false;
    return r;
}
FILE* sim_freopen(const char* path, const char* mode, FILE* fp) {
    if (fp) sim_fclose(fp);
    return sim_fopen(path, mode);
}
size_t sim_fread(void* b, size_t s, size_t n, FILE* fp) {
    if (n && s && s * n <= HEAPSZ) chk(b, s * n, WR, RA);
    return fread(b, s, n, fp);
}
size_t sim_fwrite(const void* b, size_t s, size_t n, FILE* fp) {
    if (n && s) chk(b, s * n, RD, RA);
    return fwrite(b, s, n, fp);
}
int sim_fputs(const char* b, FILE* fp) {
    chk(b, strlen(b) + 1, RD, RA);
    return fputs(b, fp);
}
int sim_vasprintf(char** d, const char* f, va_list ap) {
    char* t = nullptr;
    fmt_chk(f, ap, RA);
    int n = vasprintf(&t, f, ap);
    if (n < 0) return n;
    *d = (char*)sim_malloc((size_t)n + 1);
    if (*d) memcpy(*d, t, (size_t)n + 1);
    free(t);
    return *d ? n : -1;
}
int sim_asprintf(char** d, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = sim_vasprintf(d, f, ap);
    va_end(ap);
    return n;
}
ssize_t sim_getdelim(char** b, size_t* k, int c, FILE* fp) {
    size_t n = 0;
    int ch;
    if (!*b) *k = 0;
    while ((ch = fgetc(fp)) != EOF) {
        if (n + 2 > *k) {
            char* q = (char*)sim_realloc(*b, *k ? *k * 2 : 120);
            if (!q) return -1;
            *b = q;
            *k = *k ? *k * 2 : 120;
        }
        (*b)[n++] = (char)ch;
        if (ch == c) break;
    }
    if (!n) return -1;
    (*b)[n] = 0;
    return (ssize_t)n;
}
ssize_t sim_getline(char** b, size_t* k, FILE* fp) { return sim_getdelim(b, k, '\n', fp); }
int sim_vfprintf(FILE* fp, const char* f, va_list ap) {
    fmt_chk(f, ap, RA);
    return vfprintf(fp, f, ap);
}
int sim_fprintf(FILE* fp, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    fmt_chk(f, ap, RA);
    int r = vfprintf(fp, f, ap);
    va_end(ap);
    return r;
}
int sim_printf(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    fmt_chk(f, ap, RA);
    int r = vfprintf(cur->fout, f, ap);
    va_end(ap);
    return r;
}
int sim_vprintf(const char* f, va_list ap) { return vfprintf(cur->fout, f, ap); }
int sim_puts(const char* s) {
    fputs(s, cur->fout);
    return fputc('\n', cur->fout);
}
int sim_putchar(int c) { return fputc(c, cur->fout); }
void sim_perror(const char* s) {
    int e = errno;
    fprintf(cur->ferr, "%s%s%s\n", s && *s ? s : "", s && *s ? ": " : "", strerror(e));
}
static int sys_misc(Proc* p) {
    sys_enter(p);
    static thread_local int dummy;
    (void)dummy;
    return 0;
}
int sim_rename(const char* a, const char* b) {
    Proc* p = cur;
    sys_misc(p);
    int rc = 0;
    if (auto f = hit(p, F_RENAME_FAIL, 1)) {
        errno = f->b ? (int)f->b : EIO;
        rc = -1;
    } else {
        auto it = p->disk->f.find(norm(a));
        if (it == p->disk->f.end()) {
            errno = ENOENT;
            rc = -1;
        } else {
            InodeP i = it->second;
            auto t = p->disk->f.find(norm(b));
            if (t != p->disk->f.end() && t->second->isdir) {
                errno = EISDIR;
                rc = -1;
            } else {
                p->disk->f.erase(it);
                p->disk->f[norm(b)] = i;
                p->r.reached_emit = true;
            }
        }
    }
    ev(p, "rename", (uint64_t)rc, 0, 0);
    sys_leave(p);
    return rc;
}
int sim_unlink(const char* a) {
    Proc* p = cur;
    sys_misc(p);
    int rc = 0;
    auto it = p->disk->f.find(norm(a));
    if (it == p->disk->f.end()) {
        errno = ENOENT;
        rc = -1;
    } else if (it->second->isdir) {
        errno = EISDIR;
        rc = -1;
    } else
        p->disk->f.erase(it);
    ev(p, "unlink", (uint64_t)rc, 0, 0);
    sys_leave(p);
    return rc;
}
int sim_remove(const char* a) { return sim_unlink(a); }
int sim_access(const char* a, int m) {
    Proc* p = cur;
    sys_misc(p);
    auto it = p->disk->f.find(norm(a));
    int rc = 0;
    if (it == p->disk->f.end()) {
        errno = ENOENT;
        rc = -1;
    } else if (((m & 2) && it->second->ro) || ((m & 4) && it->second->unreadable)) {
        errno = EACCES;
        rc = -1;
    }
    sys_leave(p);
    return rc;
}
int sim_stat(const char* a, struct stat* st) {
    Proc* p = cur;
    sys_misc(p);
    auto it = p->disk->f.find(norm(a));
    if (it == p->disk->f.end()) {
        errno = ENOENT;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_mode = it->second->isdir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = (off_t)it->second->data.size();
    st->st_nlink = 1;
    st->st_mtim.tv_sec = 1700000000 + it->second->mtime;
    st->st_ctim = st->st_atim = st->st_mtim;
    st->st_ino = 100 + (ino_t)(std::hash<std::string>()(norm(a)) % 1000000);
    return 0;
}
int sim_fstat(int fd, struct stat* st) {
    Proc* p = cur;
    sys_misc(p);
    OFile* o = offd(p, fd);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_mode = o->ino->isdir ? (S_IFDIR | 0755) : o->ino->seekable ? (S_IFREG | 0644) : (S_IFIFO | 0644);
    st->st_size = (off_t)o->ino->data.size();
    st->st_mtim.tv_sec = 1700000000 + o->ino->mtime;
    st->st_ctim = st->st_atim = st->st_mtim;
    st->st_nlink = 1;
    return 0;
}
int sim_open(const char* a, int fl, ...) {
    Proc* p = cur;
    InodeP ino;
    int acc = fl & O_ACCMODE;
    int e = fs_open(p, a, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_EXCL, ino);
    if (e) {
        errno = e;
        return -1;
    }
    OFile* o = new OFile;
    o->p = p;
    o->ino = ino;
    o->path = a;
    o->rd = acc != O_WRONLY;
    o->wr = acc != O_RDONLY;
    o->app = fl & O_APPEND;
    o->fd = 3 + (int)p->files.size();
    p->files.push_back(o);
    return o->fd;
}
int sim_creat(const char* a, int) { return sim_open(a, O_CREAT | O_WRONLY | O_TRUNC); }
ssize_t sim_read(int fd, void* b, size_t n) {
    OFile* o = offd(cur, fd);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    chk(b, n, WR, RA);
    return fs_read(o, (char*)b, n);
}
ssize_t sim_write(int fd, const void* b, size_t n) {
    if (fd == 1 || fd == 2) {
        fwrite(b, 1, n, fd == 1 ? cur->fout : cur->ferr);
        return (ssize_t)n;
    }
    OFile* o = offd(cur, fd);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    return fs_write(o, (const char*)b, n);
}
off_t sim_lseek(int fd, off_t off, int w) {
    OFile* o = offd(cur, fd);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    int64_t v = off;
    return fs_seek(o, &v, w) ? -1 : (off_t)v;
}
int sim_close(int fd) {
    OFile* o = offd(cur, fd);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    return fs_close(o);
}
FILE* sim_fdopen(int fd, const char* mode) {
    OFile* o = offd(cur, fd);
    if (!o || o->fp) {
        errno = EBADF;
        return nullptr;
    }
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    o->fp = fopencookie(o, mode, io);
    __fsetlocking(o->fp, FSETLOCKING_BYCALLER);
    return o->fp;
}
int sim_fileno(FILE* fp) {
    Proc* p = cur;
    if (fp == p->fin) return 0;
    if (fp == p->fout) return 1;
    if (fp == p->ferr) return 2;
    OFile* o = of(p, fp);
    return o ? o->fd : -1;
}
int sim_fsync(int fd) {
    Proc* p = cur;
    sys_misc(p);
    if (auto f = hit(p, F_RENAME_FAIL, 2)) {
        errno = f->b ? (int)f->b : EIO;
        return -1;
    }
    return offd(p, fd) ? 0 : -1;
}
int sim_ftruncate(int fd, off_t n) {
    OFile* o = offd(cur, fd);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    sys_misc(cur);
    o->ino->data.resize((size_t)n);
    o->ino->writes++;
    o->ino->mtime = ++o->p->disk->tick;
    return 0;
}
int sim_mkstemp(char* t) {
    Proc* p = cur;
    size_t n = strlen(t);
    for (int k = 0; k < 100; k++) {
        for (int i = 0; i < 6; i++) t[n - 6 + (size_t)i] = "abcdefghijklmnopqrstuvwxyz0123456789"[p->rng.below(36)];
        int fd = sim_open(t, O_CREAT | O_EXCL | O_RDWR);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
}
FILE* sim_tmpfile(void) {
    Proc* p = cur;
    return mkfile(p, std::make_shared<Inode>(), "(tmpfile)", "w+", true, true, false);
}
char* sim_tmpnam(char* b) {
    static char s[64];
    if (!b) b = s;
    sprintf(b, "tmp%llx", (unsigned long long)cur->rng.next());
    return b;
}
// ------------------------------------------------ process, time, randomness
[[noreturn]] static void do_exit(int code) {
    Proc* p = cur;
    while (!p->atexit_fns.empty()) {
        auto f = p->atexit_fns.back();
        p->atexit_fns.pop_back();
        f();
    }
    for (size_t i = 0; i < p->files.size(); i++) {
        OFile* o = p->files[i];
        if (o->fp && o->open) {
            fclose(o->fp);
            o->fp = nullptr;
            o->open = false;
        }
    }
    fflush(p->fout);
    ev(p, "exit", (uint64_t)code, 0, 0);
    finish(E_EXIT, code & 255);
}
void sim_exit(int c) { do_exit(c); }
void sim__exit(int c) { finish(E_EXIT, c & 255); }
void sim_abort(void) { finish(E_SIGNAL, 6); }
int sim_raise(int s) { finish(E_SIGNAL, s); }
int sim_atexit(void (*f)(void)) {
    cur->atexit_fns.push_back(f);
    return 0;
}
void sim___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
    fprintf(cur->ferr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e);
    finish(E_SIGNAL, 6);
}
time_t sim_time(time_t* t) {
    time_t v = (time_t)(1600000000 + cur->rng.below(400000000));
    if (t) *t = v;
    return v;
}
clock_t sim_clock(void) { return (clock_t)(cur->clk += cur->rng.below(100000)); }
int sim_gettimeofday(void* tv, void*) {
    long* l = (long*)tv;
    l[0] = (long)sim_time(nullptr);
    l[1] = (long)cur->rng.below(1000000);
    return 0;
}
int sim_clock_gettime(int, void* tv) {
    long* l = (long*)tv;
    l[0] = (long)sim_time(nullptr);
    l[1] = (long)cur->rng.below(1000000000);
    return 0;
}
int sim_rand(void) { return (int)(cur->rng.next() & 0x7fffffff); }
long sim_random(void) { return (long)(cur->rng.next() & 0x7fffffff); }
void sim_srand(unsigned) {}
int sim_getpid(void) { return 2 + (int)cur->rng.below(30000); }
int sim_getppid(void) { return 1; }
char* sim_getenv(const char*) { return nullptr; }
int sim_system(const char*) { return -1; }
FILE* sim_popen(const char*, const char*) { return nullptr; }
int sim_fork(void) {
    errno = EAGAIN;
    return -1;
}
unsigned sim_sleep(unsigned) { return 0; }
int sim_usleep(unsigned) { return 0; }
}

// ---------------------------------------------------------------- processes
static void trampoline() {
    int rc = umlcc_main(cur->argc, cur->argv);
    do_exit(rc);
}
static void on_signal(int sig) {
    if (!cur) {
        signal(sig, SIG_DFL);
        raise(sig);
        return;
    }
    cur->r.end = E_SIGNAL;
    cur->r.code = sig;
    cur->dead = true;
    siglongjmp(sched_jmp, 1);
}
void host_init() {
    map_shadow();
    if (__start_umldata) g_data0.assign(__start_umldata, (size_t)(__stop_umldata - __start_umldata));
    if (__start_umlbss) g_bss0.assign(__start_umlbss, (size_t)(__stop_umlbss - __start_umlbss));
    cov_global.assign(COVN, 0);
    cov_run.assign(COVN, 0);
    for (int i = 0; i < NSLOT; i++) {
        uintptr_t b = ARENA + (uintptr_t)i * SLOT;
        void* h = mmap((void*)b, HEAPSZ, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        void* s = mmap((void*)(b + STK_OFF), STK_SZ, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        void* m = mmap(nullptr, HEAPSZ / 16 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (h == MAP_FAILED || s == MAP_FAILED || m == MAP_FAILED) {
            fprintf(stderr, "simx: cannot map arena\n");
            _exit(3);
        }
        slots[i].base = b;
        slots[i].start = slots[i].brk = b;
        slots[i].meta = (uint32_t*)m;
        slots[i].minsp = b + STK_OFF + STK_SZ;
    }
    static char alt[65536];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
}
static void slot_reset(Slot* s) {
    if (s->brk > s->base) {
        memset(shadow(s->base), 0, (s->brk - s->base + 4096) >> 3);
        memset(s->meta, 0, (s->brk - s->base) / 16 * 4 + 64);
        if (s->brk - s->base > (64u << 20)) {
            madvise((void*)(s->base + (64u << 20)), HEAPSZ - (64u << 20), MADV_DONTNEED);
        }
    }
    uintptr_t top = s->base + STK_OFF + STK_SZ;
    uintptr_t lo = s->minsp > s->base + STK_OFF + 65536 ? s->minsp - 65536 : s->base + STK_OFF;
    memset(shadow(lo & ~7ull), 0, (top - (lo & ~7ull)) >> 3);
    s->minsp = top;
    s->brk = s->start = s->base;
    s->freel.clear();
}
static void swap_in(Proc* p) {
    if (!p->gdata.empty()) memcpy(__start_umldata, p->gdata.data(), p->gdata.size());
    if (!p->gbss.empty()) memcpy(__start_umlbss, p->gbss.data(), p->gbss.size());
}
static void swap_out(Proc* p) {
    if (!p->gdata.empty()) memcpy(&p->gdata[0], __start_umldata, p->gdata.size());
    if (!p->gbss.empty()) memcpy(&p->gbss[0], __start_umlbss, p->gbss.size());
}
static void resume(Proc* p, uint64_t steps, bool multi) {
    p->slice_end = steps == ~0ull ? ~0ull : p->r.steps + steps;
    recompute(p);
    if (multi || !p->started) swap_in(p);
    p->started = true;
    cur = p;
    sim_stderr = p->ferr;
    sim_stdout = p->fout;
    sim_stdin = p->fin;
    if (sigsetjmp(sched_jmp, 0) == 0) swapcontext(&main_ctx, &p->ctx);
    cur = nullptr;
    if (multi) swap_out(p);
}
std::vector<ProcResult> host_run(Disk& disk, const std::vector<ProcSpec>& specs, const Sched& sched, RunLog* log) {
    int n = (int)specs.size();
    std::vector<Proc*> ps;
    cov_runid++;
    for (int i = 0; i < n; i++) {
        Proc* p = new Proc;
        ps.push_back(p);
        p->id = i;
        p->s = &slots[i];
        p->spec = &specs[i];
        p->disk = &disk;
        p->rng = Rng(hash2(specs[i].cfg.heap_seed, 77 + (uint64_t)i));
        p->r.trace = 0xcbf29ce484222325ull;
        p->gdata = g_data0;
        p->gbss = g_bss0;
        slot_reset(p->s);
        if (specs[i].cfg.heap_seed) {   // ASLR
            p->s->brk = p->s->start = p->s->base + 16 * p->rng.below(4096);
        }
        for (auto& f : specs[i].faults) {
            if (f.kind == F_KILL_STEP) p->kill_step = std::min(p->kill_step, (uint64_t)std::max<int64_t>(1, f.a));
            if (f.kind == F_DISK_FULL) p->disk_left = f.a;
        }
        cookie_io_functions_t io = {nullptr, cap_write, nullptr, nullptr};
        p->ferr = fopencookie(&p->r.err, "w", io);
        setvbuf(p->ferr, nullptr, _IONBF, 0);
        __fsetlocking(p->ferr, FSETLOCKING_BYCALLER);
        p->fout = fopencookie(&p->r.out, "w", io);
        __fsetlocking(p->fout, FSETLOCKING_BYCALLER);
        cookie_io_functions_t io2 = {nullptr, nullptr, nullptr, nullptr};
        p->fin = fopencookie(nullptr, "r", io2);
        // stack with garbage
        uintptr_t sb = p->s->base + STK_OFF;
        fill(p, (void*)(sb + STK_SZ - (128 << 10)), 128 << 10);
        // argv in simulated memory
        cur = p;
        std::vector<std::string> av = {"umlcc"};
        for (auto& a : specs[i].argv) av.push_back(a);
        p->argc = (int)av.size();
        p->argv = (char**)heap_alloc(p, sizeof(char*) * (av.size() + 1));
        for (size_t k = 0; k < av.size(); k++) {
            p->argv[k] = (char*)heap_alloc(p, av[k].size() + 1);
            memcpy(p->argv[k], av[k].c_str(), av[k].size() + 1);
        }
        p->argv[av.size()] = nullptr;
        cur = nullptr;
        getcontext(&p->ctx);
        p->ctx.uc_stack.ss_sp = (void*)sb;
        p->ctx.uc_stack.ss_size = STK_SZ - 4096 - (specs[i].cfg.heap_seed ? 16 * p->rng.below(512) : 0);
        p->ctx.uc_link = &main_ctx;
        makecontext(&p->ctx, (void (*)())trampoline, 0);
    }
    bool multi = n > 1;
    for (auto& s : sched) {
        int k = s.first;
        if (k < 0 || k >= n || ps[k]->dead || !multi) continue;
        resume(ps[k], std::max<uint64_t>(1, s.second), multi);
        if (log) {
            log->switches.push_back({k, ps[k]->r.steps});
            log->nswitch++;
        }
    }
    for (int k = 0; k < n; k++)
        while (!ps[k]->dead) resume(ps[k], ~0ull, multi);
    std::vector<ProcResult> out;
    for (auto p : ps) {
        bool sig = p->r.end == E_SIGNAL && p->r.code != 6;
        cur = nullptr;
        for (auto o : p->files) {
            if (o->fp && !sig) fclose(o->fp);   // p->dead: nothing reaches the disk any more
            if (!sig) {
                free(o->buf);
                delete o;
            }
        }
        if (!sig) {
            fclose(p->ferr);
            fclose(p->fout);
            fclose(p->fin);
        }
        uint64_t v[4] = {(uint64_t)p->r.end, (uint64_t)p->r.code, p->r.steps, p->r.allocs};
        fnv(p->r.trace, v, sizeof v);
        fnv(p->r.trace, p->r.err.data(), p->r.err.size());
        out.push_back(p->r);
        if (!sig) delete p;
    }
    return out;
}
ProcResult host_run1(Disk& disk, const ProcSpec& spec) { return host_run(disk, {spec})[0]; }

std::string ProcResult::describe() const {
    char b[200];
    switch (end) {
        case E_EXIT: snprintf(b, sizeof b, "exit status %d", code); break;
        case E_SIGNAL: snprintf(b, sizeof b, "died from signal %d", code); break;
        case E_KILLED: snprintf(b, sizeof b, "killed"); break;
        case E_HANG: snprintf(b, sizeof b, "did not end within %llu basic blocks", (unsigned long long)steps); break;
        case E_MEMHOG: snprintf(b, sizeof b, "memory grew without bound"); break;
        default: snprintf(b, sizeof b, "?");
    }
    return b;
}

// names the place in the code under test; only used in reports of violations
void host_symbolize_hint(std::string& out, uintptr_t pc) {
    static std::map<uintptr_t, std::string> cache;
    auto it = cache.find(pc);
    if (it == cache.end()) {
        char cmd[128];
        std::string r;
        snprintf(cmd, sizeof cmd, "addr2line -f -s -e /proc/%d/exe 0x%lx 2>/dev/null", (int)getpid(), (unsigned long)pc);
        if (FILE* p = popen(cmd, "r")) {
            char buf[256];
            while (fgets(buf, sizeof buf, p)) {
                buf[strcspn(buf, "\n")] = 0;
                if (!r.empty()) r += " ";
                r += buf;
            }
            pclose(p);
        }
        it = cache.emplace(pc, r).first;
    }
    out += it->second;
}
