#pragma once
#include <cstdint>
#include <vector>
// One integer decides everything: every random choice of a run is drawn from an Rng derived from its case seed.
inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash2(uint64_t a, uint64_t b) { return mix64(a ^ mix64(b)); }
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    bool permille(int pm) { return (int)below(1000) < pm; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline void fnv(uint64_t& h, const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
}
