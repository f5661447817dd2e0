// Balanced sequences of billions of parentheses, described by their runs.
#pragma once
#include "runpos.hpp"
#include "succinct/bp_vector.hpp"
namespace vf {
struct Runs : RunPos {
    std::vector<long> k, E;
    Runs() { E.push_back(0); }
    long h() const { return E.back(); }
    void add(long kind, uint64_t l) {
        if (kind == -1 && l > (uint64_t)h()) l = (uint64_t)h();
        while (l) {
            uint64_t t = std::min<uint64_t>(l, MAXRUN);
            k.push_back(kind); put_len(t);
            E.push_back(E.back() + kind * (long)t);
            l -= t;
        }
    }
    void up(uint64_t l) { add(1, l); }
    void down(uint64_t l) { add(-1, l); }
    void pairs_to(uint64_t pos) { if (pos > n()) add(0, (pos - n()) / 2 * 2); }
    // a stretch of short runs, never below the given excess
    void jag(int runs, long floor, unsigned size) {
        for (int i = 0; i < runs; ++i) {
            uint64_t l = 1 + rng.below(rng.chance(1, 8) ? 40 * size : rng.chance(1, 3) ? 3 : size);
            int w = (int)rng.below(5);
            if (w < 2) up(l);
            else if (w < 4) { long room = h() - floor; if (room > 0) down(std::min<uint64_t>(l, (uint64_t)room)); else up(l); }
            else add(0, 2 * l);
        }
    }
    void close() { down((uint64_t)h()); }
    void build(succinct::bit_vector_builder& bb) const {
        bb.reserve(n());
        for (size_t s = 0; s < k.size(); ++s) {
            uint64_t w = k[s] == 1 ? ~0ULL : k[s] == -1 ? 0 : 0x5555555555555555ULL, l = (uint64_t)len[s];
            for (; l >= 64; l -= 64) bb.append_bits(w, 64);
            if (l) bb.append_bits(w & ((1ULL << l) - 1), l);
        }
    }
    bool opens(uint64_t p) const { std::vector<long> w = where(p); long kk = k[size_t(w[0] - 1)]; return kk == 1 || (kk == 0 && w[1] % 2 == 0); }
    long exc(uint64_t p) const { std::vector<long> w = where(p); size_t s = size_t(w[0] - 1); return s == k.size() ? 0 : k[s] ? E[s] + k[s] * w[1] : E[s] + w[1] % 2; }
    void head(Ev& e) const { e.vec("k", k).vec("len", len).vec("E", E).Ls("st", st); }
};
static const int RUN_SHAPES = 3;
inline const char* runs_name(int s) { static const char* n[] = {"huge-wide", "huge-deep", "huge-half"}; return n[s]; }
inline Runs runs_make(int shape) {
    Runs r;
    const uint64_t P31 = 1ULL << 31, P32 = 1ULL << 32;
    if (shape == 1) { // as deep as the structure allows, a little under 2^32 parentheses
        r.up(1); r.jag(60, 1, 60);
        r.up(P31 - 70000 - (uint64_t)r.h());
        r.jag(200, (long)P31 - 70000 - 3000, 200);
        r.down((uint64_t)r.h() - 5000); r.jag(100, 1, 90);
        r.close();
        return r;
    }
    uint64_t end = shape == 0 ? P32 + (1ULL << 20) + 78 : P31 + (1ULL << 30) + 12345678;
    std::vector<uint64_t> at;
    at.push_back(5000); at.push_back(P31 - 4000); at.push_back(P31 + 9000);
    if (shape == 0) { at.push_back(P32 - 6000); at.push_back(P32 + 20000); }
    for (int i = 0; i < 6; ++i) at.push_back(rng.below(end - 400000000ULL));
    std::sort(at.begin(), at.end());
    r.up(1);
    // most of it lies higher than what is left of the length in 32 bits
    uint64_t lift = shape == 0 ? (3ULL << 20) : 50;
    for (size_t i = 0; i < at.size(); ++i) {
        r.pairs_to(at[i]);
        if (i == 1) r.up(lift);
        if (i >= 4 && rng.chance(1, 2)) { uint64_t d = rng.below(100000); if ((uint64_t)r.h() > d + lift / 2) r.down(d); else r.up(d); }
        r.jag(70, (long)(i < 2 ? 1 : lift / 2), 150);
        if (rng.chance(1, 2)) { r.up(1); r.pairs_to(r.n() + 64 * rng.below(40) + rng.below(64)); }
    }
    r.pairs_to(end - (uint64_t)r.h());
    r.close();
    return r;
}
}
