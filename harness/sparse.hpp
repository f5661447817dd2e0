// Bit vectors of billions of bits, given by the positions of their rare bit value.
#pragma once
#include "vf.hpp"
#include "succinct/bit_vector.hpp"
namespace vf {
struct Sparse {
    uint64_t n; int v; std::vector<uint64_t> p;
    long before(uint64_t q) const { return std::lower_bound(p.begin(), p.end(), q) - p.begin(); }
    bool rare(uint64_t q) const { return std::binary_search(p.begin(), p.end(), q); }
    uint64_t rares_from(uint64_t q) const { return p.size() - (size_t)before(q); }
    uint64_t count_from(uint64_t q, int x) const { uint64_t r = rares_from(q); return x == v ? r : n - q - r; }
    bool any_upto(uint64_t q, int x) const { uint64_t r = (uint64_t)before(q) + rare(q); return x == v ? r > 0 : q + 1 > r; }
    // the k-th position at or after q that holds x (to keep calls inside their preconditions; the spec judges)
    uint64_t kth(uint64_t q, uint64_t k, int x) const {
        size_t w = (size_t)before(q);
        if (x == v) return p[w + k];
        uint64_t c = q + k;
        for (size_t i = w; i < p.size() && p[i] <= c; ++i) ++c;
        return c;
    }
    static Sparse make(int v, int clusters) {
        Sparse s; s.v = v; s.n = (1ULL << 32) + (1ULL << 20) + 64 * rng.below(100) + rng.below(64);
        static const uint64_t at[] = {0, 5000, 1ULL << 30, (1ULL << 31) - 300, 1ULL << 31, 3ULL << 30, (1ULL << 32) - 400, 1ULL << 32};
        for (size_t i = 0; i < 8 + (size_t)clusters; ++i) {
            uint64_t a = i < 8 ? at[i] + rng.below(70) : i == 8 ? s.n - 130 : rng.below(s.n);
            int how = (int)rng.below(4); uint64_t len = 1 + rng.below(how == 0 ? 3 : how == 1 ? 150 : 12);
            for (uint64_t j = 0; j < len; ++j) { if (a >= s.n) break; s.p.push_back(a); a += how == 1 ? 1 : how == 2 ? 1 + rng.below(3) : 1 + rng.below(90); }
        }
        if (rng.chance(1, 2)) s.p.push_back(0);
        if (rng.chance(1, 2)) s.p.push_back(s.n - 1);
        std::sort(s.p.begin(), s.p.end()); s.p.erase(std::unique(s.p.begin(), s.p.end()), s.p.end());
        return s;
    }
    void build(succinct::bit_vector& out) const {
        succinct::bit_vector_builder bb(n, !v);
        for (size_t i = 0; i < p.size(); ++i) bb.set(p[i], v);
        succinct::bit_vector(&bb).swap(out);
    }
    std::vector<uint64_t> probes(size_t limit) const {
        std::vector<uint64_t> q; auto put = [&](uint64_t x) { if (x < n) q.push_back(x); };
        put(0); put(n - 1); put(n - 64); put(n - 65);
        for (int e = 29; e < 33; ++e) for (long d = -2; d <= 2; ++d) put((1ULL << e) + (uint64_t)d);
        while (q.size() < limit) {
            uint64_t x = p[rng.below(p.size())]; put(x); if (x) put(x - 1); put(x + 1);
            put(x + rng.below(200)); uint64_t d = rng.below(300); if (x >= d) put(x - d);
            if (rng.chance(1, 3)) put(rng.below(n));
        }
        return q;
    }
    void head(Ev& e) const { e.L("n", n).i("v", v).Ls("p", p); }
};
}
