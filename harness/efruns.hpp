// Elias-Fano lists of billions of values, described by their runs.
#pragma once
#include "runpos.hpp"
#include "succinct/elias_fano.hpp"
namespace vf {
struct EfRuns : RunPos {
    std::vector<uint64_t> a, d;
    // l values from x on, the given distance apart
    void add(uint64_t x, uint64_t step, uint64_t l) { while (l) { uint64_t t = std::min<uint64_t>(l, MAXRUN); a.push_back(x); d.push_back(step); put_len(t); x += t * step; l -= t; } }
    uint64_t last() const { return a.empty() ? 0 : a.back() + d.back() * (uint64_t)(len.back() - 1); }
    uint64_t value(uint64_t i) const { std::vector<long> w = where(i); return a[size_t(w[0] - 1)] + d[size_t(w[0] - 1)] * (uint64_t)w[1]; }
    uint64_t below(uint64_t x) const { uint64_t lo = 0, hi = n(); while (lo < hi) { uint64_t mid = lo + (hi - lo) / 2; if (value(mid) < x) lo = mid + 1; else hi = mid; } return lo; }
    template <class F> void each(F f) const { for (size_t s = 0; s < len.size(); ++s) { uint64_t x = a[s]; for (long j = 0; j < len[s]; ++j, x += d[s]) f(x); } }
    void head(Ev& e) const { e.vec("len", len).Ls("st", st).Ls("a", a).Ls("d", d); }
};
// dense: a little more positions than values (no low bits), about m values; otherwise: m values spread over a universe of 2^lg
inline EfRuns ef_runs_dense(uint64_t m, uint64_t& n) {
    EfRuns r; uint64_t x = 0;
    const uint64_t part = m / 40;
    while (r.n() < m) {
        x += rng.below(4);
        uint64_t l = std::min<uint64_t>(m - r.n(), rng.chance(1, 3) ? 1 + rng.below(2 * part) : 1 + rng.below(5000)), s = l < 5000 && rng.chance(1, 2) ? 2 : 1;
        r.add(x, s, l); x = r.last() + 1;
        if (rng.chance(1, 10)) x += rng.below(200000);
    }
    n = x + rng.below(3);
    return r;
}
inline EfRuns ef_runs_wide(uint64_t m, int lg, uint64_t& n) {
    EfRuns r; uint64_t x = rng.below(1000), room = 1ULL << lg, part = m / 30;
    uint64_t const avg = room / m;
    while (r.n() < m) {
        uint64_t l, s;
        if (rng.chance(1, 3)) { l = 1 + rng.below(2 * part); s = avg / 2 + rng.below(avg / 2); }
        else { l = 1 + rng.below(3000); s = rng.chance(1, 3) ? 0 : rng.chance(1, 3) ? rng.below(9) : rng.below(avg * 2); }
        l = std::min<uint64_t>(l, m - r.n());
        r.add(x, s, l); x = r.last() + (rng.chance(1, 3) ? 0 : rng.below(avg));
    }
    n = r.last() + 1 + rng.below(avg);
    return r;
}
inline void ef_build(EfRuns const& r, uint64_t n, bool bits, bool rank, succinct::elias_fano& ef) {
    if (bits) {
        succinct::bit_vector_builder bb(n); r.each([&](uint64_t x) { bb.set(x, 1); });
        succinct::elias_fano(&bb, rank).swap(ef);
    } else {
        succinct::elias_fano::elias_fano_builder b(n, r.n()); r.each([&](uint64_t x) { b.push_back(x); });
        succinct::elias_fano(&b, rank).swap(ef);
    }
}
}
