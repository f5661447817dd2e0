// Positions in sequences of billions of elements made of runs.
#pragma once
#include "vf.hpp"
namespace vf {
struct RunPos {
    std::vector<long> len;
    std::vector<uint64_t> st;
    RunPos() { st.push_back(0); }
    static const long MAXRUN = (1L << 30) - 2;
    uint64_t n() const { return st.back(); }
    void put_len(uint64_t l) { len.push_back((long)l); st.push_back(st.back() + l); }
    // the run and offset of a position
    std::vector<long> where(uint64_t p) const {
        std::vector<long> r(2, BAD);
        if (p > n()) return r;
        size_t s = size_t(std::upper_bound(st.begin(), st.end(), p) - st.begin()) - 1;
        r[0] = (long)s + 1; r[1] = (long)(p - st[s]);
        return r;
    }
    // interesting positions: around the ends of the runs, around powers of two, anywhere
    std::vector<uint64_t> probes(size_t limit) const {
        std::vector<uint64_t> q;
        auto put = [&](uint64_t p) { if (p <= n()) q.push_back(p); };
        put(0); put(1); put(n()); put(n() - 1); put(n() - 2);
        for (int e = 29; e < 33; ++e) for (long d = -2; d <= 2; ++d) { put((1ULL << e) + (uint64_t)d); put(3 * (1ULL << (e - 1)) + (uint64_t)d); }
        while (q.size() < limit) {
            uint64_t p = st[rng.below(st.size())];
            p += rng.below(5);
            if (p >= 2) put(p - 2);
            if (rng.chance(1, 4)) put(rng.below(n() + 1));
            if (rng.chance(1, 4)) { uint64_t u = 8192 * rng.below(n() / 8192 + 1) + rng.below(3); put(u ? u - 1 : 0); }
        }
        return q;
    }
    // two ends for a range, from the probes or near one of them
    void range(std::vector<uint64_t> const& q, int i, uint64_t last, uint64_t& a, uint64_t& b) const {
        a = std::min(q[rng.below(q.size())], last); b = std::min(q[rng.below(q.size())], last);
        if (i % 3 == 1) b = std::min<uint64_t>(a + rng.below(40000), last);
        if (i % 3 == 2) { // in runs that are near each other
            long s = where(a)[0] - 1, t = s + (long)rng.below(25);
            b = std::min<uint64_t>(st[(size_t)std::min<long>(t, (long)st.size() - 1)] + rng.below(3), last);
        }
        if (a > b) std::swap(a, b);
    }
};
}
