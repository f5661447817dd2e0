// Non-decreasing sequences of 64-bit values for the Elias-Fano drivers.
#pragma once
#include "gen.hpp"
namespace vf {
typedef std::vector<uint64_t> U64s;
static const int EF_SHAPES = 9;
inline uint64_t below64(Rng& r, uint64_t n) { // n >= 1
    return n ? r.next() % n : 0;
}
// m values in [0, n), n >= 1
inline U64s ef_make(uint64_t n, size_t m, int shape, Rng& r) {
    U64s v;
    switch (shape % EF_SHAPES) {
    case 0: for (size_t i = 0; i < m; ++i) v.push_back(below64(r, n)); break;
    case 1: for (size_t i = 0; i < m; ++i) v.push_back(n - 1 - below64(r, std::min<uint64_t>(n, 3 * m + 1))); break; // top of the universe
    case 2: for (size_t i = 0; i < m; ++i) v.push_back(below64(r, std::min<uint64_t>(n, 3 * m + 1))); break;        // bottom
    case 3: { // both ends only
        for (size_t i = 0; i < m; ++i) { uint64_t d = below64(r, std::min<uint64_t>(n, 5)); v.push_back(r.next() & 1 ? d : n - 1 - d); } break; }
    case 4: { uint64_t x = below64(r, n); for (size_t i = 0; i < m; ++i) v.push_back(x); break; } // one value
    case 5: { // few values, many duplicates
        U64s d; for (int i = 0; i < 5; ++i) d.push_back(below64(r, n)); d.push_back(0); d.push_back(n - 1);
        for (size_t i = 0; i < m; ++i) v.push_back(d[r.below(d.size())]); break; }
    case 6: { // evenly spread (every bucket used)
        for (size_t i = 0; i < m; ++i) v.push_back((uint64_t)((unsigned __int128)n * i / m)); break; }
    case 7: { // clusters around powers of two
        for (size_t i = 0; i < m; ++i) { uint64_t p = 1ULL << r.below(64); uint64_t x = p - 2 + r.below(5); v.push_back(x % n); } break; }
    case 8: { // geometric gaps
        uint64_t x = 0; for (size_t i = 0; i < m; ++i) { uint64_t g = r.next() >> r.below(64); g %= (n / (m ? m : 1)) + 1; x = (g >= n || x > n - 1 - g) ? n - 1 : x + g; v.push_back(x); } break; }
    }
    std::sort(v.begin(), v.end());
    return v;
}
}
