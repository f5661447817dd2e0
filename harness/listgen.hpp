// Sequences of integers for the list drivers.
#pragma once
#include "efgen.hpp"
namespace vf {
static const int LIST_SHAPES = 11;
// n values in [0, max]
inline U64s list_make(size_t n, uint64_t max, int shape, Rng& r) {
    U64s v(n);
    for (size_t i = 0; i < n; ++i) {
        uint64_t x = 0;
        switch (shape % LIST_SHAPES) {
        case 0: x = r.next() >> r.below(64); break;                 // every length
        case 1: x = r.below(4); break;
        case 2: x = 0; break;
        case 3: x = max; break;
        case 4: x = (r.next() & 1) ? max - r.below(3) : r.below(3); break;
        case 5: { uint64_t p = 1ULL << r.below(64); x = p - 2 + r.below(4); break; } // around powers of two
        case 6: x = r.chance(1, 40) ? r.next() : r.below(2); break;  // rare huge ones
        case 7: x = (uint64_t)i; break;
        case 8: x = r.next(); break;
        case 9: x = (i / 70) % 2 ? max - (i % 3) : 0; break;         // stretches
        case 10: x = (1ULL << (i % 64)) - 1; break;
        }
        v[i] = (max == ~0ULL) ? x : x % (max + 1);
        if (shape % LIST_SHAPES == 5 && x > max) v[i] = max;
    }
    return v;
}
// scaled down so that the sum is at most max
inline U64s list_sum(U64s v, uint64_t max) {
    unsigned __int128 s = 0; for (size_t i = 0; i < v.size(); ++i) s += v[i];
    unsigned sh = 0; while ((s >> sh) > max) ++sh;
    for (size_t i = 0; i < v.size(); ++i) v[i] = sh >= 64 ? 0 : v[i] >> sh;
    // put what is missing to the limit somewhere, now and then
    return v;
}
}
