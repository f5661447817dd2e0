// Shapes of value sequences (as small integers) shared by the C08/C09 drivers.
#pragma once
#include "gen.hpp"
namespace vf {
typedef std::vector<long> Seq;
static const int SEQ_SHAPES = 14;
inline const char* seq_shape_name(int s) {
    static const char* n[SEQ_SHAPES] = {"random", "ascending", "descending", "constant", "mountain", "valley", "few",
        "two", "saw", "stairs", "perm", "spikes", "walk", "nested"};
    return n[s % SEQ_SHAPES];
}
inline void nest(Seq& p, size_t a, size_t b, long v, Rng& r) { // random recursive minimum placement
    std::vector<std::pair<std::pair<size_t, size_t>, long> > st(1, {{a, b}, v});
    while (!st.empty()) {
        size_t x = st.back().first.first, y = st.back().first.second; long w = st.back().second; st.pop_back();
        if (x >= y) continue;
        size_t m = r.chance(1, 4) ? x : r.chance(1, 3) ? y - 1 : x + r.below(y - x);
        p[m] = w;
        st.push_back({{x, m}, w + (r.chance(1, 3) ? 0 : 1)}); st.push_back({{m + 1, y}, w + (r.chance(1, 3) ? 0 : 1)});
    }
}
inline Seq seq_make(size_t n, int shape, Rng& r) {
    Seq p(n);
    switch (shape % SEQ_SHAPES) {
    case 0: for (size_t i = 0; i < n; ++i) p[i] = (long)r.below(1000000); break;
    case 1: for (size_t i = 0; i < n; ++i) p[i] = (long)i; break;
    case 2: for (size_t i = 0; i < n; ++i) p[i] = (long)(n - i); break;
    case 3: for (size_t i = 0; i < n; ++i) p[i] = 7; break;
    case 4: for (size_t i = 0; i < n; ++i) p[i] = (long)std::min(i, n - i); break;
    case 5: for (size_t i = 0; i < n; ++i) p[i] = (long)(n - std::min(i, n - i)); break;
    case 6: for (size_t i = 0; i < n; ++i) p[i] = (long)r.below(4); break;
    case 7: for (size_t i = 0; i < n; ++i) p[i] = r.chance(1, 50); break;
    case 8: { size_t w = 2 + r.below(300); for (size_t i = 0; i < n; ++i) p[i] = (long)(i % w); break; }
    case 9: { size_t w = 2 + r.below(300); for (size_t i = 0; i < n; ++i) p[i] = (long)((n - i) / w); break; }
    case 10: for (size_t i = 0; i < n; ++i) { p[i] = (long)i; } for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]); break;
    case 11: for (size_t i = 0; i < n; ++i) p[i] = r.chance(1, 700) ? (long)r.below(5) : 1000 + (long)(i % 3); break;
    case 12: { long v = 100000; for (size_t i = 0; i < n; ++i) { p[i] = v; v += (long)r.below(5) - 2; } break; }
    case 13: nest(p, 0, n, 1, r); break;
    }
    return p;
}
// every weak ordering of n elements, as ranks
template <class F> void weak_orders(size_t n, F f) {
    Seq p(n, 0);
    while (true) {
        // canonical: the used ranks are 0..max without holes
        long mx = -1; for (size_t i = 0; i < n; ++i) mx = std::max(mx, p[i]);
        std::vector<char> u((size_t)mx + 1, 0); for (size_t i = 0; i < n; ++i) u[(size_t)p[i]] = 1;
        bool ok = true; for (size_t i = 0; i < u.size(); ++i) ok = ok && u[i];
        if (ok) f(p);
        size_t i = 0; while (i < n && p[i] == (long)n - 1) p[i++] = 0;
        if (i == n) break;
        ++p[i];
    }
}
}
