// Shapes of bit vectors shared by the drivers.
#pragma once
#include "vf.hpp"
namespace vf {
// number of fill styles understood by fill()
static const int STYLES = 12;
inline const char* style_name(int s) {
    static const char* n[STYLES] = {"half", "sparse", "dense", "zeros", "ones", "runs", "blocks",
        "verysparse", "verydense", "alt", "words", "front"};
    return n[s % STYLES];
}
inline BV fill(size_t n, int style, Rng& r) {
    BV b(n);
    switch (style % STYLES) {
    case 0: for (size_t i = 0; i < n; ++i) b[i] = r.next() & 1; break;
    case 1: for (size_t i = 0; i < n; ++i) b[i] = r.chance(1, 20); break;
    case 2: for (size_t i = 0; i < n; ++i) b[i] = !r.chance(1, 20); break;
    case 3: break;
    case 4: for (size_t i = 0; i < n; ++i) b[i] = 1; break;
    case 5: { // runs of geometric lengths
        size_t i = 0; unsigned char v = r.next() & 1;
        while (i < n) {
            size_t len = 1 + r.below(uint64_t(1) << r.below(12));
            for (size_t j = 0; j < len && i < n; ++j) b[i++] = v;
            v = !v;
        }
        break; }
    case 6: { // density switches at 512-bit blocks
        for (size_t blk = 0; blk * 512 < n; ++blk) {
            uint64_t d = r.below(5);
            uint64_t p = d == 0 ? 0 : d == 1 ? 1 : d == 2 ? 128 : d == 3 ? 255 : 256;
            for (size_t i = blk * 512; i < n && i < blk * 512 + 512; ++i) b[i] = r.below(256) < p;
        }
        break; }
    case 7: for (size_t i = 0; i < n; ++i) b[i] = r.chance(1, 1500); break;
    case 8: for (size_t i = 0; i < n; ++i) b[i] = !r.chance(1, 1500); break;
    case 9: for (size_t i = 0; i < n; ++i) b[i] = (i & 1); break;
    case 10: { // whole words, mostly equal to special values
        for (size_t w = 0; w * 64 < n; ++w) {
            static const uint64_t sp[] = {0, ~0ULL, 1, 1ULL << 63, 0x8000000000000001ULL, 0xFFFFFFFF00000000ULL,
                0x00000000FFFFFFFFULL, 0x5555555555555555ULL, 0x8080808080808080ULL, 0x0101010101010101ULL};
            uint64_t v = r.chance(3, 4) ? sp[r.below(10)] : r.next();
            for (size_t i = 0; i < 64 && w * 64 + i < n; ++i) b[w * 64 + i] = (v >> i) & 1;
        }
        break; }
    case 11: { // all ones first (or last)
        bool at_end = r.next() & 1; size_t k = r.below(n + 1);
        for (size_t i = 0; i < n; ++i) b[i] = (i < k) != at_end;
        break; }
    }
    return b;
}
}
