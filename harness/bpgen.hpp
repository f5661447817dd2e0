// Shapes of balanced parenthesis sequences.
#pragma once
#include "gen.hpp"
namespace vf {
struct BpGen {
    BV b; long h;
    BpGen() : h(0) {}
    void step(bool open) { b.push_back(open); h += open ? 1 : -1; }
    // random path of about len steps to height target, never below floor
    void walk(size_t len, long target, long floor, int jag) {
        if (floor > h) floor = h;
        if (floor > target) floor = target;
        for (size_t i = 0; i < len; ++i) {
            long left = long(len - i), need = target - h;
            bool open;
            if (need >= left) open = true;
            else if (-need >= left) open = false;
            else if (h <= floor) open = true;
            else open = rng.below((uint64_t)(2 * jag)) < (uint64_t)(need > 0 ? jag + 1 : need < 0 ? jag - 1 : jag);
            step(open);
        }
        while (h < target) step(true);
        while (h > target) step(false);
    }
    void up(size_t k) { while (k--) step(true); }
    void down(size_t k) { while (k-- && h > 0) step(false); }
    void close() { while (h > 0) step(false); }
};
static const int BP_SHAPES = 14;
inline const char* bp_shape_name(int s) {
    static const char* n[BP_SHAPES] = {"random", "deep", "star", "forest", "caterpillar", "dips", "mountains", "left", "right", "noisydeep",
        "perm", "ties", "bushy", "zigzag"};
    return n[s % BP_SHAPES];
}
// about n parentheses (the result is balanced, so its length may differ a little)
inline BV bp_make(size_t n, int shape, bool forest) {
    BpGen g;
    if (n < 2) return g.b;
    if (shape % BP_SHAPES == 10 && n < 8192) shape = 0;
    if (shape % BP_SHAPES == 5 && n < 1500) shape = 13;
    if (!forest) g.step(true);
    long base = g.h;
    switch (shape % BP_SHAPES) {
    case 0: g.walk(n > 4 ? n - 4 : n, base, base, 8); break;
    case 1: g.up(n / 2); g.down(n / 2 - (size_t)base); break;
    case 2: while (g.b.size() + 2 < n) { g.step(true); g.step(false); } break;
    case 3: while (g.b.size() + 2 < n) { size_t k = 1 + rng.below(4); g.up(k); g.down(k); } break;
    case 4: while (g.b.size() + 3 < n / 2 + (size_t)g.h / 2) { g.step(true); if (rng.chance(1, 2)) { g.step(true); g.step(false); } } break;
    case 5: { // plateau with dips of various depths at block boundaries
        long top = 20 + (long)rng.below(400);
        g.walk((size_t)top + rng.below(100), base + top, base, 4);
        while (g.b.size() + 2 * (size_t)top + 600 < n) {
            size_t gap = (rng.chance(1, 2) ? 64 : 256) * (1 + rng.below(40)) - g.b.size() % 64 + rng.below(3);
            g.walk(gap, base + top, base + top - (long)rng.below(4), 4);
            long dip = (long)rng.below((uint64_t)top);
            g.down((size_t)dip); g.walk((size_t)dip + rng.below(130), base + top, base, 4);
        }
        break; }
    case 6: { // runs whose lengths surround the structure's sizes
        static const size_t ls[] = {31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1024, 2047, 4096, 4097, 8191, 8192, 8193};
        while (g.b.size() + 10 < n) {
            size_t k = ls[rng.below(20)];
            if (g.b.size() + 2 * k > n) k = 1 + rng.below(30);
            g.up(k);
            size_t dn = rng.chance(1, 3) ? k : k - rng.below(std::min<size_t>(k, 40));
            if ((long)dn > g.h - base) dn = (size_t)(g.h - base);
            g.down(dn);
            if (rng.chance(1, 5) && (size_t)g.h + g.b.size() < n) g.walk(rng.below(300), g.h, base, 8);
            if (g.b.size() + (size_t)g.h >= n) break;
        }
        break; }
    case 7: while (g.b.size() + 2 < n - (size_t)g.h) { g.step(true); g.step(true); g.step(false); } break;
    case 8: { size_t k = n / 3; g.up(k); while (g.h > base && g.b.size() < n) { g.step(false); if (g.h > base) { g.step(true); g.step(false); } } break; }
    case 9: { long top = (long)n / 2 - (long)n / 16; g.walk(n / 2, base + top, base, 3); g.walk(n / 2, base, base, 3); break; }
    case 10: { // superblock minima are a random permutation
        std::vector<long> hs; size_t m = std::max<size_t>(1, n / 8192);
        for (size_t i = 0; i < m; ++i) hs.push_back(base + 3 + (long)i * (long)(1 + rng.below(3)));
        for (size_t i = m; i > 1; --i) std::swap(hs[i - 1], hs[rng.below(i)]);
        for (size_t i = 0; i < m; ++i) {
            size_t at = i * 8192 + 200 + rng.below(7800);
            if (at > g.b.size()) { long mid = g.h + 30; g.walk((at - g.b.size()) / 2, mid, std::min(g.h, hs[i]), 6); g.walk(at - g.b.size(), hs[i], std::min(mid, hs[i]), 6); }
            g.up(5 + rng.below(60));
        }
        break; }
    case 11: { // many equal minima at chosen distances
        long lo = base + 1 + (long)rng.below(20); g.up((size_t)(lo - g.h > 0 ? lo - g.h : 0) + 40);
        while (g.b.size() + 400 < n) {
            size_t len = 64 * (1 + rng.below(90)) + rng.below(130);
            long hi = lo + 5 + (long)rng.below(60);
            g.walk(len / 2, hi, lo + 1, 6); g.walk(len / 2, lo + (rng.chance(1, 4) ? 1 : 0), lo, 6);
        }
        break; }
    case 12: while (g.b.size() + (size_t)(g.h - base) + 8 < n) { if (g.h < base + 6 || rng.chance(1, 2)) g.step(true); if (g.h > base && rng.chance(1, 2)) g.step(false); } break;
    case 13: { long amp = 1 + (long)rng.below(90); while (g.b.size() + 2 * (size_t)amp + 4 < n) { g.up((size_t)amp); g.down((size_t)amp); if (rng.chance(1, 3)) amp = 1 + (long)rng.below(90); } break; }
    }
    g.close();
    return g.b;
}
// all balanced sequences with k pairs
inline void bp_all(size_t k, std::function<void(BV const&)> f) {
    BV cur;
    std::function<void(size_t, size_t)> rec = [&](size_t o, size_t h) {
        if (cur.size() == 2 * k) { f(cur); return; }
        if (o < k) { cur.push_back(1); rec(o + 1, h + 1); cur.pop_back(); }
        if (h > 0) { cur.push_back(0); rec(o, h - 1); cur.pop_back(); }
    };
    rec(0, 0);
}
}
