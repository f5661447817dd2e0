// C07: excess and excess range minimum.
#include "bpgen.hpp"
#include "bpruns.hpp"
using namespace vf;
namespace S = succinct;
typedef S::bp_vector::excess_t E;

struct Run {
    BV b; S::bp_vector v; bool ok;
    void begin(BV const& bits, int how) {
        b = bits; S::bp_vector w(b, how & 1, how & 2); w.swap(v);
        ok = v.size() == b.size();
        std::vector<long> ex; if (ok) for (size_t i = 0; i <= b.size(); ++i) ex.push_back(v.excess(i));
        Ev e("bp"); e.vec("b", b).i("how", how).vec("oExc", ex); e.done();
    }
    size_t n() { return b.size(); }
    void ask(size_t x, size_t y, std::vector<long>& m, std::vector<long>& v2) {
        E e = 0; uint64_t q = v.excess_rmq(x, y, e); m.push_back(clip(q)); v2.push_back(e);
        if (v.excess_rmq(x, y) != q) m.back() = BAD;
    }
    void left(size_t x, std::vector<size_t> const& ys) {
        std::vector<long> m, ex; if (!ok) return;
        for (size_t i = 0; i < ys.size(); ++i) ask(x, ys[i], m, ex);
        Ev e("left"); e.i("x", (long)x).vec("y", ys).vec("oM", m).vec("oE", ex); e.done();
    }
    void right(size_t y, std::vector<size_t> const& xs) {
        std::vector<long> m, ex; if (!ok) return;
        for (size_t i = 0; i < xs.size(); ++i) ask(xs[i], y, m, ex);
        Ev e("right"); e.i("y", (long)y).vec("x", xs).vec("oM", m).vec("oE", ex); e.done();
    }
    void pairs(std::vector<std::vector<long> > const& q) {
        std::vector<long> m, ex; if (!ok) return;
        for (size_t i = 0; i < q.size(); ++i) ask((size_t)q[i][0], (size_t)q[i][1], m, ex);
        Ev e("pairs"); e.vecs("q", q).vec("oM", m).vec("oE", ex); e.done();
    }
    std::vector<size_t> all_from(size_t x) { std::vector<size_t> r; for (size_t y = x; y <= n(); ++y) r.push_back(y); return r; }
    std::vector<size_t> stride_up(size_t x, size_t st) { std::vector<size_t> r; for (size_t y = x; y <= n(); y += 1 + rng.below(st)) r.push_back(y); if (r.back() != n()) r.push_back(n()); return r; }
    std::vector<size_t> stride_down(size_t y, size_t st) { std::vector<size_t> r; size_t x = y; while (true) { r.push_back(x); size_t d = 1 + rng.below(st); if (x < d) break; x -= d; } if (r.back() != 0) r.push_back(0); return r; }
    size_t near_boundary(size_t unit) { size_t k = n() / unit + 1; size_t p = unit * rng.below(k + 1) + rng.below(5); p = p > 2 ? p - 2 : 0; return std::min(p, n()); }
};

// short ranges that end, start or lie around word, block and superblock boundaries
static void shorts(Run& t, int bounds) {
    static const size_t units[] = {64, 256, 512, 1024, 4096, 8192};
    std::vector<std::vector<long> > q;
    for (int i = 0; i < bounds; ++i) {
        size_t u = units[rng.below(6)], p = u * rng.below(t.n() / u + 1);
        for (int k = 0; k < 8; ++k) {
            size_t len = rng.below(rng.chance(1, 3) ? 4 : rng.chance(1, 2) ? 66 : 330);
            long d = k < 3 ? 0 : (long)rng.below(3) - 1;
            long x = (long)p + d, y = x + (long)len;
            if (k % 2) { y = (long)p + d; x = y - (long)len; }
            if (x < 0 || y > (long)t.n() || x > y) continue;
            q.push_back({x, y});
        }
    }
    t.pairs(q);
}

static void big(BV const& b, int sweeps, size_t st) {
    Run t; t.begin(b, (int)rng.below(4));
    static const size_t units[] = {64, 256, 8192, 16384, 32768};
    for (int i = 0; i < sweeps; ++i) {
        size_t p = t.near_boundary(units[rng.below(5)]);
        if (i == 0) p = 0;
        t.left(p, t.stride_up(p, st));
        size_t q = t.near_boundary(units[rng.below(5)]);
        if (i == 0) q = t.n();
        t.right(q, t.stride_down(q, st));
    }
    // between superblock boundaries: every kind of subtree combination
    std::vector<std::vector<long> > q;
    size_t nsb = t.n() / 8192 + 1;
    for (size_t i = 0; i < nsb; ++i) for (size_t j = i; j < nsb; ++j) {
        if (nsb > 12 && !rng.chance(80, nsb * nsb / 2)) continue;
        long x = (long)std::min(t.n(), i * 8192 + rng.below(rng.chance(1, 2) ? 3 : 8192));
        long y = (long)std::min(t.n(), j * 8192 + rng.below(rng.chance(1, 2) ? 3 : 8192));
        if (x > y) std::swap(x, y);
        q.push_back({x, y});
    }
    t.pairs(q);
    shorts(t, 40);
}

// billions of parentheses
static void huge(int shape, int probes) {
    Runs r = runs_make(shape);
    S::bit_vector_builder bb; r.build(bb);
    S::bp_vector v(&bb);
    { Ev e("hb"); r.head(e); e.L("oN", v.size()); e.done(); }
    std::vector<uint64_t> q = r.probes((size_t)probes), x, y, m;
    std::vector<std::vector<long> > p, xp, yp, mp; std::vector<long> ex, me;
    for (size_t i = 0; i < q.size(); ++i) { ex.push_back(v.excess(q[i])); p.push_back(r.where(q[i])); }
    { Ev e("he"); e.Ls("q", q).vecs("p", p).vec("oE", ex); e.done(); }
    for (int i = 0; i < probes; ++i) {
        uint64_t a, b; r.range(q, i, r.n(), a, b);
        S::bp_vector::excess_t z = -7; uint64_t k = v.excess_rmq(a, b, z);
        x.push_back(a); y.push_back(b); m.push_back(k); me.push_back(z);
        xp.push_back(r.where(a)); yp.push_back(r.where(b)); mp.push_back(r.where(k));
    }
    Ev e("hm"); e.Ls("x", x).vecs("xp", xp).Ls("y", y).vecs("yp", yp).Ls("oM", m).vecs("oP", mp).vec("oE", me); e.done();
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        for (int s = 0; s < RUN_SHAPES; ++s) for (int i = 0; i < (T ? 3 : 1); ++i) if (scenario(runs_name(s))) huge(s, T ? 4000 : 900);
        finish(); return 0;
    }
    for (size_t k = 1; k <= (T ? 7u : 6u); ++k) if (scenario("all-" + std::to_string(k)))
        bp_all(k, [&](BV const& b) { Run t; t.begin(b, 0); for (size_t x = 0; x <= t.n(); ++x) t.left(x, t.all_from(x)); });
    for (size_t n = 14; n <= (T ? 360u : 200u); n += 2) if (scenario("len")) {
        Run t; t.begin(bp_make(n, (int)rng.below(BP_SHAPES), rng.next() & 1), (int)rng.below(4));
        for (size_t x = 0; x <= t.n(); ++x) t.left(x, t.all_from(x));
    }
    for (int i = 0; i < (T ? 300 : 100); ++i) if (scenario("mid")) {
        Run t; t.begin(bp_make(300 + rng.below(2500), i, rng.next() & 1), (int)rng.below(4));
        for (int k = 0; k < 12; ++k) { size_t p = t.near_boundary(k & 1 ? 64 : 256); t.left(p, t.stride_up(p, 2)); size_t q = t.near_boundary(k & 1 ? 64 : 256); t.right(q, t.stride_down(q, 2)); }
        shorts(t, 30);
    }
    for (int s = 0; s < BP_SHAPES; ++s) for (int i = 0; i < (T ? 8 : 2); ++i) if (scenario(std::string("shape-") + bp_shape_name(s)))
        big(bp_make(9000 + rng.below(50000), s, i & 1), 4, 40);
    static const size_t sb[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33};
    for (size_t k = 0; k < sizeof(sb) / sizeof(*sb); ++k) for (int d = 0; d < (T ? 6 : 3); ++d) if (scenario("superblocks")) {
        static const int sh[] = {10, 11, 5, 0, 9, 6};
        size_t n = sb[k] * 8192 - (d == 0 ? 0 : rng.below(8000));
        big(bp_make(n, sh[(k + (size_t)d) % 6], rng.next() & 1), 3, 120);
    }
    for (int i = 0; i < (T ? 10 : 3); ++i) if (scenario("large")) {
        static const int sh[] = {10, 9, 11, 5, 0};
        big(bp_make(T ? 600000 + rng.below(9999) : 280000 + rng.below(20000), sh[i % 5], i & 1), 4, 400);
    }
    finish();
    return 0;
}
