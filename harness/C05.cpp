// C05: darray1/darray0 (select over ones/zeros) and darray64.
#include "gen.hpp"
#include "efruns.hpp"
#include "succinct/darray.hpp"
#include "succinct/darray64.hpp"
using namespace vf;
namespace S = succinct;

template <class D> static void sel(D const& d, S::bit_vector const& bv, size_t cnt, long& c, std::vector<long>& s) {
    c = clip(d.num_positions());
    if (d.num_positions() != cnt) return;
    for (size_t k = 0; k < cnt; ++k) s.push_back(clip(d.select(bv, k)));
}

static void both(BV const& b) {
    S::bit_vector bv(b);
    size_t ones = 0; for (size_t i = 0; i < b.size(); ++i) ones += b[i];
    S::darray1 d1(bv); S::darray0 d0(bv);
    long c1, c0; std::vector<long> s1, s0;
    sel(d1, bv, ones, c1, s1); sel(d0, bv, b.size() - ones, c0, s0);
    Ev e("dab"); e.vec("b", b).i("oC1", c1).vec("oS1", s1).i("oC0", c0).vec("oS0", s0); e.done();
}

// positions of value v; everything else is !v
static void sparse(size_t n, int v, std::vector<size_t> const& p) {
    S::bit_vector_builder bb(n, !v);
    for (size_t i = 0; i < p.size(); ++i) bb.set(p[i], v);
    S::bit_vector bv(&bb);
    long c; std::vector<long> s;
    if (v) { S::darray1 d(bv); sel(d, bv, p.size(), c, s); } else { S::darray0 d(bv); sel(d, bv, p.size(), c, s); }
    Ev e("dap"); e.i("n", (long)n).i("v", v).vec("p", p).i("oC", c).vec("oS", s); e.done();
}

static void inc(std::vector<size_t> const& g) {
    S::darray64::builder bd; for (size_t i = 0; i < g.size(); ++i) bd.append1(g[i]);
    S::darray64 d(&bd);
    std::vector<long> s, bits;
    if (d.num_ones() == g.size()) for (size_t k = 0; k < g.size(); ++k) s.push_back(clip(d.select(k)));
    for (size_t i = 0; i < d.bits().size(); ++i) bits.push_back(d.bits()[i]);
    Ev e("d64"); e.vec("g", g).u("oC", d.num_ones()).vec("oB", bits).vec("oS", s); e.done();
}

// a block of cnt positions starting at *at whose first..last distance is exactly span
static void block(std::vector<size_t>& p, size_t& at, size_t cnt, size_t span, int shape) {
    if (cnt == 0) return;
    if (cnt == 1) { p.push_back(at); at += 1; return; }
    span = std::max(span, cnt - 1);
    std::set<size_t> q; q.insert(at); q.insert(at + span);
    if (shape == 0) while (q.size() < cnt) q.insert(at + rng.below(span + 1));
    else if (shape == 1) for (size_t i = 1; q.size() < cnt; ++i) q.insert(at + i); // cluster at the front
    else for (size_t i = 1; q.size() < cnt; ++i) q.insert(at + span - i);        // cluster at the back
    p.insert(p.end(), q.begin(), q.end());
    at += span + 1;
}

// positions of value v given by their runs: select at interesting places
template <class F> static void probe(EfRuns const& r, uint64_t n, int v, uint64_t c, size_t probes, F select) {
    { Ev e("hl"); r.head(e); e.L("n", n).i("v", v).L("oC", c); e.done(); }
    if (c != r.n()) return;
    std::vector<uint64_t> q = r.probes(probes), ix, o; std::vector<std::vector<long> > ip;
    for (size_t i = 0; i < q.size(); ++i) if (q[i] < r.n()) { ix.push_back(q[i]); ip.push_back(r.where(q[i])); o.push_back(select(q[i])); }
    Ev e("hs"); e.Ls("i", ix).vecs("ip", ip).Ls("oS", o); e.done();
}
static void runs(EfRuns const& r, uint64_t n, int v, size_t probes) {
    S::bit_vector bv;
    { S::bit_vector_builder bb(n, !v); r.each([&](uint64_t x) { bb.set(x, v); }); S::bit_vector(&bb).swap(bv); }
    if (v) { S::darray1 d, t(bv); d.swap(t); probe(r, n, v, d.num_positions(), probes, [&](uint64_t k) { return d.select(bv, k); }); }
    else { S::darray0 d, t(bv); d.swap(t); probe(r, n, v, d.num_positions(), probes, [&](uint64_t k) { return d.select(bv, k); }); }
}
static void inc_runs(EfRuns const& r, size_t probes) {
    S::darray64::builder b; uint64_t last = ~0ULL; r.each([&](uint64_t x) { b.append1(x - last - 1); last = x; });
    S::darray64 d(&b);
    probe(r, d.bits().size(), 64, d.num_ones(), probes, [&](uint64_t k) { return d.select(k); });
}
// stretches that are dense, at the edge, or overflow
static EfRuns stretches(uint64_t m, uint64_t& n) {
    EfRuns r; uint64_t x = rng.below(100);
    while (r.n() < m) {
        int w = (int)rng.below(5);
        uint64_t l = w < 3 ? 5000 + rng.below(30000) : 1 + rng.below(3000);
        r.add(x, w == 0 ? 65 + rng.below(300) : w == 1 ? 62 + rng.below(5) : w == 2 ? 66 + rng.below(3) : 1 + rng.below(40), std::min<uint64_t>(l, m - r.n()));
        x = r.last() + 1 + rng.below(rng.chance(1, 4) ? 100000 : 50);
    }
    n = x; return r;
}
static EfRuns gaps64(uint64_t m) {
    EfRuns r; uint64_t x = 0;
    while (r.n() < m) {
        x += rng.below(64);
        r.add(x, rng.chance(1, 2) ? 64 : 1 + rng.below(64), std::min<uint64_t>(m - r.n(), rng.chance(1, 3) ? 1 + rng.below(m / 20) : 1 + rng.below(3000)));
        x = r.last() + 1;
    }
    return r;
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        uint64_t n = (1ULL << 32) + (1ULL << 17) + 5;
        for (int v = 0; v < 2; ++v) if (scenario("huge")) {
            std::vector<uint64_t> p;
            for (int i = 0; i < 1500; ++i) p.push_back(rng.below(n));              // sparse blocks
            for (uint64_t i = 0; i < 3000; ++i) p.push_back((1ULL << 32) - 1500 + i + rng.below(3)); // dense across 2^32
            for (int i = 0; i < 1200; ++i) p.push_back((1ULL << 32) + 60000 + rng.below(70000));
            p.push_back(0); p.push_back(n - 1);
            std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
            S::bit_vector_builder bb(n, !v); for (size_t i = 0; i < p.size(); ++i) bb.set(p[i], v);
            S::bit_vector bv(&bb);
            std::vector<uint64_t> s; uint64_t c;
            if (v) { S::darray1 d(bv); c = d.num_positions(); if (c == p.size()) for (size_t k = 0; k < p.size(); ++k) s.push_back(d.select(bv, k)); }
            else { S::darray0 d(bv); c = d.num_positions(); if (c == p.size()) for (size_t k = 0; k < p.size(); ++k) s.push_back(d.select(bv, k)); }
            Ev e("dah"); e.L("n", n).i("v", v).Ls("p", p).L("oC", c).Ls("oS", s); e.done();
        }
        for (int v = 0; v < 2; ++v) if (scenario("huge-dense")) { EfRuns r = ef_runs_dense((1ULL << 32) + (1 << 20) + rng.below(99999), n); runs(r, n, v, T ? 5000 : 1500); }
        if (scenario("huge-inc")) inc_runs(gaps64((1ULL << 27) + rng.below(99999)), T ? 5000 : 1500);
        finish(); return 0;
    }
    for (size_t n = 0; n <= (T ? 11u : 9u); ++n) if (scenario("all-" + std::to_string(n)))
        for (unsigned m = 0; m < (1u << n); ++m) { BV b(n); for (size_t i = 0; i < n; ++i) b[i] = (m >> i) & 1; both(b); }
    for (size_t n = 10; n <= (T ? 700u : 330u); ++n) if (scenario("len")) both(fill(n, (int)rng.below(STYLES), rng));
    size_t base[] = {1024, 2048, 3072, 32 * 33, 4096, 8192, 20000};
    for (size_t bi = 0; bi < sizeof(base) / sizeof(*base); ++bi) for (int d = -1; d <= 1; ++d) for (int s = 0; s < STYLES; ++s)
        if (scenario("edge")) both(fill(base[bi] + (size_t)d, s, rng));
    for (int i = 0; i < (T ? 40 : 10); ++i) if (scenario("large")) both(fill(50000 + rng.below(T ? 300000 : 100000), i, rng));
    // one block whose span is around the limit, in every shape, alone and among dense/sparse neighbours
    for (int v = 0; v < 2; ++v) for (int shape = 0; shape < 3; ++shape) for (int ds = -3; ds <= 3; ++ds) for (int ctx = 0; ctx < 4; ++ctx)
        if (scenario("span")) {
            std::vector<size_t> p; size_t at = rng.below(200);
            if (ctx & 1) { block(p, at, 1024, 2000, 0); at += rng.below(100); }
            if (ctx == 3) { block(p, at, 1024, 200000, 0); at += rng.below(100); }
            size_t cnt = ctx == 0 ? 1 + rng.below(1024) : 1024;
            block(p, at, cnt, (size_t)(65536 + ds), shape);
            at += rng.below(3) * 70000;
            if (ctx & 2) { block(p, at, 1024, 3000, 0); block(p, at, 1 + rng.below(1024), 65535, 0); }
            sparse(at + rng.below(130) + 1, v, p);
        }
    // a last, partial block with its last position on (or next to) a sub-block start, span around the limit
    for (int v = 0; v < 2; ++v) for (int shape = 0; shape < 3; ++shape) for (int ds = -1; ds <= 1; ++ds) for (int k = 0; k < 3; ++k) if (scenario("tail")) {
        size_t cnt = (rng.chance(1, 2) ? 1 + rng.below(32) : 1 + rng.below(3)) * 32 + (size_t)k;
        if (cnt > 1024) cnt = 993;
        std::vector<size_t> p; size_t at = rng.below(200);
        if (rng.chance(1, 3)) block(p, at, 1024, 3000, 0);
        block(p, at, cnt, (size_t)(65536 + ds), shape);
        sparse(at + rng.below(130) + 1, v, p);
    }
    // block counts around multiples of 32 and 1024, all-dense and all-sparse
    for (int v = 0; v < 2; ++v) for (int k = 0; k < 24; ++k) if (scenario("count")) {
        static const size_t cs[] = {1, 2, 31, 32, 33, 63, 64, 65, 1023, 1024, 1025, 1055, 1056, 1057, 2047, 2048, 2049, 2080, 3071, 3072, 3073, 992, 993, 4096};
        for (int sp = 0; sp < 3; ++sp) {
            std::vector<size_t> p; size_t at = rng.below(70);
            for (size_t i = 0; i < cs[k]; ++i) { p.push_back(at); at += 1 + (sp == 0 ? rng.below(3) : sp == 1 ? rng.below(128) : rng.below(400)); }
            sparse(p.back() + 1 + rng.below(70), v, p);
        }
    }
    // mixtures of many blocks
    for (int i = 0; i < (T ? 120 : 24); ++i) if (scenario("mix")) {
        std::vector<size_t> p; size_t at = rng.below(1000);
        size_t nb = 2 + rng.below(9);
        for (size_t k = 0; k < nb; ++k) {
            size_t span = rng.chance(1, 3) ? 65500 + rng.below(80) : (size_t)1024 << rng.below(9);
            block(p, at, k + 1 == nb ? 1 + rng.below(1024) : 1024, span, (int)rng.below(3));
            at += rng.chance(1, 2) ? 0 : rng.below(100000);
        }
        sparse(at + 1 + rng.below(200), (int)(rng.next() & 1), p);
    }
    // more positions in overflow blocks than 16 bits can count
    for (int i = 0; i < (T ? 24 : 8); ++i) if (scenario("stretches")) { uint64_t n; EfRuns r = stretches(i < 2 ? 70000 + rng.below(200000) : 150000 + rng.below(T ? 2000000 : 500000), n); runs(r, n, i % 2, T ? 3000 : 1000); }
    for (int i = 0; i < (T ? 12 : 4); ++i) if (scenario("inc-runs")) inc_runs(gaps64(70000 + rng.below(T ? 2000000 : 500000)), T ? 3000 : 1000);
    // the incremental structure
    for (int i = 0; i < (T ? 160 : 48); ++i) if (scenario("inc")) {
        static const size_t cs[] = {0, 1, 63, 64, 65, 127, 128, 1023, 1024, 1025, 2047, 2048, 2049, 5000, 960, 961};
        size_t m = i < 16 ? cs[i] : rng.below(T ? 20000 : 5000);
        std::vector<size_t> g;
        for (size_t k = 0; k < m; ++k) {
            int mode = i % 6;
            g.push_back(mode == 0 ? rng.below(64) : mode == 1 ? 63 : mode == 2 ? 0 : mode == 3 ? (rng.chance(1, 2) ? 63 : 0) : mode == 4 ? 62 + rng.below(2) : rng.below(3));
        }
        inc(g);
        if (i < 16) { std::vector<size_t> h(cs[i], 63); inc(h); }
    }
    finish();
    return 0;
}
