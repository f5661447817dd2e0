// C08: range-minimum tree.
#include "rmqgen.hpp"
#include "runpos.hpp"
#include <list>
#include "succinct/cartesian_tree.hpp"
using namespace vf;
namespace S = succinct;

static bool fnless(long const& a, long const& b) { return a < b; }
struct ByFirst { bool operator()(std::pair<long, long> const& a, std::pair<long, long> const& b) const { return a.first < b.first; } };
struct Str8 { std::string s; };

static const int HOWS = 10;
// p: preference rank of each element (smaller is preferred); the element types and orders vary
static void make(Seq const& p, int how, S::cartesian_tree& out) {
    size_t n = p.size();
    switch (how % HOWS) {
    case 0: { std::vector<uint64_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = ~0ULL - 5000000ULL + (uint64_t)p[i]; S::cartesian_tree(v).swap(out); break; }
    case 1: { std::vector<double> v(n); for (size_t i = 0; i < n; ++i) v[i] = (double)p[i] / 7 - 3.25; S::cartesian_tree(v).swap(out); break; }
    case 2: { std::vector<std::string> v(n); for (size_t i = 0; i < n; ++i) { char b[16]; snprintf(b, sizeof b, "%09ld", p[i]); v[i] = b; } S::cartesian_tree(v).swap(out); break; }
    case 3: { std::vector<int64_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = (-p[i]) * 1000000000LL; S::cartesian_tree(v, std::greater<int64_t>()).swap(out); break; }
    case 4: { S::cartesian_tree::builder<long> b; for (size_t i = 0; i < n; ++i) b.push_back(p[i], fnless); S::cartesian_tree(&b).swap(out); break; }
    case 5: { S::cartesian_tree::builder<std::pair<long, long> > b(n); for (size_t i = 0; i < n; ++i) b.push_back(std::make_pair(p[i], (long)(rng.next() >> 40)), ByFirst()); S::cartesian_tree(&b).swap(out); break; }
    case 6: { std::list<int> v(p.begin(), p.end()); S::cartesian_tree(v).swap(out); break; }
    case 7: { S::cartesian_tree::builder<uint32_t> b(1 + n / 3); for (size_t i = 0; i < n; ++i) b.push_back((uint32_t)(4000000000u - (uint32_t)p[i]), std::greater<uint32_t>()); S::cartesian_tree(&b).swap(out); break; }
    case 8: { std::vector<std::pair<long, long> > v(n); for (size_t i = 0; i < n; ++i) v[i] = std::make_pair(p[i], (long)(rng.next() >> 40)); S::cartesian_tree(v, ByFirst()).swap(out); break; }
    case 9: { S::cartesian_tree::builder<long> b(2 * n + 100); for (size_t i = 0; i < n; ++i) b.push_back(-p[i], [](long const& x, long const& y) { return x > y; }); S::cartesian_tree(&b).swap(out); break; }
    }
}

struct Run {
    Seq p; S::cartesian_tree t; bool ok;
    void begin(Seq const& q, int how) {
        p = q; make(p, how, t); ok = t.size() == p.size();
        Ev e("seq"); e.vec("p", p).i("how", how % HOWS).u("oN", t.size()); e.done();
    }
    size_t n() { return p.size(); }
    void left(size_t x, std::vector<size_t> const& ys) {
        std::vector<long> m; if (!ok) return;
        for (size_t i = 0; i < ys.size(); ++i) m.push_back(clip(t.rmq(x, ys[i])));
        Ev e("left"); e.i("x", (long)x).vec("y", ys).vec("oM", m); e.done();
    }
    void right(size_t y, std::vector<size_t> const& xs) {
        std::vector<long> m; if (!ok) return;
        for (size_t i = 0; i < xs.size(); ++i) m.push_back(clip(t.rmq(xs[i], y)));
        Ev e("right"); e.i("y", (long)y).vec("x", xs).vec("oM", m); e.done();
    }
    void pairs(std::vector<std::vector<long> > const& q) {
        std::vector<long> m; if (!ok) return;
        for (size_t i = 0; i < q.size(); ++i) m.push_back(clip(t.rmq((uint64_t)q[i][0], (uint64_t)q[i][1])));
        Ev e("pairs"); e.vecs("q", q).vec("oM", m); e.done();
    }
    std::vector<size_t> stride_up(size_t x, size_t st) { std::vector<size_t> r; for (size_t y = x; y < n(); y += 1 + rng.below(st)) r.push_back(y); if (r.back() != n() - 1) r.push_back(n() - 1); return r; }
    std::vector<size_t> stride_down(size_t y, size_t st) { std::vector<size_t> r; size_t x = y; while (true) { r.push_back(x); size_t d = 1 + rng.below(st); if (x < d) break; x -= d; } if (r.back() != 0) r.push_back(0); return r; }
};

static void all(Seq const& p, int how) {
    S::cartesian_tree t; make(p, how, t);
    std::vector<std::vector<long> > m;
    if (t.size() == p.size()) for (size_t x = 0; x < p.size(); ++x) {
        m.push_back(std::vector<long>());
        for (size_t y = x; y < p.size(); ++y) m.back().push_back(clip(t.rmq(x, y)));
    }
    Ev e("all"); e.vec("p", p).i("how", how % HOWS).u("oN", t.size()).vecs("oM", m); e.done();
}

static void big(Seq const& p, int how, int sweeps, size_t st) {
    Run t; t.begin(p, how);
    for (int i = 0; i < sweeps; ++i) {
        size_t a = i == 0 ? 0 : rng.below(t.n()), b = i == 0 ? t.n() - 1 : rng.below(t.n());
        t.left(a, t.stride_up(a, st));
        t.right(b, t.stride_down(b, st));
    }
    std::vector<std::vector<long> > q;
    for (int i = 0; i < 60; ++i) { // short and medium ranges
        size_t a = rng.below(t.n()), w = rng.below((size_t)1 << rng.below(13)), b = std::min(t.n() - 1, a + w);
        q.push_back({(long)a, (long)b});
    }
    t.pairs(q);
}

// billions of elements in runs; long runs descend, so that the builder's stack stays small
struct ValRuns : RunPos {
    std::vector<long> k, v;
    void add(long kind, uint64_t l, long first) { // first: rank of the first element
        while (l) { uint64_t t = std::min<uint64_t>(l, MAXRUN); put_len(t); k.push_back(kind); v.push_back(first); first += kind * (long)t; l -= t; }
    }
    void jag(int runs, long lo, long hi) {
        for (int i = 0; i < runs; ++i) { uint64_t l = 1 + rng.below(rng.chance(1, 8) ? 9000 : rng.chance(1, 3) ? 3 : 130); add((long)rng.below(3) - 1, l, lo + (long)rng.below((uint64_t)(hi - lo))); }
    }
};
static void huge(uint64_t n, int probes) {
    ValRuns r; std::vector<uint64_t> at;
    const long TOP = 2000000000L;
    for (int e = 29; e < 32; ++e) { at.push_back((1ULL << e) - 3000); at.push_back((1ULL << e) + 3000); at.push_back((1ULL << e) - (1ULL << 14)); }
    for (int i = 0; i < 8; ++i) at.push_back(rng.below(n));
    std::sort(at.begin(), at.end());
    for (size_t i = 0; i < at.size() && at[i] < n; ++i) {
        if (at[i] > r.n()) { // down to a low that may be above or below the earlier ones
            uint64_t l = at[i] - r.n(); long low = -(long)rng.below(1000000000) + 500000000;
            if (low + (long)l > TOP) low = TOP - (long)l;
            r.add(-1, l, low + (long)l);
        }
        r.jag(60, rng.chance(1, 2) ? -1500000000 : 0, rng.chance(1, 2) ? -1000000000 : 1500000000);
    }
    if (n > r.n()) r.add(-1, n - r.n(), 500000000);
    n = r.n();
    S::cartesian_tree t;
    {
        S::cartesian_tree::builder<int32_t> b(n); std::less<int32_t> less;
        for (size_t s = 0; s < r.k.size(); ++s) { int32_t x = (int32_t)r.v[s]; for (long j = 0; j < r.len[s]; ++j, x += (int32_t)r.k[s]) b.push_back(x, less); }
        S::cartesian_tree(&b).swap(t);
    }
    { Ev e("hb"); e.vec("k", r.k).vec("len", r.len).vec("v", r.v).Ls("st", r.st).L("oN", t.size()); e.done(); }
    std::vector<uint64_t> q = r.probes((size_t)probes), x, y, m; std::vector<std::vector<long> > xp, yp, mp;
    for (int i = 0; i < probes; ++i) {
        uint64_t a, b; r.range(q, i, n - 1, a, b);
        uint64_t w = t.rmq(a, b);
        x.push_back(a); y.push_back(b); m.push_back(w);
        xp.push_back(r.where(a)); yp.push_back(r.where(b)); mp.push_back(r.where(w));
    }
    Ev e("hm"); e.Ls("x", x).vecs("xp", xp).Ls("y", y).vecs("yp", yp).Ls("oM", m).vecs("oP", mp); e.done();
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    int how = 0;
    if (args.mode == "huge") {
        for (int i = 0; i < (T ? 6 : 2); ++i) if (scenario("huge")) huge(i & 1 ? (1ULL << 31) + (1ULL << 21) + 77 : (1ULL << 30) + (1ULL << 28) + rng.below(1000000), T ? 4000 : 1000);
        finish(); return 0;
    }
    for (size_t n = 0; n <= (T ? 7u : 6u); ++n) {
        if (n < 6) { if (scenario("orders-" + std::to_string(n))) { if (n == 0) all(Seq(), 0), all(Seq(), 4), all(Seq(), 5); else weak_orders(n, [&](Seq const& p) { all(p, how++); }); } }
        else for (int part = 0; part < 8; ++part) if (scenario("orders-" + std::to_string(n))) { int k = 0; weak_orders(n, [&](Seq const& p) { if (k++ % 8 == part) all(p, how++); }); }
    }
    for (size_t n = 7; n <= (T ? 220u : 150u); ++n) if (scenario("len")) all(seq_make(n, (int)rng.below(SEQ_SHAPES), rng), (int)rng.below(HOWS));
    // sizes at which the parentheses fill whole words and blocks
    static const size_t edge[] = {30, 31, 32, 62, 63, 64, 65, 94, 95, 96, 126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 1022, 1023, 1024};
    for (size_t k = 0; k < sizeof(edge) / sizeof(*edge); ++k) for (int s = 0; s < SEQ_SHAPES; ++s) if (scenario("edge")) {
        Run t; t.begin(seq_make(edge[k], s, rng), (int)(k + (size_t)s));
        for (int i = 0; i < 8; ++i) { size_t a = i ? rng.below(t.n()) : 0, b = i ? rng.below(t.n()) : t.n() - 1; t.left(a, t.stride_up(a, 2)); t.right(b, t.stride_down(b, 2)); }
    }
    for (int s = 0; s < SEQ_SHAPES; ++s) for (int i = 0; i < (T ? 10 : 4); ++i) if (scenario(std::string("shape-") + seq_shape_name(s)))
        big(seq_make(2000 + rng.below(4000), s, rng), (int)rng.below(HOWS), 5, 30);
    static const size_t sb[] = {4094, 4095, 4096, 8190, 8191, 8192, 12287, 12288, 16383, 16384, 20479, 24575, 28671, 32767, 36863, 40959};
    for (size_t k = 0; k < sizeof(sb) / sizeof(*sb); ++k) for (int d = 0; d < (T ? 10 : 4); ++d) if (scenario("blocks")) {
        static const int sh[] = {0, 13, 12, 2, 6, 4, 9, 11, 10, 3};
        big(seq_make(sb[k] - rng.below(2) * rng.below(4000), sh[(k * 3 + (size_t)d) % 10], rng), (int)rng.below(HOWS), 2, 150);
    }
    for (int i = 0; i < (T ? 14 : 6); ++i) if (scenario("large")) {
        static const int sh[] = {13, 0, 6, 12, 1, 2, 11, 10, 5, 4, 9, 8, 3, 7};
        big(seq_make(T ? 300000 + rng.below(5000) : 70000 + rng.below(40000), sh[i], rng), (int)rng.below(HOWS), 3, 400);
    }
    finish();
    return 0;
}
