// C04: rank and select on rs_bit_vector: complete answer tables for every hint
// combination, and sparse probes on vectors longer than 2^32 bits.
#include "gen.hpp"
#include "succinct/rs_bit_vector.hpp"
#include "succinct/mapper.hpp"
using namespace vf;
namespace S = succinct;

struct Ans {
    std::vector<long> rank, rank0, sel, sel0, acc;
    long ones, zeros, size;
    bool operator==(Ans const& o) const {
        return rank == o.rank && rank0 == o.rank0 && sel == o.sel && sel0 == o.sel0
            && acc == o.acc && ones == o.ones && zeros == o.zeros && size == o.size;
    }
};

static void ask(S::rs_bit_vector const& v, BV const& b, Ans& a) {
    size_t n = b.size(), ones = 0;
    for (size_t i = 0; i < n; ++i) ones += b[i];
    a.size = clip(v.size()); a.ones = clip(v.num_ones()); a.zeros = clip(v.num_zeros());
    if (v.size() != n || v.num_ones() != ones) return; // further calls would break preconditions
    for (size_t i = 0; i <= n; ++i) { a.rank.push_back(clip(v.rank(i))); a.rank0.push_back(clip(v.rank0(i))); }
    for (size_t i = 0; i < n; ++i) a.acc.push_back(v[i]);
    for (size_t k = 0; k < ones; ++k) a.sel.push_back(clip(v.select(k)));
    for (size_t k = 0; k < n - ones; ++k) a.sel0.push_back(clip(v.select0(k)));
}

static void tables(BV const& b, bool from_builder) {
    std::vector<Ans> seen; std::vector<std::vector<int> > who;
    for (int h = 0; h < 4; ++h) {
        Ans a;
        if (from_builder) {
            S::bit_vector_builder bb;
            for (size_t i = 0; i < b.size(); ++i) bb.push_back(b[i]);
            S::rs_bit_vector v(&bb, h & 1, h & 2);
            ask(v, b, a);
        } else {
            S::rs_bit_vector v(b, h & 1, h & 2);
            ask(v, b, a);
        }
        size_t k = 0;
        for (; k < seen.size(); ++k) if (seen[k] == a) break;
        if (k == seen.size()) { seen.push_back(a); who.push_back(std::vector<int>()); }
        who[k].push_back(h);
    }
    for (size_t k = 0; k < seen.size(); ++k) {
        Ans const& a = seen[k];
        Ev e("rs");
        e.vec("b", b).vec("h", who[k]).i("oSize", a.size).i("oOnes", a.ones).i("oZeros", a.zeros)
         .vec("oRank", a.rank).vec("oRank0", a.rank0).vec("oSel", a.sel).vec("oSel0", a.sel0).vec("oAcc", a.acc);
        e.done();
    }
}

// v is the rare bit value; p its positions
static void huge(uint64_t n, bool v, std::vector<uint64_t> p, int hints) {
    S::bit_vector_builder bb(n, !v);
    for (size_t i = 0; i < p.size(); ++i) bb.set(p[i], v);
    S::rs_bit_vector rs(&bb, hints & 1, hints & 2);
    { Ev e("hb"); e.L("n", n).i("v", v).Ls("p", p).L("oSize", rs.size()).L("oOnes", rs.num_ones()).L("oZeros", rs.num_zeros()); e.done(); }
    std::vector<uint64_t> qs;
    for (size_t i = 0; i < p.size(); ++i) for (int d = -1; d <= 1; ++d) if (p[i] + (uint64_t)d <= n) qs.push_back(p[i] + (uint64_t)d);
    for (int e = 20; e < 34; ++e) for (int d = -1; d <= 1; ++d) { uint64_t q = (1ULL << e) + (uint64_t)(long)d; if (q <= n) qs.push_back(q); }
    for (int i = 0; i < 200; ++i) qs.push_back(rng.below(n + 1));
    qs.push_back(0); qs.push_back(n);
    std::vector<uint64_t> r, r0;
    std::vector<long> w; // how many rare positions lie before q (the spec checks it)
    for (size_t i = 0; i < qs.size(); ++i) {
        r.push_back(rs.rank(qs[i])); r0.push_back(rs.rank0(qs[i]));
        w.push_back(std::lower_bound(p.begin(), p.end(), qs[i]) - p.begin());
    }
    { Ev e("hr"); e.Ls("q", qs).vec("w", w).Ls("oR", r).Ls("oR0", r0); e.done(); }
    std::vector<uint64_t> s;
    for (size_t k = 0; k < p.size(); ++k) s.push_back(v ? rs.select(k) : rs.select0(k));
    { Ev e("hs"); e.Ls("oS", s); e.done(); }
    // the common value: k-th occurrence
    std::vector<uint64_t> ks, c; std::vector<long> wc;
    uint64_t m = n - p.size();
    for (size_t i = 0; i < qs.size(); ++i) if (qs[i] < m) ks.push_back(qs[i]);
    if (m) ks.push_back(m - 1);
    for (size_t i = 0; i < p.size(); ++i) ks.push_back(p[i] - i > 0 ? p[i] - i - 1 : 0), ks.push_back(std::min(p[i] - i, m - 1));
    for (size_t i = 0; i < ks.size(); ++i) {
        uint64_t x = v ? rs.select0(ks[i]) : rs.select(ks[i]);
        c.push_back(x);
        wc.push_back(std::lower_bound(p.begin(), p.end(), x) - p.begin());
    }
    { Ev e("hc"); e.Ls("k", ks).vec("w", wc).Ls("oC", c); e.done(); }
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        uint64_t n = (1ULL << 32) + (1ULL << 20) + 77;
        for (int v = 0; v < 2; ++v) if (scenario(v ? "huge-sparse" : "huge-dense")) {
            std::vector<uint64_t> p;
            for (int e = 10; e < 33; ++e) { p.push_back((1ULL << e) - 1); p.push_back(1ULL << e); }
            for (int i = 0; i < 100; ++i) p.push_back(rng.below(n));
            for (int i = 0; i < 50; ++i) p.push_back((1ULL << 32) - 25 + (uint64_t)i);
            p.push_back(0); p.push_back(n - 1);
            std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
            huge(n, v, p, 3);
        }
        finish(); return 0;
    }
    // the smallest vectors, exhaustively
    for (size_t n = 0; n <= (T ? 11u : 9u); ++n) if (scenario("all-" + std::to_string(n)))
        for (unsigned m = 0; m < (1u << n); ++m) {
            BV b(n); for (size_t i = 0; i < n; ++i) b[i] = (m >> i) & 1;
            tables(b, m & 1);
        }
    // every length over a few blocks
    for (size_t n = 10; n <= (T ? 2200u : 1300u); n += 1) if (scenario("len-" + std::to_string(n)))
        tables(fill(n, rng.below(STYLES), rng), n & 1);
    // lengths around the structure's boundaries, every style
    size_t base[] = {64, 128, 448, 512, 576, 1024, 1536, 2048, 4096, 8192, 10240, 16384};
    for (size_t bi = 0; bi < sizeof(base) / sizeof(*base); ++bi) for (int d = -1; d <= 1; ++d) for (int s = 0; s < STYLES; ++s)
        if (scenario("edge")) tables(fill(base[bi] + (size_t)d, s, rng), rng.next() & 1);
    // exact multiples of the hint interval, in ones and in zeros, followed by a tail
    for (int k = 1; k <= 6; ++k) for (int d = -1; d <= 1; ++d) for (int v = 0; v < 2; ++v) for (int sh = 0; sh < 4; ++sh)
        if (scenario("hint")) {
            BV b;
            size_t want = size_t(k) * 1024 + size_t(d), have = 0;
            uint64_t den = sh == 0 ? 1 : sh == 1 ? 2 : sh == 2 ? 7 : 40;
            while (have < want) { bool one = rng.below(den) == 0; b.push_back(one == (bool)v); have += one; }
            size_t tail = rng.below(4) * 300 + rng.below(3);
            for (size_t i = 0; i < tail; ++i) b.push_back(!v);
            if (rng.chance(1, 2)) for (size_t i = 0; i < 600; ++i) b.push_back(rng.next() & 1);
            tables(b, rng.next() & 1);
        }
    // the hint interval met at a block end, exactly or nearly
    for (int nb = 2; nb <= (T ? 40 : 24); ++nb) for (int d = -1; d <= 1; ++d) for (int v = 0; v < 2; ++v) if (scenario("hint-block")) {
        size_t len = (size_t)nb * 512, k = 1 + rng.below(len / 1024), want = std::min(len, k * 1024 + (size_t)d);
        BV b(len, !v);
        int sh = (int)rng.below(3); // spread; front; back
        if (sh == 0) { size_t left = want; for (size_t i = 0; i < len; ++i) if (rng.below(len - i) < left) { b[i] = v; --left; } }
        else for (size_t i = 0; i < want; ++i) b[sh == 1 ? i : len - 1 - i] = v;
        size_t tail = rng.below(1600); for (size_t i = 0; i < tail; ++i) b.push_back(rng.chance(1, 3) ? !v : v);
        tables(b, rng.next() & 1);
    }
    // large
    for (int i = 0; i < (T ? 60 : 16); ++i) if (scenario("large"))
        tables(fill(20000 + rng.below(T ? 400000 : 60000), i, rng), i & 1);
    for (int i = 0; i < (T ? 8 : 2); ++i) if (scenario("xlarge"))
        tables(fill((i & 1 ? 131072 : 65536) * 2 + rng.below(3) - 1, i % 2 ? 6 : 0, rng), 0);
    finish();
    return 0;
}
