// C10: Elias-Fano random access.
#include "efgen.hpp"
#include "efruns.hpp"
#include "succinct/elias_fano.hpp"
using namespace vf;
namespace S = succinct;

static const int HOWS = 4; // 0 bit vector, 1 builder, 2 builder without rank index, 3 builder with room to spare
static bool make(uint64_t n, U64s const& v, int how, S::elias_fano& ef) {
    if (how == 0) {
        if (n > 4000000) return false;
        for (size_t i = 1; i < v.size(); ++i) if (v[i] == v[i - 1]) return false;
        S::bit_vector_builder bb(n); for (size_t i = 0; i < v.size(); ++i) bb.set(v[i], 1);
        S::elias_fano(&bb).swap(ef); return true;
    }
    S::elias_fano::elias_fano_builder b(n, v.size() + (how == 3 ? 7 : 0));
    for (size_t i = 0; i < v.size(); ++i) b.push_back(v[i]);
    S::elias_fano(&b, how != 2).swap(ef);
    return true;
}

static void go(uint64_t n, U64s const& v, int how, bool every = false, size_t nq = 300) {
    S::elias_fano ef;
    if (!make(n, v, how, ef)) { how = 1; make(n, v, how, ef); }
    U64s sel, del, ra, rb;
    size_t m = v.size();
    if (ef.num_ones() == m && ef.size() == n) {
        for (size_t k = 0; k < m; ++k) { sel.push_back(ef.select(k)); del.push_back(ef.delta(k)); }
        for (size_t k = 0; k + 1 < m; ++k) { std::pair<uint64_t, uint64_t> p = ef.select_range(k); ra.push_back(p.first); rb.push_back(p.second); }
    }
    { Ev e("ef"); e.L("n", n).Ls("v", v).i("how", how).L("oN", ef.size()).L("oM", ef.num_ones()).Ls("oSel", sel).Ls("oDel", del).Ls("oRa", ra).Ls("oRb", rb); e.done(); }
    if (how == 2 || ef.num_ones() != m || ef.size() != n) return;
    // positions to ask about
    std::vector<uint64_t> q;
    if (every) for (uint64_t i = 0; i < n; ++i) q.push_back(i);
    else {
        for (size_t i = 0; i < nq; ++i) {
            uint64_t x = m && rng.chance(2, 3) ? v[rng.below(m)] + rng.below(5) - 2 : below64(rng, n);
            if (x < n) q.push_back(x);
        }
        if (n) { q.push_back(0); q.push_back(n - 1); }
    }
    std::vector<long> rk, rk1, has; U64s pr, su; std::vector<long> hp, hs;
    for (size_t i = 0; i < q.size(); ++i) {
        uint64_t x = q[i];
        rk.push_back(clip(ef.rank(x))); rk1.push_back(clip(ef.rank(x + 1))); has.push_back(ef[x]);
        bool p = m && v[0] <= x, s = m && v[m - 1] >= x;
        hp.push_back(p); pr.push_back(p ? ef.predecessor1(x) : 0);
        hs.push_back(s); su.push_back(s ? ef.successor1(x) : 0);
    }
    Ev e("at"); e.Ls("x", q).vec("oRk", rk).vec("oRk1", rk1).vec("oHas", has).vec("hp", hp).Ls("oPred", pr).vec("hs", hs).Ls("oSucc", su).i("oEnd", clip(ef.rank(n)));
    e.done();
}

// lists of billions of values
static void huge(EfRuns const& r, uint64_t n, bool bits, size_t probes) {
    S::elias_fano ef; ef_build(r, n, bits, true, ef);
    bool ok = ef.size() == n && ef.num_ones() == r.n();
    { Ev e("hl"); r.head(e); e.L("n", n).L("oN", ef.size()).L("oM", ef.num_ones()); e.done(); }
    if (!ok) return;
    std::vector<uint64_t> q = r.probes(probes), ix, sel, del, ra, rb; std::vector<std::vector<long> > ip;
    for (size_t i = 0; i < q.size(); ++i) if (q[i] + 1 < r.n()) {
        uint64_t k = q[i]; std::pair<uint64_t, uint64_t> p = ef.select_range(k);
        ix.push_back(k); ip.push_back(r.where(k)); sel.push_back(ef.select(k)); del.push_back(ef.delta(k)); ra.push_back(p.first); rb.push_back(p.second);
    }
    { Ev e("hs"); e.Ls("i", ix).vecs("ip", ip).Ls("oSel", sel).Ls("oDel", del).Ls("oRa", ra).Ls("oRb", rb); e.done(); }
    std::vector<uint64_t> x, rk, rk1, pr, su; std::vector<std::vector<long> > rp, rp1; std::vector<long> has, hp, hs;
    for (size_t i = 0; i < q.size(); ++i) {
        uint64_t y = q[i] < r.n() ? r.value(q[i]) : n - 1;
        if (i % 3 == 1) y += rng.below(7) - 3;
        if (i % 7 == 2) y = below64(rng, n);
        if (y >= n) continue;
        x.push_back(y);
        uint64_t a = ef.rank(y), b = ef.rank(y + 1);
        rk.push_back(a); rp.push_back(r.where(a)); rk1.push_back(b); rp1.push_back(r.where(b)); has.push_back(ef[y]);
        bool p = r.value(0) <= y, s = r.value(r.n() - 1) >= y;
        hp.push_back(p); pr.push_back(p ? ef.predecessor1(y) : 0);
        hs.push_back(s); su.push_back(s ? ef.successor1(y) : 0);
    }
    Ev e("ha"); e.Ls("x", x).Ls("oRk", rk).vecs("rp", rp).Ls("oRk1", rk1).vecs("rp1", rp1).vec("oHas", has).vec("hp", hp).Ls("oPred", pr).vec("hs", hs).Ls("oSucc", su).L("oEnd", ef.rank(n));
    e.done();
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        uint64_t n;
        if (scenario("huge-dense")) { EfRuns r = ef_runs_dense((1ULL << 31) + (1 << 20) + rng.below(99999), n); huge(r, n, true, T ? 5000 : 1500); }
        if (scenario("huge-wide")) { EfRuns r = ef_runs_wide((1ULL << 27) + rng.below(99999), 62, n); huge(r, n, false, T ? 5000 : 1500); }
        if (scenario("huge-mid")) { EfRuns r = ef_runs_wide((1ULL << 29) + rng.below(99999), 40, n); huge(r, n, false, T ? 5000 : 1500); }
        if (scenario("huge-dense32")) { EfRuns r = ef_runs_dense((1ULL << 32) + (1 << 20) + rng.below(99999), n); huge(r, n, true, T ? 5000 : 1500); }
        finish(); return 0;
    }
    // every set of positions of a small universe; every multiset of at most 4 values below 5
    for (uint64_t n = 0; n <= (T ? 10u : 8u); ++n) if (scenario("sets-" + std::to_string(n)))
        for (unsigned b = 0; b < (1u << n); ++b) { U64s v; for (unsigned i = 0; i < n; ++i) if (b >> i & 1) v.push_back(i); go(n, v, (int)(b % 2), true); }
    for (uint64_t n = 1; n <= 5; ++n) if (scenario("multisets-" + std::to_string(n)))
        for (uint64_t m = 0; m <= 4; ++m) { U64s v(m, 0); while (true) { go(n, v, 1 + (int)rng.below(3), true); size_t i = m; while (i > 0 && v[i - 1] == n - 1) --i; if (!i) break; uint64_t x = v[i - 1] + 1; for (size_t j = i - 1; j < m; ++j) v[j] = x; } }
    // every universe size, moderate
    for (uint64_t n = 9; n <= (T ? 300u : 140u); ++n) if (scenario("len")) for (int k = 0; k < 3; ++k) {
        size_t m = rng.below(k == 2 ? 3 * n : n + 1);
        U64s v = ef_make(n, m, (int)rng.below(EF_SHAPES), rng);
        if (k == 0) v.erase(std::unique(v.begin(), v.end()), v.end());
        go(n, v, k == 0 ? 0 : 1 + (int)rng.below(3), true);
    }
    // every number of low bits, every shape
    for (int lb = 1; lb <= 64; ++lb) for (int s = 0; s < EF_SHAPES; ++s) if (scenario("low-" + std::to_string(lb)))
        for (int k = 0; k < 2; ++k) {
            static const size_t ms[] = {1, 2, 3, 5, 16, 17, 33, 64, 100, 300};
            size_t m = ms[rng.below(10)];
            uint64_t n = lb == 64 ? ~0ULL - rng.below(2) * rng.below(1000) : (1ULL << lb) + (k ? rng.below(1ULL << lb) : rng.below(3) - 1);
            if (n == 0) n = 1;
            go(n, ef_make(n, m, s, rng), 1 + (int)rng.below(3), false, 60);
        }
    // exactly each low width 0..63: n / m in [2^l, 2^(l+1))
    for (int lw = 0; lw <= 63; ++lw) if (scenario("width-" + std::to_string(lw))) {
        static const size_t ms[] = {1, 1, 2, 3, 5, 16, 33, 64, 65, 129, 300};
        for (size_t k = 0; k < 11; ++k) for (int s = 0; s < (k < 4 ? EF_SHAPES : 2); ++s) {
            size_t m = ms[k];
            unsigned __int128 big = (unsigned __int128)m * ((1ULL << lw) + (k % 2 ? below64(rng, 1ULL << lw) : rng.below(2) * ((1ULL << lw) - 1)));
            if (big >> 64) continue;
            go((uint64_t)big, ef_make((uint64_t)big, m, k < 4 ? s : (int)rng.below(EF_SHAPES) * s, rng), 1 + (int)rng.below(3), false, 40);
        }
    }
    // larger ones
    for (int i = 0; i < (T ? 120 : 36); ++i) if (scenario("mid")) {
        size_t m = 500 + rng.below(T ? 9000 : 3000);
        uint64_t n = i % 4 == 0 ? m / 2 + 1 : 1 + (rng.next() >> rng.below(50));
        go(n, ef_make(n, m, i, rng), 1 + (int)rng.below(3), false, 400);
    }
    for (int i = 0; i < (T ? 24 : 8); ++i) if (scenario("bits")) {
        size_t n = 20000 + rng.below(400000), m = 10 + rng.below(i % 2 ? 200 : 9000);
        U64s v = ef_make(n, m, i % 3 == 2 ? 8 : i % 3, rng); v.erase(std::unique(v.begin(), v.end()), v.end());
        go(n, v, 0, false, 500);
    }
    for (int i = 0; i < (T ? 16 : 6); ++i) if (scenario("large")) {
        size_t m = 40000 + rng.below(T ? 100000 : 20000);
        uint64_t n = i % 3 == 0 ? m * 3 : i % 3 == 1 ? 1 + (rng.next() >> 3) : ~0ULL;
        U64s v;
        if (i % 2) { // a long run of zeros in the high part: select over it is sparse
            size_t c = 300 + rng.below(900); v = ef_make(n, c, 2, rng); U64s w = ef_make(n, m - c, 1, rng); v.insert(v.end(), w.begin(), w.end()); std::sort(v.begin(), v.end());
        } else v = ef_make(n, m, i, rng);
        go(n, v, 1, false, 1500);
    }
    finish();
    return 0;
}
