// C12: every integer list kind returns what was stored.
#include "listgen.hpp"
#include "listruns.hpp"
#include <list>
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
#include "succinct/elias_fano_list.hpp"
#include "succinct/nibble_vector.hpp"
#include "succinct/mappable_vector.hpp"
using namespace vf;
namespace S = succinct;
namespace M = succinct::mapper;

template <class L> static void report(const char* kind, L const& l, U64s const& v, long sumkind, uint64_t sum) {
    U64s o, o2; std::vector<long> ix;
    if (l.size() == v.size()) {
        for (size_t i = 0; i < v.size(); ++i) o.push_back((uint64_t)l[i]);
        for (size_t i = 0; i < v.size() && i < 40; ++i) { size_t j = rng.below(v.size()); ix.push_back((long)j); o2.push_back((uint64_t)l[j]); }
    }
    Ev e("list"); e.str("kind", kind).Ls("v", v).L("oN", l.size()).Ls("oV", o).vec("ix", ix).Ls("oW", o2).i("sk", sumkind).L("oSum", sum);
    if (sumkind) { U64s s; uint64_t t = 0; for (size_t i = 0; i < v.size(); ++i) s.push_back(t += v[i]); e.Ls("s", s); }
    e.done();
}
template <class L, class R> static void one(const char* kind, R const& r, U64s const& v) {
    L l(r);
    if (rng.chance(1, 5)) { L k; k.swap(l); report(kind, k, v, 0, 0); } else report(kind, l, v, 0, 0);
}

// 0 gamma, 1 gamma+bit, 2 compressed, 3 prefix sums, 4 nibble, 5.. mapped vectors
static const int KINDS = 9;
static uint64_t maxof(int kind) {
    switch (kind) { case 0: case 2: return ~0ULL - 1; case 1: return ~0ULL - 2; case 3: return ~0ULL - 1; case 4: return 15; case 5: return ~0ULL; case 6: return 255; case 7: return 65535; default: return 0xFFFFFFFFULL; }
}
template <class R> static void build(int kind, R const& r, U64s const& v) {
    switch (kind) {
    case 0: one<S::gamma_vector>("gamma", r, v); break;
    case 1: one<S::gamma_bit_vector>("gammabit", r, v); break;
    case 2: one<S::elias_fano_compressed_list>("efc", r, v); break;
    case 3: { S::elias_fano_list l(r); report("efl", l, v, 1, l.sum()); break; }
    case 4: one<S::nibble_vector>("nibble", r, v); break;
    case 5: one<M::mappable_vector<uint64_t> >("v64", r, v); break;
    case 6: one<M::mappable_vector<uint8_t> >("v8", r, v); break;
    case 7: one<M::mappable_vector<uint16_t> >("v16", r, v); break;
    case 8: one<M::mappable_vector<uint32_t> >("v32", r, v); break;
    }
}
static void go(int kind, U64s v) {
    if (kind == 3) {
        v = list_sum(v, maxof(3));
        if (!v.empty() && rng.chance(1, 3)) { uint64_t t = 0; for (size_t i = 0; i < v.size(); ++i) t += v[i]; v[rng.below(v.size())] += ~0ULL - 1 - t; } // the largest total
    }
    uint64_t mx = 0; for (size_t i = 0; i < v.size(); ++i) mx = std::max(mx, v[i]);
    // ranges of other element types
    switch (rng.below(6)) {
    case 0: { std::list<uint64_t> r(v.begin(), v.end()); build(kind, r, v); break; }
    case 1: if (mx <= 0xFFFFFFFFULL) { std::vector<uint32_t> r(v.begin(), v.end()); build(kind, r, v); break; } // fallthrough
    case 2: if (mx <= 0x7FFFFFFFULL) { std::vector<int> r(v.begin(), v.end()); build(kind, r, v); break; } // fallthrough
    case 3: if (mx <= 255) { std::vector<uint8_t> r(v.begin(), v.end()); build(kind, r, v); break; } // fallthrough
    default: build(kind, v, v);
    }
}

// lists of billions of integers
template <class L> static uint64_t total(L const&) { return 0; }
static uint64_t total(S::elias_fano_list const& l) { return l.sum(); }
template <class L> static void huge(const char* kind, ListRuns const& r, bool sumkind, size_t probes) {
    L l0(r), l; l.swap(l0);
    bool ok = l.size() == r.n();
    { Ev e("hlist"); e.str("kind", kind); r.head(e); e.L("oN", l.size()).i("sk", sumkind).L("oSum", total(l)); if (sumkind) e.Ls("s", r.sums()); e.done(); }
    if (!ok) return;
    std::vector<uint64_t> q = r.probes(probes), ix, o; std::vector<std::vector<long> > ip;
    for (size_t i = 0; i < q.size(); ++i) if (q[i] < r.n()) { ix.push_back(q[i]); ip.push_back(r.where(q[i])); o.push_back((uint64_t)l[q[i]]); }
    Ev e("hget"); e.Ls("i", ix).vecs("ip", ip).Ls("oV", o); e.done();
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        size_t Q = T ? 6000 : 1500; uint64_t const B32 = (1ULL << 32) + (1 << 20);
        if (scenario("huge-gamma")) huge<S::gamma_vector>("gamma", list_runs(B32 + rng.below(99999), 1, maxof(0)), false, Q);
        if (scenario("huge-gammabit")) huge<S::gamma_bit_vector>("gammabit", list_runs(B32 + rng.below(99999), 2, maxof(1)), false, Q);
        if (scenario("huge-sums")) huge<S::elias_fano_list>("efl", list_runs_sum((T ? B32 : (1ULL << 31) + (1 << 20)) + rng.below(99999), 2, 1ULL << 40), true, Q);
        if (scenario("huge-nibble")) huge<S::nibble_vector>("nibble", list_runs(B32 + rng.below(99999), 15, 15), false, Q);
        if (scenario("huge-v8")) huge<M::mappable_vector<uint8_t> >("v8", list_runs(B32 + rng.below(99999), 255, 255), false, Q);
        if (scenario("huge-compressed-long")) huge<S::elias_fano_compressed_list>("efc", list_runs((1ULL << 27) + rng.below(99999), ~0ULL >> 25, maxof(2)), false, Q);
        if (scenario("huge-gamma-long")) huge<S::gamma_vector>("gamma", list_runs(3 * (1ULL << 25) + rng.below(99999), ~0ULL - 1, maxof(0)), false, Q);
        if (scenario("huge-compressed")) huge<S::elias_fano_compressed_list>("efc", list_runs((T ? B32 : (1ULL << 31) + (1 << 20)) + rng.below(99999), 6, maxof(2)), false, Q);
        finish(); return 0;
    }
    // all lists over a tiny alphabet
    for (int kind = 0; kind < KINDS; ++kind) if (scenario("tiny")) for (size_t n = 0; n <= 4; ++n) {
        U64s v(n, 0); while (true) { go(kind, v); size_t i = 0; while (i < n && v[i] == 3) v[i++] = 0; if (i == n) break; ++v[i]; }
    }
    // one value of every length, at every place of a short list
    for (int kind = 0; kind < KINDS; ++kind) if (scenario("single")) {
        for (int b = 0; b <= 64; ++b) for (int d = -2; d <= 2; ++d) {
            uint64_t x = (b == 64 ? 0 : (1ULL << b)) + (uint64_t)d; if (x > maxof(kind)) continue;
            U64s v(1, x); go(kind, v);
            U64s w(1 + rng.below(4), rng.below(3)); w[rng.below(w.size())] = x; go(kind, w);
        }
    }
    // the largest value of each element type a range may have
    for (int kind = 0; kind < KINDS; ++kind) if (scenario("typemax")) {
        static const uint64_t tm[] = {0xFFFFFFFFULL, 0xFFFFFFFEULL, 0x7FFFFFFFULL, 0x7FFFFFFEULL, 255, 254, 65535};
        for (size_t k = 0; k < 7; ++k) if (tm[k] <= maxof(kind)) { U64s v; for (int i = 0; i < 9; ++i) v.push_back(i % 3 ? rng.below(9) : tm[k]);
            if (tm[k] <= 0x7FFFFFFFULL) { std::vector<int32_t> r(v.begin(), v.end()); build(kind, r, v); }
            if (tm[k] <= 0xFFFFFFFFULL) { std::vector<uint32_t> r(v.begin(), v.end()); build(kind, r, v); }
            if (tm[k] <= 65535) { std::vector<uint16_t> r(v.begin(), v.end()); build(kind, r, v); }
            if (tm[k] <= 255) { std::vector<uint8_t> r(v.begin(), v.end()); build(kind, r, v); }
        }
    }
    for (int kind = 0; kind < KINDS; ++kind) for (size_t n = 5; n <= (T ? 270u : 135u); n += (kind < 4 ? 1 : 3)) if (scenario("len"))
        go(kind, list_make(n, maxof(kind), (int)rng.below(LIST_SHAPES), rng));
    for (int kind = 0; kind < KINDS; ++kind) for (int s = 0; s < LIST_SHAPES; ++s) for (int k = 0; k < (T ? 4 : 1); ++k) if (scenario("shape"))
        go(kind, list_make(300 + rng.below(2500), maxof(kind), s, rng));
    static const size_t edge[] = {1022, 1023, 1024, 1025, 2047, 2048, 2049, 3071, 3072, 4095, 4096};
    for (int kind = 0; kind < 5; ++kind) for (size_t k = 0; k < sizeof(edge) / sizeof(*edge); ++k) if (scenario("edge"))
        go(kind, list_make(edge[k], maxof(kind), (int)rng.below(LIST_SHAPES), rng));
    for (int kind = 0; kind < 5; ++kind) for (int i = 0; i < (T ? 11 : 4); ++i) if (scenario("large"))
        go(kind, list_make(20000 + rng.below(T ? 100000 : 15000), maxof(kind), i == 0 ? 0 : i == 1 ? 6 : i == 2 ? 9 : i, rng));
    finish();
    return 0;
}
