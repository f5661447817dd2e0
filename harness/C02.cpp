// C02: reads of a bit_vector: single bits, fields, words, nearest bits.
#include "gen.hpp"
#include <list>
#include "sparse.hpp"
using namespace vf;
namespace S = succinct;

static void build(S::bit_vector& out, BV const& b, int how) {
    switch (how % 4) {
    case 0: { S::bit_vector v(b); v.swap(out); break; }
    case 1: {
        S::bit_vector_builder bb;
        for (size_t i = 0; i < b.size(); ++i) bb.push_back(b[i]);
        S::bit_vector v(&bb); v.swap(out); break; }
    case 2: {
        std::list<bool> l(b.begin(), b.end());
        S::bit_vector v(l); v.swap(out); break; }
    case 3: {
        S::bit_vector_builder bb(b.size(), true);
        for (size_t i = 0; i < b.size(); ++i) bb.set(i, b[i]);
        S::bit_vector v(&bb); v.swap(out); break; }
    }
}

static void tables(S::bit_vector const& v, BV const& b, int how) {
    size_t n = b.size();
    std::vector<long> acc, p0, p1, s0, s1;
    if (v.size() == n) {
        bool z = false, o = false;
        std::vector<char> z_after(n + 1), o_after(n + 1);
        for (size_t i = n; i-- > 0;) { z_after[i] = z_after[i + 1] || !b[i]; o_after[i] = o_after[i + 1] || b[i]; }
        for (size_t i = 0; i < n; ++i) {
            acc.push_back(v[i]);
            z = z || !b[i]; o = o || b[i];
            p0.push_back(z ? clip(v.predecessor0(i)) : NA);
            p1.push_back(o ? clip(v.predecessor1(i)) : NA);
            s0.push_back(z_after[i] ? clip(v.successor0(i)) : NA);
            s1.push_back(o_after[i] ? clip(v.successor1(i)) : NA);
        }
    }
    Ev e("bv");
    e.vec("b", b).i("how", how).u("oSize", v.size()).vec("oAcc", acc).vec("oP0", p0).vec("oP1", p1).vec("oS0", s0).vec("oS1", s1);
    e.done();
}

static void words(S::bit_vector const& v, BV const& b) {
    std::vector<uint64_t> w, w56;
    if (v.size() == b.size()) for (size_t i = 0; i < b.size(); ++i) {
        w.push_back(v.get_word(i));
        // only where eight whole bytes are stored
        if (i / 8 + 8 <= (b.size() + 63) / 64 * 8) w56.push_back(v.get_word56(i) & ((1ULL << 56) - 1));
    }
    Ev e("words"); e.vec("b", b).Qs("oW", w).Qs("oW56", w56); e.done();
}

// all lengths at the given positions
static void fields(S::bit_vector const& v, BV const& b, std::vector<size_t> const& pos) {
    std::vector<std::vector<long> > q; std::vector<uint64_t> f;
    if (v.size() == b.size()) for (size_t i = 0; i < pos.size(); ++i) for (size_t len = 0; len <= 64 && pos[i] + len <= b.size(); ++len) {
        q.push_back({(long)pos[i], (long)len});
        f.push_back(v.get_bits(pos[i], len));
    }
    Ev e("flds"); e.vec("b", b).vecs("q", q).Qs("oF", f); e.done();
}

// billions of bits
static void huge(int v, int probes) {
    Sparse s = Sparse::make(v, 12); S::bit_vector b; s.build(b);
    { Ev e("hb"); s.head(e); e.L("oSize", b.size()); e.done(); }
    std::vector<uint64_t> q = s.probes((size_t)probes); std::vector<long> w, x;
    for (size_t i = 0; i < q.size(); ++i) { w.push_back(s.before(q[i])); x.push_back(b[q[i]]); }
    { Ev e("hbit"); e.Ls("q", q).vec("w", w).vec("oV", x); e.done(); }
    for (int d = 0; d < 2; ++d) for (int y = 0; y < 2; ++y) {
        std::vector<uint64_t> qq, c; std::vector<long> ww, wc;
        // far answers scan many words: ask for few of them
        for (size_t i = 0; i < q.size(); ++i) {
            if (d == 0 ? !s.any_upto(q[i], y) : !s.count_from(q[i], y)) continue;
            uint64_t a = d == 0 ? (y ? b.predecessor1(q[i]) : b.predecessor0(q[i])) : (y ? b.successor1(q[i]) : b.successor0(q[i]));
            qq.push_back(q[i]); ww.push_back(s.before(q[i])); c.push_back(a); wc.push_back(s.before(a));
        }
        Ev e(d == 0 ? "hpred" : "hsucc"); e.i("x", y).Ls("q", qq).vec("w", ww).Ls("oC", c).vec("wc", wc); e.done();
    }
    for (int what = 0; what < 3; ++what) {
        std::vector<uint64_t> qq, f; std::vector<long> ww, len;
        for (size_t i = 0; i < q.size(); ++i) {
            uint64_t l = what == 0 ? rng.below(std::min<uint64_t>(64, s.n - q[i]) + 1) : what == 1 ? 64 : 56;
            if (what == 2 && q[i] / 8 + 8 > (s.n + 63) / 64 * 8) continue;
            uint64_t a = what == 0 ? b.get_bits(q[i], l) : what == 1 ? b.get_word(q[i]) : b.get_word56(q[i]) & ((1ULL << 56) - 1);
            qq.push_back(q[i]); ww.push_back(s.before(q[i])); len.push_back((long)l); f.push_back(a);
        }
        Ev e("hfld"); e.str("what", what == 0 ? "get_bits" : what == 1 ? "get_word" : "get_word56").Ls("q", qq).vec("w", ww).vec("len", len).Qs("oF", f); e.done();
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        for (int v = 0; v < 2; ++v) for (int i = 0; i < (T ? 4 : 1); ++i) if (scenario(v ? "huge-sparse" : "huge-dense")) huge(v, T ? 1500 : 300);
        finish(); return 0;
    }
    for (size_t n = 0; n <= (T ? 10u : 8u); ++n) if (scenario("all-" + std::to_string(n)))
        for (unsigned m = 0; m < (1u << n); ++m) {
            BV b(n); for (size_t i = 0; i < n; ++i) b[i] = (m >> i) & 1;
            for (int how = 0; how < 4; ++how) { S::bit_vector v; build(v, b, how); tables(v, b, how); }
        }
    // every position and every length
    for (size_t n = 9; n <= (T ? 400u : 200u); ++n) if (scenario("len-" + std::to_string(n))) {
        BV b = fill(n, n % 2 ? 0 : (int)rng.below(STYLES), rng);
        int how = (int)rng.below(4);
        S::bit_vector v; build(v, b, how);
        tables(v, b, how); words(v, b);
        std::vector<size_t> pos;
        for (size_t i = 0; i <= n; ++i) if (T || n <= 70 || i % 64 <= 1 || i % 64 >= 62 || rng.chance(1, 6) || i + 2 >= n) pos.push_back(i);
        fields(v, b, pos);
    }
    for (int s = 0; s < STYLES; ++s) for (int k = 0; k < (T ? 12 : 3); ++k) if (scenario(std::string("style-") + style_name(s))) {
        size_t n = 300 + rng.below(T ? 60000 : 9000);
        if (k == 0) n = n / 64 * 64;
        BV b = fill(n, s, rng);
        S::bit_vector v; build(v, b, k); tables(v, b, k);
        BV c(b.begin(), b.begin() + (long)std::min<size_t>(n, 3000));
        S::bit_vector w; build(w, c, k); words(w, c);
        std::vector<size_t> pos; for (int i = 0; i < 60; ++i) pos.push_back(rng.below(n + 1));
        for (size_t i = 0; i < 4; ++i) pos.push_back(n - i);
        fields(v, b, pos);
    }
    // long runs: the nearest bit is many words away, on every offset in the word
    for (int v01 = 0; v01 < 2; ++v01) for (size_t off = 0; off < 64; off += (T ? 1 : 3)) if (scenario("far")) {
        size_t n = 64 * 40 + off + 1 + rng.below(64);
        BV b(n, (unsigned char)!v01);
        b[off] = (unsigned char)v01; b[n - 1 - rng.below(64)] = (unsigned char)v01;
        S::bit_vector v; build(v, b, (int)off); tables(v, b, (int)off);
    }
    finish();
    return 0;
}
