// C06: matching and enclosing parentheses: complete tables.
#include "bpgen.hpp"
#include "bpruns.hpp"
using namespace vf;
namespace S = succinct;

static void tables(BV const& b, int how) {
    size_t n = b.size();
    S::bp_vector v;
    if (how & 4) {
        S::bit_vector_builder bb; for (size_t i = 0; i < n; ++i) bb.push_back(b[i]);
        S::bp_vector w(&bb, how & 1, how & 2); w.swap(v);
    } else { S::bp_vector w(b, how & 1, how & 2); w.swap(v); }
    std::vector<long> up(n, NA), cl(n, NA);
    if (v.size() == n) {
        long depth = 0;
        for (size_t i = 0; i < n; ++i) {
            if (b[i]) { cl[i] = clip(v.find_close(i)); if (depth > 0) up[i] = clip(v.enclose(i)); ++depth; }
            else { --depth; up[i] = clip(v.find_open(i)); }
        }
    }
    Ev e("bp"); e.vec("b", b).i("how", how).u("oN", v.size()).vec("oUp", up).vec("oClose", cl); e.done();
}

// billions of parentheses
static void hprobe(Runs const& r, const char* ev, std::vector<uint64_t> const& q, std::function<uint64_t(uint64_t)> f) {
    std::vector<uint64_t> j; std::vector<std::vector<long> > p, o;
    for (size_t i = 0; i < q.size(); ++i) { uint64_t x = f(q[i]); j.push_back(x); p.push_back(r.where(q[i])); o.push_back(r.where(x)); }
    Ev e(ev); e.Ls("q", q).vecs("p", p).Ls("oJ", j).vecs("oP", o); e.done();
}
static void huge(int shape, int probes) {
    Runs r = runs_make(shape);
    S::bit_vector_builder bb; r.build(bb);
    S::bp_vector v(&bb);
    { Ev e("hb"); r.head(e); e.L("oN", v.size()); e.done(); }
    std::vector<uint64_t> qs = r.probes((size_t)probes), c, o, u;
    for (size_t i = 0; i < qs.size(); ++i) if (qs[i] < r.n()) {
        if (r.opens(qs[i])) { c.push_back(qs[i]); if (r.exc(qs[i]) > 0) u.push_back(qs[i]); }
        else o.push_back(qs[i]);
    }
    hprobe(r, "hc", c, [&](uint64_t p) { return v.find_close(p); });
    hprobe(r, "ho", o, [&](uint64_t p) { return v.find_open(p); });
    hprobe(r, "hu", u, [&](uint64_t p) { return v.enclose(p); });
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        for (int s = 0; s < RUN_SHAPES; ++s) for (int i = 0; i < (T ? 3 : 1); ++i) if (scenario(runs_name(s))) huge(s, T ? 4000 : 900);
        finish(); return 0;
    }
    for (size_t k = 0; k <= (T ? 8u : 7u); ++k) if (scenario("all-" + std::to_string(k)))
        bp_all(k, [&](BV const& b) { if (b.size()) tables(b, (int)rng.below(8)); });
    for (size_t n = 16; n <= (T ? 2400u : 1100u); n += 2) for (int j = 0; j < (T ? 4 : 2); ++j) if (scenario("len"))
        tables(bp_make(n, (int)rng.below(BP_SHAPES), rng.next() & 1), (int)rng.below(8));
    // one very wide or deep pair around everything, partner far away at every offset
    for (size_t k = 0; k < (T ? 130u : 66u); ++k) if (scenario("offset")) {
        BpGen g; size_t pre = rng.below(300); for (size_t i = 0; i < pre; ++i) { g.step(true); g.step(false); }
        size_t d = 1 + rng.below(4); g.up(d);
        size_t fillto = 64 * (1 + rng.below(300)) + k; int mode = (int)rng.below(3);
        if (mode == 0) while (g.b.size() < fillto) { g.step(true); g.step(false); }
        else if (mode == 1) { size_t m = fillto / 2; g.up(m); g.down(m); }
        else g.walk(fillto, g.h, g.h, 8);
        if (rng.next() & 1) g.step(true), g.step(false);
        g.close();
        tables(g.b, (int)rng.below(8));
    }
    for (int s = 0; s < BP_SHAPES; ++s) for (int i = 0; i < (T ? 10 : 3); ++i) if (scenario(std::string("shape-") + bp_shape_name(s)))
        tables(bp_make(4000 + rng.below(30000), s, i & 1), (int)rng.below(8));
    // numbers of superblocks around powers of two
    static const size_t sb[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33};
    for (size_t k = 0; k < sizeof(sb) / sizeof(*sb); ++k) for (int d = -1; d <= 1; ++d) if (scenario("superblocks")) {
        static const int sh[] = {0, 5, 6, 10, 11, 1, 9};
        tables(bp_make(sb[k] * 8192 + (size_t)(d * 2), sh[(k + (size_t)(d + 1)) % 7], rng.next() & 1), (int)rng.below(8));
    }
    for (int i = 0; i < (T ? 14 : 8); ++i) if (scenario("large")) {
        static const int sh[] = {0, 5, 6, 10, 11, 1, 9, 2};
        tables(bp_make(T ? 600000 + rng.below(100000) : 150000 + rng.below(120000), sh[i % 8], i & 1), (int)rng.below(8));
    }
    finish();
    return 0;
}
