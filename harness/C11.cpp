// C11: sequential decoding of Elias-Fano structures.
#include "efgen.hpp"
#include "efruns.hpp"
#include "succinct/elias_fano.hpp"
using namespace vf;
namespace S = succinct;
typedef S::elias_fano::select_enumerator En;

struct Run {
    S::elias_fano ef[2]; U64s v[2]; std::unique_ptr<En> en[3]; int on[3]; size_t at[3]; bool ok[2];
    Run() { ok[0] = ok[1] = false; on[0] = on[1] = on[2] = -1; }
    void vals(int w, uint64_t n, U64s const& x, int how) {
        bool dup = false; for (size_t i = 1; i < x.size(); ++i) dup = dup || x[i] == x[i - 1];
        if (how == 0 && !dup && n <= 1000000) {
            S::bit_vector_builder bb(n); for (size_t i = 0; i < x.size(); ++i) bb.set(x[i], 1);
            S::elias_fano(&bb, rng.next() & 1).swap(ef[w]);
        } else {
            S::elias_fano::elias_fano_builder b(n, x.size()); for (size_t i = 0; i < x.size(); ++i) b.push_back(x[i]);
            S::elias_fano(&b, rng.next() & 1).swap(ef[w]);
        }
        v[w] = x; ok[w] = ef[w].num_ones() == x.size();
        for (int c = 0; c < 3; ++c) if (on[c] == w) on[c] = -1;
        Ev e("vals"); e.i("w", w + 1).L("n", n).Ls("v", x).L("oM", ef[w].num_ones()); e.done();
    }
    void open(int c, int w, size_t i) {
        if (!ok[w] || (i >= v[w].size() && !(i == 0 && v[w].empty()))) return;
        { Ev e("open"); e.i("c", c + 1).i("w", w + 1).i("i", (long)i); e.done(); }
        en[c].reset(new En(ef[w], i)); on[c] = w; at[c] = i;
    }
    void cp(int c, int f) {
        if (c == f || on[f] < 0) return;
        if (en[c].get() && (rng.next() & 1)) *en[c] = *en[f]; else en[c].reset(new En(*en[f]));
        on[c] = on[f]; at[c] = at[f]; Ev e("cp"); e.i("c", c + 1).i("f", f + 1); e.done(false);
    }
    void next(int c, size_t k) {
        if (on[c] < 0) return;
        k = std::min(k, v[on[c]].size() - at[c]); if (!k) return;
        U64s o; for (size_t i = 0; i < k; ++i) o.push_back(en[c]->next());
        at[c] += k; Ev e("nx"); e.i("c", c + 1).i("k", (long)k).Ls("oV", o); e.done();
    }
    void replay(std::string const& h) {
        std::istringstream in(h); std::string op;
        while (in >> op) {
            long a, b, c; std::string t; in >> a >> b; std::getline(in, t, ';'); c = atol(t.c_str());
            if (op == "vals") for (int w = 0; w < 2; ++w) { uint64_t n = rng.next() >> ((uint64_t)c * 7 % 63); if (!n) n = 9; vals(w, n, ef_make(n, (size_t)(w ? b : a), (int)c + w, rng), 1); }
            else if (op == "open") open((int)a - 1, (int)b - 1, (size_t)c);
            else if (op == "cp") cp((int)a - 1, (int)b - 1);
            else if (op == "rd") {}
            else if (op == "skip" || op == "nx") next((int)a - 1, (size_t)b);
            else { fprintf(stderr, "bad op %s\n", op.c_str()); exit(3); }
        }
    }
    void every_start(uint64_t n, U64s const& x, int how, size_t lim) {
        vals(0, n, x, how);
        if (x.empty()) open(0, 0, 0);
        for (size_t i = 0; i < x.size(); ++i) { open(0, 0, i); next(0, lim); }
    }
};

// lists of billions of values: enumerators opened anywhere
static void huge(EfRuns const& r, uint64_t n, bool bits, size_t probes) {
    S::elias_fano ef; ef_build(r, n, bits, false, ef);
    bool ok = ef.num_ones() == r.n();
    { Ev e("hl"); r.head(e); e.L("n", n).L("oN", ef.size()).L("oM", ef.num_ones()); e.done(); }
    if (!ok) return;
    std::vector<uint64_t> q = r.probes(probes);
    for (size_t i = 0; i < q.size(); ++i) if (q[i] < r.n()) {
        uint64_t k = std::min<uint64_t>(1 + rng.below(rng.chance(1, 20) ? 400 : 20), r.n() - q[i]);
        En en(ef, q[i]); U64s o; for (uint64_t j = 0; j < k; ++j) o.push_back(en.next());
        Ev e("hn"); e.L("i", q[i]).vec("ip", r.where(q[i])).i("k", (long)k).Ls("oV", o); e.done();
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        uint64_t n;
        if (scenario("huge-dense")) { EfRuns r = ef_runs_dense((1ULL << 31) + (1 << 20) + rng.below(99999), n); huge(r, n, true, T ? 2000 : 600); }
        if (scenario("huge-wide")) { EfRuns r = ef_runs_wide((1ULL << 27) + rng.below(99999), 62, n); huge(r, n, false, T ? 2000 : 600); }
        if (scenario("huge-mid")) { EfRuns r = ef_runs_wide((1ULL << 29) + rng.below(99999), 40, n); huge(r, n, false, T ? 2000 : 600); }
        if (scenario("huge-dense32")) { EfRuns r = ef_runs_dense((1ULL << 32) + (1 << 20) + rng.below(99999), n); huge(r, n, true, T ? 2000 : 600); }
        finish(); return 0;
    }
    if (!args.gen.empty()) {
        std::ifstream in(args.gen.c_str()); std::string line;
        while (std::getline(in, line)) if (scenario("gen")) { Run t; t.replay(line); }
    }
    for (uint64_t n = 0; n <= (T ? 9u : 7u); ++n) if (scenario("sets-" + std::to_string(n)))
        for (unsigned b = 0; b < (1u << n); ++b) { U64s v; for (unsigned i = 0; i < n; ++i) if (b >> i & 1) v.push_back(i); Run t; t.every_start(n, v, (int)(b % 2), 99); }
    // every number of low bits, every shape, from every start
    for (int lb = 1; lb <= 64; ++lb) for (int s = 0; s < EF_SHAPES; ++s) if (scenario("low-" + std::to_string(lb)))
        for (int k = 0; k < 2; ++k) {
            static const size_t ms[] = {1, 2, 3, 4, 7, 16, 17, 33, 40, 65};
            size_t m = k ? ms[rng.below(10)] : 34 + rng.below(34);
            uint64_t n = lb == 64 ? ~0ULL - rng.below(2) * rng.below(1000) : (1ULL << lb) + (k ? rng.below(1ULL << lb) : rng.below(3) - 1);
            if (n == 0) n = 1;
            Run t; t.every_start(n, ef_make(n, m, s, rng), 1, k ? 99 : 12);
        }
    // exactly each low width 0..57 with a long list: n / m in [2^l, 2^(l+1))
    for (int lw = 0; lw <= 57; ++lw) for (int k = 0; k < (T ? 4 : 2); ++k) if (scenario("width-" + std::to_string(lw))) {
        size_t m = 63 + rng.below(64);
        uint64_t n = lw == 0 && k ? m / 2 + 1 : (uint64_t)m * ((1ULL << lw) + below64(rng, 1ULL << lw));
        Run t; t.vals(0, n, ef_make(n, m, (int)rng.below(EF_SHAPES), rng), 1);
        for (int j = 0; j < 6; ++j) { t.open(0, 0, j ? rng.below(m) : 0); t.next(0, m); }
    }
    for (int lw = 30; lw <= 63; ++lw) if (scenario("few-" + std::to_string(lw))) for (size_t m = 1; m <= 9; ++m) for (int k = 0; k < 3; ++k) {
        unsigned __int128 big = (unsigned __int128)m * ((1ULL << lw) + (k ? below64(rng, 1ULL << lw) : (1ULL << lw) - 1));
        if (big >> 64) continue;
        Run t; t.every_start((uint64_t)big, ef_make((uint64_t)big, m, k ? (int)rng.below(EF_SHAPES) : 0, rng), 1, 99);
    }
    for (int i = 0; i < (T ? 60 : 20); ++i) if (scenario("mid")) {
        size_t m = 500 + rng.below(T ? 9000 : 4000);
        uint64_t n = i % 4 == 0 ? m / 2 + 1 : 1 + (rng.next() >> rng.below(50));
        Run t; t.vals(0, n, ef_make(n, m, i, rng), 1);
        for (int j = 0; j < 5; ++j) { t.open(0, 0, j ? rng.below(m) : 0); t.next(0, j < 2 ? m : rng.below(m)); }
    }
    for (int i = 0; i < (T ? 12 : 4); ++i) if (scenario("bits")) {
        uint64_t n = 20000 + rng.below(400000); size_t m = 10 + rng.below(i % 2 ? 200 : 9000);
        U64s v = ef_make(n, m, i % 3, rng); v.erase(std::unique(v.begin(), v.end()), v.end());
        Run t; t.vals(0, n, v, 0); for (int j = 0; j < 4; ++j) { t.open(0, 0, j ? rng.below(v.size()) : 0); t.next(0, v.size()); }
    }
    for (int i = 0; i < (T ? 10 : 4); ++i) if (scenario("large")) {
        size_t m = (i % 4 < 2 ? 66000 : 40000) + rng.below(T ? 100000 : 20000);
        uint64_t n = i % 2 ? ~0ULL : i % 4 ? m * 3 : m + rng.below(m / 2);
        U64s v; size_t c = 300 + rng.below(900); v = ef_make(n, c, 2, rng); U64s w = ef_make(n, m - c, i % 4 < 2 ? 1 : 0, rng); v.insert(v.end(), w.begin(), w.end()); std::sort(v.begin(), v.end());
        Run t; t.vals(0, n, v, 1); t.open(0, 0, 0); t.next(0, m); t.open(1, 0, c - 1); t.next(1, 3000); t.open(2, 0, rng.below(m)); t.next(2, 3000);
    }
    // interleaved
    for (int i = 0; i < (T ? 600 : 160); ++i) if (scenario("mixed")) {
        Run t;
        for (int w = 0; w < 2; ++w) { uint64_t n = 1 + (rng.next() >> rng.below(64)); if (!n) n = 9; t.vals(w, n, ef_make(n, 1 + rng.below(120), (int)rng.below(EF_SHAPES), rng), (int)rng.below(2)); }
        for (int k = 0; k < 60; ++k) {
            int c = (int)rng.below(3), w = (int)rng.below(2);
            if (rng.chance(1, 6)) t.open(c, w, rng.below(t.v[w].size()));
            else if (rng.chance(1, 8)) t.cp(c, (int)rng.below(3));
            else t.next(c, 1 + rng.below(rng.chance(1, 4) ? 40 : 4));
        }
    }
    finish();
    return 0;
}
