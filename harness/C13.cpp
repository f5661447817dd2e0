// C13: forward enumerators over every list kind.
#include "listgen.hpp"
#include "listruns.hpp"
#include "succinct/forward_enumerator.hpp"
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
#include "succinct/elias_fano_list.hpp"
#include "succinct/mappable_vector.hpp"
using namespace vf;
namespace S = succinct;
namespace M = succinct::mapper;

template <class E> static bool do_skip(E&, size_t, long) { return false; }
static bool do_skip(S::forward_enumerator<S::gamma_bit_vector>& e, size_t k, int) { e.skip(k); return true; }

template <class C> struct Run {
    typedef S::forward_enumerator<C> En;
    C l[2]; U64s v[2]; std::unique_ptr<En> en[3]; int on[3]; size_t at[3]; bool ok[2]; uint64_t max; bool sums;
    Run(uint64_t m, bool s) : max(m), sums(s) { ok[0] = ok[1] = false; on[0] = on[1] = on[2] = -1; }
    void vals(int w, U64s x) {
        if (sums) x = list_sum(x, max);
        { C k(x); k.swap(l[w]); }
        v[w] = x; ok[w] = l[w].size() == x.size();
        for (int c = 0; c < 3; ++c) if (on[c] == w) on[c] = -1;
        Ev e("vals"); e.i("w", w + 1).Ls("v", x).L("oN", l[w].size()); e.done();
    }
    void open(int c, int w, size_t i) {
        if (!ok[w] || i > v[w].size()) return;
        { Ev e("open"); e.i("c", c + 1).i("w", w + 1).i("i", (long)i); e.done(false); }
        if (i == 0 && (rng.next() & 1)) en[c].reset(new En(l[w])); else en[c].reset(new En(l[w], i));
        on[c] = w; at[c] = i;
    }
    void cp(int c, int f) {
        if (c == f || on[f] < 0) return;
        if (en[c].get() && (rng.next() & 1)) *en[c] = *en[f]; else en[c].reset(new En(*en[f]));
        on[c] = on[f]; at[c] = at[f]; Ev e("cp"); e.i("c", c + 1).i("f", f + 1); e.done(false);
    }
    void next(int c, size_t k) {
        if (on[c] < 0) return;
        k = std::min(k, v[on[c]].size() - at[c]); if (!k) return;
        U64s o; for (size_t i = 0; i < k; ++i) o.push_back((uint64_t)en[c]->next());
        at[c] += k; Ev e("nx"); e.i("c", c + 1).i("k", (long)k).Ls("oV", o); e.done(false);
    }
    void skip(int c, size_t k) {
        if (on[c] < 0) return;
        k = std::min(k, v[on[c]].size() - at[c]);
        if (!do_skip(*en[c], k, 0)) return;
        at[c] += k; Ev e("skip"); e.i("c", c + 1).i("k", (long)k); e.done(false);
    }
    void rd(int w, size_t i) {
        if (!ok[w] || i >= v[w].size()) return;
        uint64_t x = (uint64_t)l[w][i]; Ev e("rd"); e.i("w", w + 1).i("i", (long)i).L("oV", x); e.done(false);
    }
    void whole(U64s const& x, size_t starts, size_t lim) {
        vals(0, x); size_t n = v[0].size();
        open(0, 0, n); // at the end: nothing to deliver
        for (size_t s = 0; s < starts; ++s) { size_t i = starts >= n ? s : s == 0 ? 0 : rng.below(n); if (i >= n) break; open(0, 0, i); next(0, s == 0 ? n : lim); }
        fflush(logf_);
    }
    void mixed(U64s const& x, U64s const& y, int ops) {
        vals(0, x); vals(1, y);
        for (int k = 0; k < ops; ++k) {
            int c = (int)rng.below(3), w = (int)rng.below(2);
            switch (rng.below(10)) {
            case 0: case 1: open(c, w, rng.below(v[w].size() + 1)); break;
            case 2: cp(c, (int)rng.below(3)); break;
            case 3: rd(w, rng.below(v[w].size() + 1)); break;
            case 4: skip(c, rng.below(rng.chance(1, 3) ? 70 : 5)); break;
            default: next(c, 1 + rng.below(rng.chance(1, 4) ? 60 : 4));
            }
        }
        fflush(logf_);
    }
    void replay(std::string const& h) {
        std::istringstream in(h); std::string op;
        while (in >> op) {
            long a, b, c; std::string t; in >> a >> b; std::getline(in, t, ';'); c = atol(t.c_str());
            if (op == "vals") { vals(0, list_make((size_t)a, max, (int)c, rng)); vals(1, list_make((size_t)b, max, (int)c / 7, rng)); }
            else if (op == "open") open((int)a - 1, (int)b - 1, (size_t)c);
            else if (op == "cp") cp((int)a - 1, (int)b - 1);
            else if (op == "rd") rd((int)b - 1, (size_t)c);
            else if (op == "skip") skip((int)a - 1, (size_t)b);
            else if (op == "nx") next((int)a - 1, (size_t)b);
            else { fprintf(stderr, "bad op %s\n", op.c_str()); exit(3); }
        }
        fflush(logf_);
    }
};
static const int KINDS = 6;
template <class F> static void with(int kind, F f) {
    switch (kind % KINDS) {
    case 0: { Run<S::gamma_vector> r(~0ULL - 1, false); f(r); break; }
    case 1: { Run<S::gamma_bit_vector> r(~0ULL - 2, false); f(r); break; }
    case 2: { Run<S::elias_fano_compressed_list> r(~0ULL - 1, false); f(r); break; }
    case 3: { Run<S::elias_fano_list> r(~0ULL - 1, true); f(r); break; }
    case 4: { Run<M::mappable_vector<uint64_t> > r(~0ULL, false); f(r); break; }
    case 5: { Run<M::mappable_vector<uint16_t> > r(65535, false); f(r); break; }
    }
}

// lists of billions of integers: enumerators opened anywhere, and one that skips over them all
template <class C> static void huge(const char* kind, ListRuns const& r, size_t probes) {
    C l(r);
    bool ok = l.size() == r.n();
    { Ev e("hl"); e.str("kind", kind); r.head(e); e.L("oN", l.size()); e.done(); }
    if (!ok) return;
    typedef S::forward_enumerator<C> En;
    auto take = [&](En& en, uint64_t at, uint64_t k) {
        k = std::min<uint64_t>(k, r.n() - at); if (!k) return;
        U64s o; for (uint64_t j = 0; j < k; ++j) o.push_back((uint64_t)en.next());
        Ev e("hn"); e.vec("ip", r.where(at)).i("k", (long)k).Ls("oV", o); e.done();
    };
    std::vector<uint64_t> q = r.probes(probes);
    for (size_t i = 0; i < q.size(); ++i) if (q[i] < r.n()) {
        En en(l, q[i]); { Ev e("ho"); e.L("i", q[i]); e.done(); }
        uint64_t k = 1 + rng.below(rng.chance(1, 20) ? 400 : 12); take(en, q[i], k); q[i] += std::min<uint64_t>(k, r.n() - q[i]);
        if (rng.chance(1, 4) && r.n() - q[i] > 5) { uint64_t s = rng.below(std::min<uint64_t>(r.n() - q[i], 100000)); if (do_skip(en, s, 0)) { { Ev e("hk"); e.L("k", s); e.done(); } take(en, q[i] + s, 5); } }
    }
    // all of it with one enumerator
    uint64_t at = rng.below(1000); En en(l, at); { Ev e("ho"); e.L("i", at); e.done(); }
    uint64_t s = r.n() - at - 1 - rng.below(1000);
    if (!do_skip(en, s, 0)) for (uint64_t j = 0; j < s; ++j) en.next();
    { Ev e("hk"); e.L("k", s); e.done(); }
    take(en, at + s, 2000);
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        size_t Q = T ? 2000 : 500; uint64_t const B32 = (1ULL << 32) + (1 << 20);
        if (scenario("huge-gamma")) huge<S::gamma_vector>("gamma", list_runs(B32 + rng.below(99999), 1, ~0ULL - 1), Q);
        if (scenario("huge-gammabit")) huge<S::gamma_bit_vector>("gammabit", list_runs(B32 + rng.below(99999), 2, ~0ULL - 2), Q);
        if (scenario("huge-compressed")) huge<S::elias_fano_compressed_list>("efc", list_runs((1ULL << 27) + rng.below(99999), ~0ULL >> 25, ~0ULL - 1), Q);
        if (scenario("huge-sums")) huge<S::elias_fano_list>("efl", list_runs_sum((1ULL << 27) + rng.below(99999), 40, 1ULL << 40), Q);
        if (scenario("huge-gammabit-long")) huge<S::gamma_bit_vector>("gammabit", list_runs(3 * (1ULL << 25) + rng.below(99999), ~0ULL - 2, ~0ULL - 2), Q);
        if (scenario("huge-gamma-long")) huge<S::gamma_vector>("gamma", list_runs(3 * (1ULL << 25) + rng.below(99999), ~0ULL - 1, ~0ULL - 1), Q);
        if (scenario("huge-v8")) huge<M::mappable_vector<uint8_t> >("v8", list_runs(B32 + rng.below(99999), 255, 255), Q);
        finish(); return 0;
    }
    if (!args.gen.empty()) {
        std::ifstream in(args.gen.c_str()); std::string line; int i = 0;
        while (std::getline(in, line)) { ++i; if (scenario("gen")) with(i % 3 == 0 ? i / 3 : i % 2, [&](auto& r) { r.replay(line); }); }
    }
    for (int kind = 0; kind < KINDS; ++kind) if (scenario("tiny")) with(kind, [&](auto& r) { for (size_t n = 0; n <= 4; ++n) {
        U64s v(n, 0); while (true) { r.whole(v, 9, 9); size_t i = 0; while (i < n && v[i] == 2) v[i++] = 0; if (i == n) break; ++v[i]; } } });
    for (int kind = 0; kind < KINDS; ++kind) for (size_t n = 5; n <= (T ? 200u : 90u); n += (kind < 2 ? 1 : 4)) if (scenario("len"))
        with(kind, [&](auto& r) { r.whole(list_make(n, r.max, (int)rng.below(LIST_SHAPES), rng), n, 9); });
    for (int kind = 0; kind < KINDS; ++kind) for (int s = 0; s < LIST_SHAPES; ++s) for (int k = 0; k < (T ? 4 : kind < 2 ? 2 : 1); ++k) if (scenario("shape"))
        with(kind, [&](auto& r) { r.whole(list_make(200 + rng.below(kind < 2 ? 2500 : 900), r.max, s, rng), 30, 70); });
    for (int kind = 0; kind < 4; ++kind) for (int i = 0; i < (T ? 8 : 2); ++i) if (scenario("large"))
        with(kind, [&](auto& r) { r.whole(list_make(20000 + rng.below(10000), r.max, i == 0 ? 0 : i == 1 ? 6 : i, rng), 20, 300); });
    for (int i = 0; i < (T ? 900 : 240); ++i) if (scenario("mixed"))
        with(i % 3 == 0 ? i / 3 : i % 2, [&](auto& r) { r.mixed(list_make(1 + rng.below(150), r.max, i, rng), list_make(1 + rng.below(100), r.max, i / 5, rng), 80); });
    finish();
    return 0;
}
