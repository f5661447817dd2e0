// C09: top-k vectors over every list kind that can back them.
#include "rmqgen.hpp"
#include "runpos.hpp"
#include <iterator>
#include "succinct/topk_vector.hpp"
#include "succinct/mappable_vector.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
#include "succinct/elias_fano_list.hpp"
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
using namespace vf;
namespace S = succinct;
namespace M = succinct::mapper;
using boost::get;

// strictly increasing map from ranks to stored values
template <class V> struct Dom { static V of(long r) { return (V)r; } static const long lim = 2000000000; };
struct VecU8 : M::mappable_vector<uint8_t> { VecU8() {} template <class R> VecU8(R const& r) : M::mappable_vector<uint8_t>(r) {} };

template <class TK, class T> struct Run {
    typedef typename TK::enumerator En;
    TK k[2]; Seq p[2]; std::vector<T> vals; std::map<T, long> inv; std::unique_ptr<En> en[3];
    T (*of)(long);
    bool ok[2]; bool cur[3];
    Run(T (*f)(long)) : of(f) { ok[0] = ok[1] = false; cur[0] = cur[1] = cur[2] = false; }
    long rank(T const& v) { typename std::map<T, long>::const_iterator i = inv.find(v); return i == inv.end() ? BAD : i->second; }
    void vals_(int w, Seq const& q) {
        p[w] = q; std::vector<T> v(q.size());
        for (size_t i = 0; i < q.size(); ++i) { v[i] = of(q[i]); inv[v[i]] = q[i]; }
        { TK t(v); t.swap(k[w]); }
        for (int c = 0; c < 3; ++c) { en[c].reset(new En); cur[c] = false; }
        std::vector<long> o; ok[w] = k[w].size() == q.size();
        if (ok[w]) for (size_t i = 0; i < q.size(); ++i) o.push_back(rank(k[w][i]));
        Ev e("vals"); e.i("w", w + 1).vec("p", q).u("oN", k[w].size()).vec("oV", o); e.done(false);
    }
    void get_(int c, int w, size_t a, size_t b) {
        if (!ok[w] || p[w].empty()) return;
        { Ev e("get"); e.i("c", c + 1).i("w", w + 1).i("a", (long)a).i("b", (long)b); e.done(false); }
        if (rng.next() & 1) k[w].get_topk_enumerator(a, b, *en[c]); else *en[c] = k[w].get_topk_enumerator(a, b);
        cur[c] = false;
    }
    bool nxt(int c) {
        bool r = en[c]->next(); cur[c] = r; Ev e("nxt"); e.i("c", c + 1).i("oOk", r);
        if (r) e.u("oIdx", get<1>(en[c]->value())).i("oVal", rank(get<0>(en[c]->value()))); else e.i("oIdx", NA).i("oVal", NA);
        e.done(false); return r;
    }
    // the entry delivered last, wherever the enumerator has travelled since
    void val(int c) { if (!cur[c]) return; Ev e("val"); e.i("c", c + 1).u("oIdx", get<1>(en[c]->value())).i("oVal", rank(get<0>(en[c]->value()))); e.done(false); }
    void cp(int c, int f) { if (c == f) return; if (rng.next() & 1) *en[c] = *en[f]; else en[c].reset(new En(*en[f])); cur[c] = cur[f]; { Ev e("cp"); e.i("c", c + 1).i("f", f + 1); e.done(false); } val(c); val(f); }
    void sw(int c, int f) { if (c == f) return; en[c]->swap(*en[f]); std::swap(cur[c], cur[f]); { Ev e("sw"); e.i("c", c + 1).i("f", f + 1); e.done(false); } val(c); val(f); }
    void clr(int c) { en[c]->clear(); cur[c] = false; Ev e("clr"); e.i("c", c + 1); e.done(false); }
    void top(int w, size_t a, size_t b, size_t kk) {
        if (!ok[w] || p[w].empty()) return;
        typename TK::entry_vector_type r = k[w].topk(a, b, kk);
        std::vector<long> oi, ov; for (size_t i = 0; i < r.size(); ++i) { oi.push_back(clip(get<1>(r[i]))); ov.push_back(rank(get<0>(r[i]))); }
        Ev e("topk"); e.i("w", w + 1).i("a", (long)a).i("b", (long)b).i("k", (long)std::min<size_t>(kk, 2000000000)).vec("oIdx", oi).vec("oVal", ov); e.done(false);
    }
    // more entries are asked for than there are
    void most(int w, size_t a, size_t b) {
        static const size_t big[] = {~0ULL, 1ULL << 63, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 32) - 1, 1ULL << 31, 1ULL << 40, 1 << 16, (1 << 16) + 1, 256, 257};
        if (b - a < 300) top(w, a, b, big[rng.below(sizeof big / sizeof *big)]);
    }
    void all(int w, size_t a, size_t b) {
        if (!ok[w]) return;
        En x = k[w].get_topk_enumerator(a, b); std::vector<long> oi, ov; size_t n = 0;
        while (n++ <= b - a + 2 && x.next()) { oi.push_back(clip(get<1>(x.value()))); ov.push_back(rank(get<0>(x.value()))); }
        bool more = x.next() || x.next();
        Ev e("enum"); e.i("w", w + 1).i("a", (long)a).i("b", (long)b).vec("oIdx", oi).vec("oVal", ov).i("oMore", more); e.done(false);
    }
    void small(Seq const& q) {
        vals_(0, q);
        for (size_t a = 0; a < q.size(); ++a) for (size_t b = a; b < q.size(); ++b) {
            all(0, a, b);
            if (q.size() <= 4) for (size_t kk = 0; kk <= b - a + 2; ++kk) top(0, a, b, kk);
            else top(0, a, b, rng.below(b - a + 3));
            if (rng.chance(1, 6)) most(0, a, b);
        }
        fflush(logf_);
    }
    void big(Seq const& q, int nq) {
        vals_(0, q);
        for (int i = 0; i < nq; ++i) {
            size_t a = rng.below(q.size()), b = rng.chance(1, 4) ? q.size() - 1 : std::min(q.size() - 1, a + rng.below((size_t)1 << rng.below(15)));
            if (i == 0) a = 0, b = q.size() - 1;
            top(0, a, b, rng.chance(1, 3) ? rng.below(200) : rng.below(12));
            if (rng.chance(1, 4)) most(0, a, b);
            if (b - a < 6000) all(0, a, b);
        }
        fflush(logf_);
    }
    void mixed(Seq const& q0, Seq const& q1, int ops) {
        vals_(0, q0); vals_(1, q1);
        for (int i = 0; i < ops; ++i) {
            int c = (int)rng.below(3), f = (int)rng.below(3), w = (int)rng.below(2);
            size_t a = rng.below(p[w].size()), b = a + rng.below(p[w].size() - a);
            switch (rng.below(16)) {
            case 0: case 1: get_(c, w, a, b); break;
            case 2: cp(c, f); break;
            case 3: sw(c, f); break;
            case 4: if (rng.chance(1, 3)) clr(c); break;
            case 5: top(w, a, b, rng.below(9)); val(c); break;
            case 6: for (int j = 0; j < 30 && nxt(c); ++j) {} break;
            default: nxt(c);
            }
        }
        fflush(logf_);
    }
    void replay(std::string const& h) {
        std::istringstream in(h); std::string op;
        while (in >> op) {
            long a, b, c, d; std::string t; in >> a >> b >> c; std::getline(in, t, ';'); d = atol(t.c_str());
            if (op == "vals") { vals_(0, seq_make((size_t)a, (int)c, rng)); vals_(1, seq_make((size_t)b, (int)(c + 7), rng)); }
            else if (op == "get") get_((int)a - 1, (int)b - 1, (size_t)c, (size_t)d);
            else if (op == "cp") cp((int)a - 1, (int)b - 1);
            else if (op == "sw") sw((int)a - 1, (int)b - 1);
            else if (op == "clr") clr((int)a - 1);
            else if (op == "top") top((int)b - 1, (size_t)c, (size_t)d, (size_t)a);
            else if (op == "nxt") nxt((int)a - 1);
            else { fprintf(stderr, "bad op %s\n", op.c_str()); exit(3); }
        }
        fflush(logf_);
    }
};

static uint64_t big64(long r) { return ~0ULL - 3000000 + (uint64_t)r; }
static uint64_t spread64(long r) { return r == 0 ? 0 : r < 60 ? (1ULL << r) + (uint64_t)r : (1ULL << 61) + (uint64_t)r * 1000003; }
static uint64_t plain64(long r) { return (uint64_t)r; }
static uint32_t big32(long r) { return 4294967295u - 3000000u + (uint32_t)r; }
static uint8_t u8(long r) { return (uint8_t)r; }
static double dbl(long r) { return (double)r / 3 - 10000; }
static int64_t neg(long r) { return ((int64_t)r - 1000) * 2000000000LL; }

static Seq limit(Seq q, long m) { for (size_t i = 0; i < q.size(); ++i) q[i] %= m; return q; }

// f(run) with one of the element types; mods: largest number of ranks that the type can carry
template <class F> static void with(int type, F f) {
    switch (type % 9) {
    case 0: { Run<S::topk_vector<M::mappable_vector<uint64_t> >, uint64_t> r(big64); f(r, 3000000L); break; }
    case 1: { Run<S::topk_vector<M::mappable_vector<uint32_t> >, uint32_t> r(big32); f(r, 3000000L); break; }
    case 2: { Run<S::topk_vector<M::mappable_vector<uint8_t> >, uint8_t> r(u8); f(r, 256L); break; }
    case 3: { Run<S::topk_vector<S::elias_fano_compressed_list>, uint64_t> r(spread64); f(r, 3000000L); break; }
    case 4: { Run<S::topk_vector<S::gamma_vector>, uint64_t> r(spread64); f(r, 3000000L); break; }
    case 5: { Run<S::topk_vector<S::elias_fano_list>, uint64_t> r(plain64); f(r, 3000000L); break; }
    case 6: { Run<S::topk_vector<M::mappable_vector<double> >, double> r(dbl); f(r, 3000000L); break; }
    case 7: { Run<S::topk_vector<M::mappable_vector<int64_t> >, int64_t> r(neg); f(r, 3000000L); break; }
    case 8: { Run<S::topk_vector<S::gamma_bit_vector>, uint64_t> r(spread64); f(r, 3000000L); break; }
    }
}

// billions of values in runs: long runs are constant, each of a greater value than the last one (so that the builder's
// stack does not keep them all), with short runs of any values in between
struct Bytes : RunPos {
    std::vector<long> k, v; // run s: 255 - v[s] - k[s] * o
    typedef uint8_t value_type;
    void add(long kind, uint64_t l, long rank) { while (l) { uint64_t t = std::min<uint64_t>(l, MAXRUN); put_len(t); k.push_back(kind); v.push_back(rank); rank += kind * (long)t; l -= t; } }
    void jag(int runs, long top) { // values up to top
        for (int i = 0; i < runs; ++i) { long a = 255 - (long)rng.below((uint64_t)top + 1), kind = (long)rng.below(3) - 1; uint64_t l = 1 + rng.below(rng.chance(1, 4) ? 5000 : 30);
            if (kind == 1) l = std::min<uint64_t>(l, (uint64_t)(256 - a)); if (kind == -1) l = std::min<uint64_t>(l, (uint64_t)(top - (255 - a) + 1)); add(kind, l, a); }
    }
    struct const_iterator {
        typedef std::forward_iterator_tag iterator_category; typedef uint8_t value_type; typedef std::ptrdiff_t difference_type; typedef uint8_t const* pointer; typedef uint8_t const& reference;
        Bytes const* r; size_t s; long left; uint8_t x;
        void load() { if (s < r->len.size()) { left = r->len[s]; x = (uint8_t)(255 - r->v[s]); } else left = 0; }
        uint8_t const& operator*() const { return x; }
        const_iterator& operator++() { if (--left) x = (uint8_t)(x - r->k[s]); else { ++s; load(); } return *this; }
        const_iterator operator++(int) { const_iterator t(*this); ++*this; return t; }
        bool operator==(const_iterator const& o) const { return left == o.left && s == o.s; } bool operator!=(const_iterator const& o) const { return !(*this == o); }
    };
    typedef const_iterator iterator;
    const_iterator begin() const { const_iterator t = {this, 0, 0, 0}; t.load(); return t; }
    const_iterator end() const { const_iterator t = {this, len.size(), 0, 0}; return t; }
};
static void huge(uint64_t n, int probes) {
    Bytes r; int const PARTS = 24;
    for (int i = 0; i < PARTS; ++i) {
        r.jag(6, i * 10 + 15); r.add(0, n / PARTS - rng.below(5000), 255 - i * 10); if (i % 3) r.jag(3, i * 10);
    }
    r.jag(20, 255); n = r.n();
    typedef S::topk_vector<VecU8> TK; TK t; { TK s(r); s.swap(t); }
    { Ev e("hb"); e.vec("k", r.k).vec("len", r.len).vec("v", r.v).Ls("st", r.st).i("top", 255).L("oN", t.size()); e.done(); }
    if (t.size() != n) return;
    std::vector<uint64_t> q = r.probes((size_t)probes); 
    { std::vector<uint64_t> x; std::vector<std::vector<long> > xp; std::vector<long> o; for (size_t i = 0; i < q.size(); ++i) if (q[i] < n) { x.push_back(q[i]); xp.push_back(r.where(q[i])); o.push_back(t[q[i]]); } Ev e("hg"); e.Ls("x", x).vecs("xp", xp).vec("oV", o); e.done(); }
    for (int i = 0; i < probes; ++i) {
        uint64_t a, b; r.range(q, i, n - 1, a, b); size_t k = rng.chance(1, 8) ? rng.below(400) : rng.below(20);
        TK::enumerator en; TK::entry_vector_type o; bool more = false;
        if (i & 1) { o = t.topk(a, b, k); en = t.get_topk_enumerator(a, b); for (size_t j = 0; j < o.size(); ++j) en.next(); more = en.next(); }
        else { t.get_topk_enumerator(a, b, en); while (o.size() < k && en.next()) o.push_back(en.value()); TK::enumerator c(en); more = c.next(); }
        std::vector<uint64_t> oi; std::vector<std::vector<long> > op; std::vector<long> ov;
        for (size_t j = 0; j < o.size(); ++j) { oi.push_back(get<1>(o[j])); op.push_back(r.where(oi.back())); ov.push_back(get<0>(o[j])); }
        Ev e("ht"); e.L("x", a).vec("xp", r.where(a)).L("y", b).vec("yp", r.where(b)).i("k", (long)k).Ls("oIdx", oi).vecs("oIp", op).vec("oVal", ov).i("oMore", more); e.done();
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        if (scenario("huge")) huge((1ULL << 32) + (1 << 22), T ? 3000 : 600);
        finish(); return 0;
    }
    if (!args.gen.empty()) {
        std::ifstream in(args.gen.c_str()); std::string line; int i = 0;
        while (std::getline(in, line)) { ++i; if (scenario("gen")) with(i, [&](auto& r, long m) {
            if (m == 256) { Run<S::topk_vector<M::mappable_vector<uint64_t> >, uint64_t> r2(plain64); r2.replay(line); } else r.replay(line); }); }
    }
    int ty = 0;
    for (size_t n = 1; n <= (T ? 6u : 5u); ++n) for (int part = 0; part < 8; ++part) if (scenario("orders-" + std::to_string(n))) {
        int k = 0; weak_orders(n, [&](Seq const& p) { if (k++ % 8 == part) with(ty++, [&](auto& r, long) { r.small(p); }); });
    }
    for (size_t n = 6; n <= (T ? 40u : 24u); ++n) if (scenario("len")) with((int)rng.below(9), [&](auto& r, long m) { r.small(limit(seq_make(n, (int)rng.below(SEQ_SHAPES), rng), m)); });
    for (int s = 0; s < SEQ_SHAPES; ++s) for (int i = 0; i < (T ? 27 : 9); ++i) if (scenario(std::string("shape-") + seq_shape_name(s)))
        with(i, [&](auto& r, long m) { r.big(limit(seq_make(1 + rng.below(i < 3 ? 300 : 4000), s, rng), m), 14); });
    for (int i = 0; i < (T ? 18 : 6); ++i) if (scenario("large")) {
        static const int sh[] = {0, 6, 13, 12, 11, 3};
        with(i + 3, [&](auto& r, long m) { r.big(limit(seq_make(20000 + rng.below(T ? 90000 : 30000), sh[i % 6], rng), m), 20); });
    }
    for (int i = 0; i < (T ? 700 : 150); ++i) if (scenario("mixed")) with(i, [&](auto& r, long m) {
        r.mixed(limit(seq_make(1 + rng.below(60), i, rng), m), limit(seq_make(1 + rng.below(40), i / 3, rng), m), 90); });
    finish();
    return 0;
}
