// C03: call histories of bit_vector::enumerator and bit_vector::unary_enumerator.
#include "gen.hpp"
#include "sparse.hpp"
using namespace vf;
namespace S = succinct;
typedef S::bit_vector::enumerator Rd;
typedef S::bit_vector::unary_enumerator Un;

struct Run {
    BV b; S::bit_vector bv; std::vector<long> r; // r: ones before i (checked by the spec)
    Rd rd[2]; Un un[2]; bool live[4];
    size_t place[4]; // only used to keep calls inside their preconditions
    void begin(BV const& bits) {
        b = bits; S::bit_vector v(b); v.swap(bv);
        r.assign(1, 0); for (size_t i = 0; i < b.size(); ++i) r.push_back(r.back() + b[i]);
        for (int i = 0; i < 4; ++i) live[i] = false;
        Ev e("vec"); e.vec("b", b).vec("r", r); e.done();
    }
    size_t n() const { return b.size(); }
    long ones_from(size_t p) const { return r[n()] - r[p]; }
    long zeros_from(size_t p) const { return long(n() - p) - ones_from(p); }
    long kth(size_t p, long k, int v) const { for (size_t i = p; i < n(); ++i) if (b[i] == v && k-- == 0) return (long)i; return -1; }
    void log(Ev& e, int c) { e.i("c", c + 1).u("oPos", c < 2 ? rd[c].position() : un[c - 2].position()); e.done(false); }
    void at(int c, size_t p) {
        if (c < 2) { if (p > n()) return; rd[c] = Rd(bv, p); }
        else { if (p >= n()) return; un[c - 2] = Un(bv, p); }
        live[c] = true; place[c] = p;
        Ev e("at"); e.i("p", (long)p); log(e, c);
    }
    void cp(int c) { // copy from the partner
        int o = c < 2 ? 1 - c : 5 - c;
        if (!live[o]) return;
        if (c < 2) rd[c] = rd[o]; else un[c - 2] = un[o - 2];
        live[c] = true; place[c] = place[o];
        Ev e("cp"); e.i("f", o + 1); log(e, c);
    }
    void next(int c) {
        if (!live[c]) return;
        if (c < 2) {
            if (place[c] >= n()) return;
            bool v = rd[c].next(); place[c]++;
            Ev e("next"); e.i("oV", v); log(e, c);
        } else {
            if (ones_from(place[c]) <= 0) return;
            uint64_t q = un[c - 2].next(); place[c] = (size_t)kth(place[c], 0, 1) + 1;
            Ev e("unext"); e.u("oV", q); log(e, c);
        }
    }
    void take(int c, size_t k) {
        if (!live[c] || c >= 2 || k > 64 || place[c] + k > n()) return;
        uint64_t v = rd[c].take(k); place[c] += k;
        Ev e("take"); e.i("k", (long)k).Q("oV", v); log(e, c);
    }
    void skz(int c) {
        if (!live[c] || c >= 2 || ones_from(place[c]) <= 0) return;
        uint64_t z = rd[c].skip_zeros(); place[c] = (size_t)kth(place[c], 0, 1) + 1;
        Ev e("skz"); e.u("oV", z); log(e, c);
    }
    void skip(int c, long k) {
        if (!live[c] || c < 2 || ones_from(place[c]) <= k) return;
        un[c - 2].skip((uint64_t)k); place[c] = (size_t)kth(place[c], k, 1);
        Ev e("skip"); e.i("k", k); log(e, c);
    }
    void peek(int c, long k) {
        if (!live[c] || c < 2 || ones_from(place[c]) <= k) return;
        uint64_t q = un[c - 2].skip_no_move((uint64_t)k);
        Ev e("peek"); e.i("k", k).u("oV", q); log(e, c);
    }
    void skip0(int c, long k) {
        if (!live[c] || c < 2 || zeros_from(place[c]) <= k) return;
        un[c - 2].skip0((uint64_t)k); place[c] = (size_t)kth(place[c], k, 0);
        Ev e("skip0"); e.i("k", k); log(e, c);
    }
    void random_op(int c) {
        if (c < 2) switch (rng.below(8)) {
            case 0: case 1: next(c); break;
            case 2: take(c, 64); break;
            case 3: take(c, rng.below(65)); break;
            case 4: take(c, rng.below(9)); break;
            case 5: case 6: skz(c); break;
            case 7: if (rng.chance(1, 6)) at(c, rng.below(n() + 1)); break;
        } else switch (rng.below(9)) {
            case 0: case 1: case 2: next(c); break;
            case 3: skip(c, (long)rng.below(rng.chance(1, 4) ? 150 : 5)); break;
            case 4: case 5: peek(c, (long)rng.below(rng.chance(1, 4) ? 150 : 5)); break;
            case 6: case 7: skip0(c, (long)rng.below(rng.chance(1, 4) ? 150 : 5)); break;
            case 8: if (rng.chance(1, 6)) at(c, rng.below(n())); break;
        }
    }
};

static void replay(std::string const& script) {
    Run t; std::stringstream ss(script); std::string item;
    while (std::getline(ss, item, ';')) {
        std::stringstream is(item); std::string op; long a, c; is >> op >> a >> c;
        if (op == "vec") { t.begin(fill((size_t)a, (int)c, rng)); for (int i = 0; i < 4; ++i) t.at(i, 0); continue; }
        c -= 1;
        if (op == "at") t.at((int)c, (size_t)a % t.n());
        else if (op == "cp") t.cp((int)c);
        else if (op == "next") t.next((int)c);
        else if (op == "take") t.take((int)c, (size_t)a);
        else if (op == "skz") t.skz((int)c);
        else if (op == "skip") t.skip((int)c, a);
        else if (op == "peek") t.peek((int)c, a);
        else if (op == "skip0") t.skip0((int)c, a);
        else { fprintf(stderr, "bad op %s\n", op.c_str()); exit(3); }
    }
    fflush(logf_);
}

// the same cursors on billions of bits
struct HRun {
    Sparse s; S::bit_vector bv; Rd rd[2]; Un un[2]; uint64_t place[4];
    void begin(int v) { s = Sparse::make(v, 10); s.build(bv); Ev e("hvec"); s.head(e); e.i("c", 1); e.done(); }
    void log(Ev& e, int c) { e.i("c", c + 1).L("oPos", c < 2 ? rd[c].position() : un[c - 2].position()); e.done(); }
    void at(int c, uint64_t p) { if (c < 2) rd[c] = Rd(bv, p); else un[c - 2] = Un(bv, p); place[c] = p; Ev e("hat"); e.L("p", p); log(e, c); }
    void op(int c) {
        uint64_t p = place[c]; long w = s.before(p);
        if (c < 2) switch (rng.below(6)) {
            case 0: case 1: { if (p >= s.n) return; bool x = rd[c].next(); place[c]++; Ev e("hnext"); e.i("w", w).i("oV", x); log(e, c); break; }
            case 2: case 3: { uint64_t k = rng.chance(1, 3) ? 64 : rng.below(65); if (p + k > s.n) return; uint64_t x = rd[c].take(k); place[c] += k; Ev e("htake"); e.i("w", w).i("k", (long)k).Q("oV", x); log(e, c); break; }
            default: { if (!s.count_from(p, 1)) return; uint64_t z = rd[c].skip_zeros(); place[c] = s.kth(p, 0, 1) + 1; Ev e("hskz"); e.i("w", w).L("oV", z).i("wc", s.before(p + z)); log(e, c); break; }
        } else {
            int what = (int)rng.below(4); uint64_t have = s.count_from(p, what != 3); if (!have) return;
            uint64_t k = rng.below(std::min<uint64_t>(have, rng.chance(1, 6) ? (1ULL << 33) : rng.chance(1, 3) ? 200 : 4));
            Un& u = un[c - 2];
            if (what == 0) { uint64_t q = u.next(); place[c] = s.kth(p, 0, 1) + 1; Ev e("hunext"); e.i("w", w).L("oV", q).i("wc", s.before(q)); log(e, c); }
            else if (what == 1) { u.skip(k); place[c] = s.kth(p, k, 1); Ev e("hskip"); e.i("w", w).L("k", k).i("wc", s.before(u.position())); log(e, c); }
            else if (what == 2) { uint64_t q = u.skip_no_move(k); Ev e("hpeek"); e.i("w", w).L("k", k).L("oV", q).i("wc", s.before(q)); log(e, c); }
            else { u.skip0(k); place[c] = s.kth(p, k, 0); Ev e("hskip0"); e.i("w", w).L("k", k).i("wc", s.before(u.position())); log(e, c); }
        }
    }
};
static void huge(int v, int rounds) {
    HRun h; h.begin(v); std::vector<uint64_t> q = h.s.probes((size_t)rounds);
    for (size_t i = 0; i < q.size(); ++i) { int c = (int)(i % 4); h.at(c, q[i]); size_t m = 1 + rng.below(8); for (size_t k = 0; k < m; ++k) h.op(c); }
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        for (int v = 0; v < 2; ++v) for (int i = 0; i < (T ? 4 : 1); ++i) if (scenario(v ? "huge-sparse" : "huge-dense")) huge(v, T ? 1500 : 300);
        finish(); return 0;
    }
    if (!args.gen.empty()) {
        std::ifstream in(args.gen.c_str()); std::string line;
        while (std::getline(in, line)) if (scenario("gen")) replay(line);
    }
    // every start, then a pair of reads of every length, then a zero run and a bit
    for (size_t off = 0; off < 66; ++off) if (scenario("reader-at-" + std::to_string(off))) {
        Run t; t.begin(fill(64 * 5 + rng.below(64), (int)(off % 3 == 0 ? 1 : off % 3 == 1 ? 0 : 10), rng));
        for (size_t k = 0; k <= 64; ++k) {
            t.at(0, off); t.take(0, k);
            if (k & 1) t.skz(0); else t.next(0);
            t.take(0, rng.below(65)); t.skz(0); t.next(0); t.take(0, 64); t.skz(0);
        }
        // walk to the very end in various strides
        for (size_t st = 1; st <= 64; st += 1 + rng.below(4)) { t.at(0, off); while (t.place[0] + st <= t.n()) t.take(0, st); while (t.place[0] < t.n()) t.next(0); }
        t.at(0, off); while (t.ones_from(t.place[0]) > 0) t.skz(0);
        fflush(logf_);
    }
    for (size_t off = 0; off < 66; ++off) for (int s = 0; s < 3; ++s) if (scenario("ones-at-" + std::to_string(off))) {
        Run t; t.begin(fill(64 * 5 + rng.below(64), s == 0 ? 0 : s == 1 ? 1 : 2, rng));
        t.at(2, off); while (t.ones_from(t.place[2]) > 0) t.next(2);
        for (long k = 0; k < 200; k += 1 + (long)rng.below(3)) {
            t.at(2, off); t.peek(2, k); t.skip(2, k); t.next(2); t.peek(2, 0); t.next(2); t.skip0(2, k % 7); t.next(2);
            t.at(2, off); t.next(2); t.skip(2, k); t.skip0(2, 0); t.skip(2, 1);
            t.at(2, off); t.skip0(2, k); t.peek(2, 0); t.next(2); t.skip0(2, 1); t.skip0(2, 0);
        }
        fflush(logf_);
    }
    // random interleavings of four cursors on all kinds of vectors
    for (int i = 0; i < (T ? 1200 : 240); ++i) if (scenario("mixed")) {
        Run t; size_t n = rng.chance(1, 3) ? 64 * (1 + rng.below(8)) : 2 + rng.below(rng.chance(1, 8) ? 3000 : 500);
        BV b = fill(n, i, rng);
        t.begin(b);
        for (int c = 0; c < 4; ++c) t.at(c, rng.below(n));
        for (int k = 0; k < 150; ++k) { int c = (int)rng.below(4); if (rng.chance(1, 25)) t.cp(c); else t.random_op(c); if (rng.chance(1, 40)) t.at(c, rng.below(n)); }
        fflush(logf_);
    }
    finish();
    return 0;
}
