// C01: histories of two builders, then the bit vectors built from them.
#include "gen.hpp"
#include "succinct/bit_vector.hpp"
using namespace vf;
namespace S = succinct;

static uint64_t pattern(int p, size_t len) {
    uint64_t mask = len == 64 ? ~0ULL : ((1ULL << len) - 1), v;
    switch (p) {
    case 0: v = 0; break;
    case 1: v = ~0ULL; break;
    case 2: v = len ? 1ULL << (len - 1) : 0; break;
    case 3: v = 1; break;
    case 4: v = 0xAAAAAAAAAAAAAAAAULL; break;
    default: v = rng.next(); break;
    }
    return v & mask;
}

struct Two {
    std::unique_ptr<S::bit_vector_builder> b[2];
    Two() { b[0].reset(new S::bit_vector_builder()); b[1].reset(new S::bit_vector_builder()); }
    size_t n(int i) { return b[i]->size(); }
    void begin() { Ev e("start"); e.done(false); }
    void after(Ev& e, int i) { e.i("x", i + 1).u("oN", b[i]->size()); e.done(false); }
    void mk(int i, size_t n, bool v) { fflush(logf_); b[i].reset(new S::bit_vector_builder(n, v)); Ev e("new"); e.i("n", (long)n).i("v", v); after(e, i); }
    void push(int i, bool v) { b[i]->push_back(v); Ev e("push"); e.i("v", v); after(e, i); }
    void set(int i, size_t p, bool v) { if (p >= n(i)) return; b[i]->set(p, v); Ev e("set"); e.i("p", (long)p).i("v", v); after(e, i); }
    void setf(int i, size_t p, size_t len, int pat) {
        if (p + len > n(i)) return;
        uint64_t w = pattern(pat, len); b[i]->set_bits(p, w, len);
        Ev e("setf"); e.i("p", (long)p).W("w", w, (unsigned)len); after(e, i);
    }
    void app(int i, size_t len, int pat) { uint64_t w = pattern(pat, len); b[i]->append_bits(w, len); Ev e("app"); e.W("w", w, (unsigned)len); after(e, i); }
    void zext(int i, size_t k) { b[i]->zero_extend(k); Ev e("zext"); e.i("k", (long)k); after(e, i); }
    void oext(int i, size_t k) { b[i]->one_extend(k); Ev e("oext"); e.i("k", (long)k); after(e, i); }
    void cat(int i) { b[i]->append(*b[1 - i]); Ev e("cat"); after(e, i); }
    void rev(int i) { b[i]->reverse(); Ev e("rev"); after(e, i); }
    void res(int i, size_t k) { b[i]->reserve(k); Ev e("res"); after(e, i); }
    void swap(int i) { b[i]->swap(*b[1 - i]); Ev e("swap"); after(e, i); }
    void fin() {
        fflush(logf_);
        for (int i = 0; i < 2; ++i) {
            S::bit_vector v(b[i].get());
            std::vector<long> bits;
            for (size_t k = 0; k < v.size(); ++k) bits.push_back(v[k]);
            // the last stored word, read as zero-padded
            std::vector<uint64_t> t;
            if (v.size()) t.push_back(v.get_word((v.size() - 1) / 64 * 64));
            Ev e("fin"); e.i("x", i + 1).vec("oB", bits).Qs("oTail", t); e.done();
        }
    }
};

static void replay(std::string const& script) {
    Two t; t.begin();
    std::stringstream ss(script); std::string item;
    while (std::getline(ss, item, ';')) {
        std::stringstream is(item); std::string op; is >> op;
        std::vector<long> a; long x; while (is >> x) a.push_back(x);
        int b = (int)a.back() - 1;
        if (op == "new") t.mk(b, (size_t)a[0], a[1]);
        else if (op == "push") t.push(b, a[0]);
        else if (op == "set") t.set(b, (size_t)a[0], a[1]);
        else if (op == "setf") t.setf(b, (size_t)a[0], (size_t)a[1], (int)a[2]);
        else if (op == "app") t.app(b, (size_t)a[0], (int)a[1]);
        else if (op == "zext") t.zext(b, (size_t)a[0]);
        else if (op == "oext") t.oext(b, (size_t)a[0]);
        else if (op == "cat") t.cat(b);
        else if (op == "rev") t.rev(b);
        else if (op == "res") t.res(b, (size_t)a[0]);
        else if (op == "swap") t.swap(b);
        else { fprintf(stderr, "bad op %s\n", op.c_str()); exit(3); }
    }
    t.fin();
}

// the same builders with billions of bits, nearly all of them equal to 1 - v
struct HugeTwo {
    std::unique_ptr<S::bit_vector_builder> b[2]; int v;
    explicit HugeTwo(int v_) : v(v_) { b[0].reset(new S::bit_vector_builder()); b[1].reset(new S::bit_vector_builder()); Ev e("hstart"); e.i("v", v).i("x", 1); e.done(); }
    uint64_t n(int i) { return b[i]->size(); }
    void after(Ev& e, int i) { e.i("x", i + 1).L("oN", b[i]->size()); e.done(); }
    uint64_t word(size_t len) { // few of the rare value
        uint64_t w = 0; for (int k = (int)rng.below(4); k >= 0; --k) if (len) w |= 1ULL << rng.below(len);
        if (rng.chance(1, 4)) w = rng.next();
        if (!v) w = ~w;
        return len == 64 ? w : w & ((1ULL << len) - 1);
    }
    void mk(int i, uint64_t k) { b[i].reset(new S::bit_vector_builder(k, !v)); Ev e("hnew"); e.L("n", k).i("b", !v); after(e, i); }
    void push(int i) { bool x = rng.next() & 1; b[i]->push_back(x); Ev e("hpush"); e.i("b", x); after(e, i); }
    void set(int i, uint64_t p) { if (p >= n(i)) return; bool x = rng.next() & 1; b[i]->set(p, x); Ev e("hset"); e.L("p", p).i("b", x); after(e, i); }
    void setf(int i, uint64_t p, size_t len) { if (p + len > n(i)) return; uint64_t w = word(len); b[i]->set_bits(p, w, len); Ev e("hsetf"); e.L("p", p).W("w", w, (unsigned)len); after(e, i); }
    void app(int i, size_t len) { uint64_t w = word(len); b[i]->append_bits(w, len); Ev e("happ"); e.W("w", w, (unsigned)len); after(e, i); }
    void ext(int i, uint64_t k) { if (v) b[i]->zero_extend(k); else b[i]->one_extend(k); Ev e("hext"); e.L("k", k).i("b", !v); after(e, i); }
    void cat(int i) { b[i]->append(*b[1 - i]); Ev e("hcat"); after(e, i); }
    void rev(int i) { b[i]->reverse(); Ev e("hrev"); after(e, i); }
    void res(int i, uint64_t k) { b[i]->reserve(k); Ev e("hres"); after(e, i); }
    void swap(int i) { b[i]->swap(*b[1 - i]); Ev e("hswap"); after(e, i); }
    // around the places where 32-bit counts of bits, bytes or words end, the ends of the vector, and anywhere
    uint64_t spot(int i) {
        uint64_t m = n(i), p;
        switch (rng.below(6)) {
        case 0: p = (1ULL << 32) - 70 + rng.below(140); break;
        case 1: p = (1ULL << 31) - 70 + rng.below(140); break;
        case 2: p = rng.below(140); break;
        case 3: p = m - std::min<uint64_t>(m, rng.below(140)); break;
        default: p = rng.below(m);
        }
        return p;
    }
    void some(int i, int k) {
        for (; k > 0; --k) switch (rng.below(8)) {
            case 0: case 1: app(i, rng.below(65)); break;
            case 2: push(i); break;
            case 3: set(i, spot(i)); break;
            case 4: case 5: setf(i, spot(i), rng.below(65)); break;
            case 6: ext(i, rng.below(300)); break;
            case 7: if (rng.chance(1, 3)) res(i, n(i) + rng.below(1000)); break;
        }
    }
    void fin() {
        for (int i = 0; i < 2; ++i) {
            S::bit_vector t(b[i].get()); std::vector<uint64_t> p; uint64_t const* d = t.data().data(); uint64_t m = t.size(), flip = v ? 0 : ~0ULL;
            for (uint64_t k = 0; k < m; k += 64) {
                uint64_t w = d[k / 64] ^ flip; if (!w) continue;
                for (uint64_t j = k; j < std::min(m, k + 64) && p.size() < 100000; ++j) if (t[j] == (v != 0)) p.push_back(j);
            }
            Ev e("hfin"); e.i("x", i + 1).Ls("oP", p).i("oPad", m % 64 ? (long)(d[m / 64] >> (m % 64) != 0) : 0); e.done();
        }
    }
};
static void huge(int v, int shape) {
    const uint64_t P32 = 1ULL << 32; HugeTwo t(v);
    switch (shape) {
    case 0: t.mk(0, P32 - 100 + rng.below(64)); t.some(0, 40); t.mk(1, rng.below(5000)); t.some(1, 20); t.cat(0); t.some(0, 20); t.rev(0); t.some(0, 20); break;
    case 1: t.some(0, 30); t.ext(0, P32 + rng.below(1000)); t.some(0, 40); t.swap(0); t.some(0, 10); t.cat(0); t.some(0, 20); break;
    case 2: t.mk(0, (1ULL << 31) + rng.below(64)); t.some(0, 30); t.ext(1, (1ULL << 31) - rng.below(64)); t.some(1, 30); t.cat(0); t.some(0, 30); t.rev(0); t.some(0, 10); break;
    }
    t.fin();
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        for (int i = 0; i < (T ? 5 : 1); ++i) for (int v = 0; v < 2; ++v) for (int s = 0; s < 3; ++s) if (scenario("huge")) huge(v, s);
        finish(); return 0;
    }
    // behaviours generated by TLC from BuilderGen
    if (!args.gen.empty()) {
        std::ifstream in(args.gen.c_str()); std::string line;
        while (std::getline(in, line)) if (scenario("gen")) replay(line);
    }
    // every offset x every length, for the field operations and what follows them
    for (size_t off = 0; off < 64; ++off) {
        if (scenario("append-at-" + std::to_string(off))) for (size_t len = 0; len <= 64; ++len) {
            Two t; t.begin();
            t.mk(0, off + (rng.chance(1, 3) ? 64 : 0), rng.next() & 1);
            t.app(0, len, len % 3 ? 6 : 1);
            switch (rng.below(6)) {
            case 0: t.push(0, 1); break;
            case 1: t.app(0, rng.below(65), 6); break;
            case 2: t.zext(0, rng.below(70)); t.push(0, 1); break;
            case 3: t.oext(0, rng.below(70)); break;
            case 4: t.rev(0); t.app(0, 5, 1); break;
            case 5: t.res(0, 2000); t.push(0, 1); t.app(0, 64, 6); break;
            }
            t.fin();
        }
        if (scenario("set-at-" + std::to_string(off))) for (size_t len = 0; len <= 64; len += (T ? 1 : 1)) {
            Two t; t.begin();
            size_t word = rng.below(3);
            t.mk(0, std::max<size_t>(word * 64 + off + len + (rng.next() & 1 ? rng.below(90) : 0), 1), rng.next() & 1);
            t.setf(0, word * 64 + off, len, len % 2 ? 6 : 0);
            t.setf(0, word * 64 + off, len, (int)rng.below(7));
            if (rng.next() & 1) t.push(0, 1);
            t.fin();
        }
        // concatenation: this offset, other builder of various lengths
        if (scenario("cat-at-" + std::to_string(off))) for (size_t m = 0; m <= (T ? 200u : 140u); m += (T ? 1 : 1 + rng.below(4))) {
            Two t; t.begin();
            t.mk(0, off + 64 * rng.below(2), rng.next() & 1);
            for (size_t k = m; k > 0;) { size_t q = std::min<size_t>(k, 64); t.app(1, q, rng.chance(2, 3) ? 6 : 1); k -= q; }
            t.cat(0);
            if (rng.next() & 1) { t.push(0, 1); t.cat(0); }
            if (rng.next() & 1) t.cat(1);
            t.fin();
        }
        if (scenario("ext-rev-at-" + std::to_string(off))) for (size_t k = 0; k <= 130; k += 1 + rng.below(4)) {
            Two t; t.begin();
            for (size_t j = 0; j < off; j += 16) t.app(0, std::min<size_t>(16, off - j), 6);
            if (k & 1) t.zext(0, k); else t.oext(0, k);
            if (rng.next() & 1) t.push(0, rng.next() & 1);
            t.rev(0);
            if (rng.next() & 1) t.app(0, rng.below(65), 6);
            if (rng.next() & 1) t.rev(0);
            t.fin();
        }
    }
    // every constructed size and fill, then one more operation
    for (size_t n = 0; n <= (T ? 400u : 200u); ++n) if (scenario("ctor-" + std::to_string(n))) for (int v = 0; v < 2; ++v) for (int op = 0; op < 6; ++op) {
        Two t; t.begin(); t.mk(0, n, v); t.mk(1, rng.below(130), !v);
        if (op == 1) t.push(0, 1);
        if (op == 2) t.rev(0), t.push(0, 1);
        if (op == 3) t.cat(0);
        if (op == 4) t.swap(0), t.push(0, 1), t.push(1, 0), t.app(1, 13, 1);
        if (op == 5) t.res(0, n + 500), t.push(0, 1), t.oext(0, 70);
        t.fin();
    }
    // long builders
    for (int i = 0; i < (T ? 60 : 12); ++i) if (scenario("long")) {
        Two t; t.begin();
        for (int k = 0; k < 120; ++k) {
            int b = (int)rng.below(2);
            switch (rng.below(9)) {
            case 0: t.zext(b, rng.below(900)); break;
            case 1: t.oext(b, rng.below(900)); break;
            case 2: case 3: t.app(b, rng.below(65), (int)rng.below(7)); break;
            case 4: if (t.n(b)) { size_t p = rng.below(t.n(b)); t.setf(b, p, std::min<size_t>(rng.below(65), t.n(b) - p), 6); } break;
            case 5: t.push(b, rng.next() & 1); break;
            case 6: if (t.n(0) + t.n(1) < 12000) t.cat(b); break;
            case 7: if (rng.chance(1, 4)) t.rev(b); else if (rng.chance(1, 3)) t.swap(b); break;
            case 8: if (rng.chance(1, 2)) t.res(b, rng.below(20000)); break;
            }
        }
        t.fin();
    }
    finish();
    return 0;
}
