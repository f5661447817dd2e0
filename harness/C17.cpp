// C17: the word primitives, called directly.
#include "vf.hpp"
#include "succinct/broadword.hpp"
using namespace vf;
namespace B = succinct::broadword;

static void word(uint64_t x) {
    Ev e("w"); e.Q("x", x);
    uint64_t pc = B::popcount(x), bc = B::byte_counts(x);
    e.u("oPop", pc).Q("oBc", bc).u("oBs", B::bytes_sum(bc)).Q("oRy", B::reverse_bytes(x)).Q("oRb", B::reverse_bits(x));
    unsigned long r = 77; bool h = B::msb(x, r); e.i("oM", h ? clip(r) : NA);
    r = 77; h = B::lsb(x, r); e.i("oL", h ? clip(r) : NA);
    e.i("oM1", x ? (long)B::msb(x) : NA).i("oL1", x ? (long)B::lsb(x) : NA);
    std::vector<long> s; uint64_t k = 0;
    for (uint64_t y = x; y; y &= y - 1, ++k) s.push_back(clip(B::select_in_word(x, k)));
    e.vec("oS", s).i("oP", x && !(x & (x - 1)) ? (long)B::bit_position(x) : NA);
    e.done(false);
}
static uint64_t gcount = 0;
static void words(std::vector<uint64_t> const& v) { for (size_t i = 0; i < v.size(); ++i) word(v[i]); fflush(logf_); gcount += v.size(); }

typedef std::vector<std::vector<long> > VV;
static std::vector<long> lanes(uint64_t x, unsigned w, unsigned n) { std::vector<long> r; for (unsigned i = 0; i < n; ++i) r.push_back((long)((x >> (w * i)) & ((1u << w) - 1))); return r; }
static uint64_t pack(std::vector<long> const& l, unsigned w) { uint64_t x = 0; for (size_t i = 0; i < l.size(); ++i) x |= (uint64_t)l[i] << (w * i); return x; }
// result lanes, or an extra entry BAD when bits other than the lowest of each lane are set
static std::vector<long> res(uint64_t r, unsigned w, unsigned n) {
    std::vector<long> o = lanes(r, w, n); uint64_t m = 0; for (unsigned i = 0; i < n; ++i) m |= 1ULL << (w * i); if (r & ~m) o.push_back(BAD); return o;
}
struct Batch {
    VV x, y, o; const char* name;
    Batch(const char* n) : name(n) {}
    ~Batch() { flush(); }
    void flush() { if (x.empty()) return; Ev e(name); e.vecs("x", x); if (!y.empty()) e.vecs("y", y); e.vecs("oR", o); e.done(false); x.clear(); y.clear(); o.clear(); }
    void add(std::vector<long> const& a, std::vector<long> const& b, std::vector<long> const& r) { x.push_back(a); if (!b.empty()) y.push_back(b); o.push_back(r); if (x.size() == 64) flush(); }
};
static long sg(long v) { return v < 128 ? v : v - 256; }
static bool fits(long a, long b) { long d = sg(b) - sg(a); return d >= -128 && d <= 127; }
static void pair8(Batch& u, Batch& s, Batch& z, std::vector<long> const& a, std::vector<long> const& b) {
    uint64_t x = pack(a, 8), y = pack(b, 8);
    u.add(a, b, res(B::uleq_step_8(x, y), 8, 8));
    z.add(a, std::vector<long>(), res(B::zcompare_step_8(x), 8, 8));
    std::vector<long> c(b); for (int i = 0; i < 8; ++i) while (!fits(a[i], c[i])) c[i] = (long)rng.below(256);
    s.add(a, c, res(B::leq_step_8(x, pack(c, 8)), 8, 8));
}
static void pair9(Batch& u, std::vector<long> const& a, std::vector<long> const& b) {
    uint64_t x = pack(a, 9), y = pack(b, 9); u.add(a, b, res(B::uleq_step_9(x, y), 9, 7));
}
static void same(uint64_t x, uint64_t y) { Ev e("sm"); e.Q("x", x).Q("y", y).i("oR", (long)B::same_msb(x, y)); e.done(false); }

static uint64_t dense(int d) { uint64_t x = rng.next(); for (int i = 0; i < d; ++i) x &= rng.next(); return x; }

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    typedef std::vector<uint64_t> V;
    if (scenario("basic")) { V v; v.push_back(0); v.push_back(~0ULL); for (int i = 0; i < 64; ++i) { v.push_back(1ULL << i); v.push_back(~(1ULL << i)); v.push_back((1ULL << i) - 1); v.push_back(~0ULL << i); } words(v); }
    for (int i = 0; i < 64; ++i) if (scenario("two")) { V v; for (int j = i + 1; j < 64; ++j) { v.push_back((1ULL << i) | (1ULL << j)); v.push_back(~((1ULL << i) | (1ULL << j))); v.push_back(((1ULL << j) - (1ULL << i))); v.push_back(~((1ULL << j) - (1ULL << i))); } words(v); }
    // every byte at every place, among zeros, ones and noise
    for (int p = 0; p < 8; ++p) for (int bg = 0; bg < 4; ++bg) if (scenario("byte")) {
        V v; for (uint64_t b = 0; b < 256; ++b) { uint64_t w = bg == 0 ? 0 : bg == 1 ? ~0ULL : bg == 2 ? rng.next() : dense(2); w &= ~(0xffULL << (8 * p)); v.push_back(w | b << (8 * p)); } words(v);
    }
    // all words of two equal or unequal bytes repeated
    for (int k = 0; k < 16; ++k) if (scenario("rep")) { V v; for (uint64_t b = 0; b < 256; ++b) { uint64_t c = k == 0 ? b : rng.below(256); uint64_t w = 0; for (int i = 0; i < 8; ++i) w |= (i >> (k % 3) & 1 ? c : b) << (8 * i); v.push_back(w); } words(v); }
    for (int i = 0; i < (T ? 400 : 60); ++i) if (scenario("random")) { V v; for (int k = 0; k < 200; ++k) { uint64_t x = dense(k % 5); v.push_back(k & 1 ? ~x : x); v.push_back(x >> rng.below(64)); } words(v); }
    // lane pairs: all 256 x 256, each in some lane next to arbitrary neighbours
    for (int a = 0; a < 256; ++a) for (int rep = 0; rep < (T ? 4 : 1); ++rep) if (scenario("lanes8")) {
        Batch u("u8"), s("s8"), z("z8");
        std::vector<long> ys; for (long b = 0; b < 256; ++b) ys.push_back(b);
        for (size_t k = ys.size(); k > 1; --k) std::swap(ys[k - 1], ys[rng.below(k)]);
        for (int k = 0; k < 256; k += 4) { // four lanes carry the pair, the others are noise or extremes
            std::vector<long> x(8), y(8); for (int i = 0; i < 8; ++i) { x[i] = rng.chance(1, 3) ? (long)rng.below(2) * 255 : (long)rng.below(256); y[i] = rng.chance(1, 3) ? (long)rng.below(2) * 255 : (long)rng.below(256); }
            int off = (int)rng.below(2); for (int i = 0; i < 4; ++i) { x[2 * i + off] = a; y[2 * i + off] = ys[k + i]; }
            pair8(u, s, z, x, y);
        }
    }
    for (int a = 0; a < 512; ++a) if (scenario("lanes9")) {
        Batch u("u9"); std::vector<long> ys; for (long b = 0; b < 512; ++b) if (T || b % 4 == a % 4 || b == a || b == 511 - a || b < 3 || b > 508 || (b >= 254 && b <= 258)) ys.push_back(b);
        for (size_t k = ys.size(); k > 1; --k) std::swap(ys[k - 1], ys[rng.below(k)]);
        while (ys.size() % 7) ys.push_back(ys[0]);
        for (size_t k = 0; k < ys.size(); k += 7) {
            std::vector<long> x(7), y(7); for (int i = 0; i < 7; ++i) { x[i] = a; y[i] = ys[k + (size_t)i]; if (rng.chance(1, 4)) x[i] = (long)rng.below(512); }
            for (int i = 0; i < 7; ++i) if (x[i] == a) { x[i] = a; }
            pair9(u, x, y);
        }
    }
    for (int i = 0; i < 64; ++i) if (scenario("same")) {
        for (int j = 0; j < 64; ++j) { uint64_t a = (1ULL << i) | (rng.next() & ((1ULL << i) - 1)), b = (1ULL << j) | (dense(1) & ((1ULL << j) - 1)); same(a, b); same(1ULL << i, 1ULL << j); same((1ULL << i) * 2 - 1, 1ULL << j); }
        same(0, 1ULL << i); same(1ULL << i, 0); same(rng.next() & ((1ULL << i) - 1), rng.next() & ((1ULL << i) - 1)); same(0, 0);
    }
    finish();
    return 0;
}
