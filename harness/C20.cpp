// C20: variable-byte codes, the signed/unsigned mapping, ceiling division.
#include "vf.hpp"
#include <deque>
#include <sys/mman.h>
#include "succinct/util.hpp"
#include "succinct/vbyte.hpp"
#include "succinct/mappable_vector.hpp"
#include "succinct/mapper.hpp"
using namespace vf;
namespace S = succinct;
typedef std::vector<uint64_t> V;

// appends all values to a container that already holds `pre` bytes, then decodes at every code start, in some order
template <class C> static void codes(V const& v, size_t pre) {
    C c; std::vector<long> head; for (size_t i = 0; i < pre; ++i) { uint8_t b = (uint8_t)rng.next(); head.push_back(b); c.push_back(b); }
    std::vector<long> ret, size, len; V val(v.size()); len.assign(v.size(), 0); std::vector<size_t> at;
    for (size_t i = 0; i < v.size(); ++i) { at.push_back(c.size()); size.push_back(clip(S::vbyte_size(v[i]))); ret.push_back(clip(S::append_vbyte(c, v[i]))); }
    std::vector<long> bytes; for (size_t i = 0; i < c.size(); ++i) bytes.push_back((long)(uint8_t)c[i]);
    std::vector<size_t> o; for (size_t i = 0; i < v.size(); ++i) o.push_back(i);
    for (size_t k = o.size(); k > 1; --k) std::swap(o[k - 1], o[rng.below(k)]);
    S::mapper::mappable_vector<uint8_t> m; { std::vector<uint8_t> t(c.begin(), c.end()); m.steal(t); }
    bool viam = rng.next() & 1;
    for (size_t k = 0; k < o.size(); ++k) { size_t x = 0xdeadbeef; len[o[k]] = clip(viam ? S::decode_vbyte(m, at[o[k]], x) : S::decode_vbyte(c, at[o[k]], x)); val[o[k]] = x; }
    Ev e("vb"); e.Qs("v", v).vec("pre", head).vec("oSize", size).vec("oRet", ret).vec("oBytes", bytes).vec("oLen", len).Qs("oVal", val); e.done(false);
}
static void codes_any(V const& v) {
    size_t pre = rng.chance(1, 2) ? 0 : rng.below(9);
    switch (rng.below(3)) { case 0: codes<std::vector<uint8_t> >(v, pre); break; case 1: codes<std::string>(v, pre); break; default: codes<std::deque<unsigned char> >(v, pre); }
}
static void nats(V const& v) {
    V n, x, b1, b2;
    for (size_t i = 0; i < v.size(); ++i) {
        n.push_back(S::util::int2nat((int64_t)v[i])); x.push_back((uint64_t)S::util::nat2int(v[i]));
        b1.push_back((uint64_t)S::util::nat2int(n.back())); b2.push_back(S::util::int2nat((int64_t)x.back()));
    }
    Ev e("nat"); e.Qs("v", v).Qs("oNat", n).Qs("oInt", x).Qs("oBackInt", b1).Qs("oBackNat", b2); e.done(false);
}
static std::vector<long> dig(uint64_t v) { std::vector<long> r; for (int i = 0; i < 5; ++i) { r.push_back((long)(v & 32767)); v >>= 15; } return r; }
template <class A, class B> static void cd(uint64_t n, uint64_t d) { // n + d - 1 must be representable in A
    uint64_t lim = (uint64_t)std::numeric_limits<A>::max(); if (!d || d > lim || d > (uint64_t)std::numeric_limits<B>::max() || n > lim || n > lim - (d - 1)) return;
    uint64_t q = (uint64_t)S::util::ceil_div((A)n, (B)d);
    if (d < 32768) { Ev e("cds"); e.vec("n", dig(n)).i("d", (long)d).vec("oQ", dig(q)); e.done(false); }
    if (n / d < 32000) { Ev e("cdq"); e.vec("n", dig(n)).vec("d", dig(d)).i("oQ", q < 32768 ? (long)q : BAD); e.done(false); }
}
static void cds(uint64_t n, uint64_t d) {
    cd<uint64_t, uint64_t>(n, d); cd<uint64_t, int>(n, d); cd<uint32_t, uint32_t>(n, d); cd<uint32_t, uint8_t>(n, d); cd<int, int>(n, d);
    cd<int64_t, int>(n, d); cd<uint16_t, uint16_t>(n, d); cd<uint8_t, uint8_t>(n, d); cd<unsigned long, int>(n, d);
}
static uint64_t any() {
    switch (rng.below(6)) {
    case 0: return rng.below(300);
    case 1: return rng.next() >> rng.below(64);
    case 2: return (1ULL << rng.below(64)) + rng.below(3) - 1;
    case 3: { unsigned g = 7 * (unsigned)rng.range(1, 9); return (1ULL << g) + rng.below(5) - 2; }
    case 4: return ~0ULL - rng.below(300);
    default: return rng.next();
    }
}

// codes far out in a container of many billions of bytes
static void far(uint64_t n, int rounds) {
    size_t room = n + 4096; char* r = (char*)mmap(0, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (r == (char*)MAP_FAILED) { perror("mmap"); exit(3); }
    { uint64_t h[2] = {0, n}; memcpy(r, h, 16);
      S::mapper::mappable_vector<uint8_t> m; S::mapper::map(m, r); if (m.size() != n || m.data() < (uint8_t*)r || m.data() + n > (uint8_t*)r + room) { munmap(r, room); return; } // mapping is not judged here
      uint8_t* d = (uint8_t*)m.data();
      for (int k = 0; k < rounds; ++k) {
        V v; size_t c = 1 + rng.below(20); for (size_t i = 0; i < c; ++i) v.push_back(any());
        std::vector<uint8_t> b; std::vector<size_t> at; std::vector<long> ret, size, len; V val;
        for (size_t i = 0; i < c; ++i) { at.push_back(b.size()); size.push_back(clip(S::vbyte_size(v[i]))); ret.push_back(clip(S::append_vbyte(b, v[i]))); }
        uint64_t o; switch (rng.below(5)) { case 0: o = n - b.size(); break; case 1: o = rng.below(n - b.size()); break; default: { unsigned e = 31 + (unsigned)rng.below(5); o = (1ULL << e) - rng.below(b.size() + 3); if (rng.chance(1, 3)) o += 1ULL << 31; } }
        if (o + b.size() > n) continue;
        if (b.size()) memcpy(d + o, &b[0], b.size());
        for (size_t i = 0; i < c; ++i) { size_t x = 0xdeadbeef; len.push_back(clip(S::decode_vbyte(m, (size_t)o + at[i], x))); val.push_back(x); }
        if (b.size()) memset(d + o, 0, b.size());
        std::vector<long> bytes(b.begin(), b.end()), pre;
        Ev e("vb"); e.L("off", o).Qs("v", v).vec("pre", pre).vec("oSize", size).vec("oRet", ret).vec("oBytes", bytes).vec("oLen", len).Qs("oVal", val); e.done();
      } }
    munmap(r, room);
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        for (int i = 0; i < (T ? 40 : 8); ++i) if (scenario("far")) far((1ULL << 36) + rng.below(1000), 120);
        finish(); return 0;
    }
    for (int b = 0; b < 64; ++b) if (scenario("small")) { V v; for (uint64_t k = 0; k < 300; ++k) v.push_back((uint64_t)b * 300 + k); codes_any(v); nats(v); fflush(logf_); }
    for (int b = 0; b < 64; ++b) if (scenario("power")) {
        V v; for (int d = -3; d <= 3; ++d) { v.push_back((1ULL << b) + (uint64_t)d); v.push_back(~((1ULL << b) + (uint64_t)d)); v.push_back((1ULL << 63) + (1ULL << b) + (uint64_t)d); v.push_back((1ULL << b) | (rng.next() & ((1ULL << b) - 1))); }
        codes_any(v); nats(v); for (size_t i = 0; i < v.size(); ++i) { V w(1, v[i]); codes_any(w); }
        for (size_t i = 0; i < v.size(); ++i) for (uint64_t d = 1; d < 130; d += rng.below(9) + 1) { cds(v[i], d); cds(v[i] - 1, v[i] / d + 1); }
        fflush(logf_);
    }
    for (int i = 0; i < (T ? 4000 : 600); ++i) if (scenario("random")) { V v; size_t m = rng.below(40); for (size_t k = 0; k < m; ++k) v.push_back(any()); codes_any(v); if (m) nats(v); }
    for (int i = 0; i < (T ? 40 : 8); ++i) if (scenario("long")) { V v; for (size_t k = 0; k < 3000; ++k) v.push_back(any()); codes_any(v); nats(v); }
    for (uint64_t d = 1; d <= 16; ++d) if (scenario("div-small")) for (uint64_t n = 0; n < 130; ++n) cds(n, d);
    for (int i = 0; i < (T ? 200 : 48); ++i) if (scenario("div")) { for (int k = 0; k < 60; ++k) { uint64_t d = any(), n = any(); cds(n, d); cds(n, d & 63 ? d & 63 : 64); cds(d * (n & 1023), d); cds(d * (n & 1023) + 1, d); cds(d * (n & 1023) - 1, d); } fflush(logf_); }
    finish();
    return 0;
}
