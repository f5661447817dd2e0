// Every kind of structure behind one interface: build from a content, ask
// everything, freeze, map, swap.  Used by the C14, C15, C16, C18, C19 drivers.
#pragma once
#include "bpgen.hpp"
#include "rmqgen.hpp"
#include "listgen.hpp"
#include "succinct/mapper.hpp"
#include "succinct/bit_vector.hpp"
#include "succinct/rs_bit_vector.hpp"
#include "succinct/bp_vector.hpp"
#include "succinct/darray.hpp"
#include "succinct/darray64.hpp"
#include "succinct/elias_fano.hpp"
#include "succinct/elias_fano_list.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
#include "succinct/nibble_vector.hpp"
#include "succinct/cartesian_tree.hpp"
#include "succinct/topk_vector.hpp"
#include "succinct/forward_enumerator.hpp"

namespace vf {
namespace S = succinct;
namespace M = succinct::mapper;

// a user structure with every kind of member
struct Inner {
    M::mappable_vector<int16_t> w; S::gamma_vector g;
    template <class V> void map(V& visit) { visit(w, "w")(g, "g"); }
    void swap(Inner& o) { w.swap(o.w); g.swap(o.g); }
};
struct User {
    uint64_t a; uint8_t d; M::mappable_vector<uint32_t> b; S::elias_fano c; S::rs_bit_vector e; Inner in; uint16_t z;
    User() : a(0), d(0), z(0) {}
    template <class V> void map(V& visit) { visit(a, "a")(b, "b")(c, "c")(d, "d")(e, "e")(in, "in")(z, "z"); }
    void swap(User& o) { std::swap(a, o.a); std::swap(d, o.d); std::swap(z, o.z); b.swap(o.b); c.swap(o.c); e.swap(o.e); in.swap(o.in); }
};

enum Kind { K_V8, K_V16, K_V32, K_V64, K_BV, K_RS, K_BP, K_DA1, K_DA0, K_D64, K_EF, K_EFN, K_EFL, K_EFC, K_GV, K_GB, K_NV,
            K_CT, K_TKV, K_TKC, K_TKG, K_USER, KINDS_N };
inline const char* kind_name(int k) {
    static const char* n[KINDS_N] = {"v8", "v16", "v32", "v64", "bv", "rs", "bp", "da1", "da0", "d64", "ef", "efn", "efl", "efc",
        "gv", "gb", "nv", "ct", "tkv", "tkc", "tkg", "user"};
    return n[k];
}

// What an object is built from.  b: bits; x: integers; n: universe; fl: index flags; route: how it is built
struct Content { int kind; int fl; uint64_t n; BV b; U64s x; uint64_t seed; Content() : kind(0), fl(0), n(0), seed(0) {} };

inline Content content_make(int kind, size_t size, int shape, Rng& r) {
    Content c; c.kind = kind; c.fl = (int)r.below(4); c.seed = r.next();
    switch (kind) {
    case K_V8: c.x = list_make(size, 255, shape, r); break;
    case K_V16: c.x = list_make(size, 65535, shape, r); break;
    case K_V32: c.x = list_make(size, 0x7fffffff, shape, r); break;
    case K_V64: c.x = list_make(size, ~0ULL, shape, r); break;
    case K_BV: case K_RS: case K_DA1: case K_DA0: c.b = fill(size, shape, r); break;
    case K_BP: c.b = bp_make(size & ~(size_t)1, shape, r.next() & 1); break;
    case K_D64: c.x = list_make(size, 63, shape, r); break;
    case K_EF: case K_EFN: c.n = 1 + (r.next() >> r.below(64)); if (!c.n) c.n = ~0ULL; if (!size) c.n = r.below(500); c.x = size ? ef_make(c.n, size, shape, r) : U64s(); break;
    case K_EFL: c.x = list_sum(list_make(size, ~0ULL - 1, shape, r), ~0ULL - 1); break;
    case K_EFC: case K_GV: c.x = list_make(size, ~0ULL - 1, shape, r); break;
    case K_GB: c.x = list_make(size, ~0ULL - 2, shape, r); break;
    case K_NV: c.x = list_make(size, 15, shape, r); break;
    case K_CT: case K_TKV: case K_TKC: case K_TKG: { Seq s = seq_make(size, shape, r); c.x.assign(s.begin(), s.end()); break; }
    case K_USER: c.x = list_make(size, 0xffff, shape, r); c.b = fill(size + 3, shape, r); c.n = c.seed; break;
    }
    return c;
}

// contents whose select indexes hold blocks too long for their short offsets, and trees of several levels
// (one draw per statement: the order must not depend on the compiler)
inline Content content_wide(int kind, Rng& r) {
    Content c; c.kind = kind; c.fl = (int)r.below(4); c.seed = r.next();
    if (kind == K_DA1 || kind == K_DA0 || kind == K_BV || kind == K_RS) {
        size_t n = 150000 + r.below(60000); unsigned char v = (unsigned char)r.below(2); if (kind == K_DA0) v = 1; if (kind == K_DA1) v = 0;
        c.b.assign(n, v); size_t k = 900 + r.below(2500);
        while (k--) { size_t at = n / 2 + r.below(4000); if (r.chance(1, 3)) at = r.below(n); c.b[at] = !v; }
        return c;
    }
    if (kind == K_EF || kind == K_EFN) { // most values share their high part, then there is a gap
        size_t m = 130000 + r.below(20000), few = 300; few += r.below(900); c.n = m * 2; if (r.chance(1, 2)) c.n += m; c.n += r.below(m);
        uint64_t at = r.below(1000), run = 30000; if (r.chance(1, 2)) run = 90000;
        for (size_t i = 0; i < m - few; ++i) c.x.push_back(at + i / run);
        for (size_t i = 0; i < few; ++i) c.x.push_back(c.n - 1 - few + i + r.below(2));
        std::sort(c.x.begin(), c.x.end()); return c;
    }
    size_t size = kind >= K_CT ? 60000 + r.below(30000) : 90000 + r.below(60000); int shape = (int)r.below(60);
    c = content_make(kind, size, shape, r);
    if (kind == K_EFL || kind == K_EFC) { // short values with one long stretch between them
        size_t m = c.x.size(); for (size_t i = 0; i < m; ++i) c.x[i] = 0;
        for (size_t i = 0; i < 1200; ++i) c.x[m / 2 + i] = kind == K_EFL ? (i == 500 ? 2 * m : 1) : (i % 2 ? ~0ULL - 1 - i : i);
    }
    return c;
}

// the same content read backwards: same sizes and counts, so that it can be asked the same questions
inline Content content_mirror(Content const& c) {
    Content d = c;
    std::reverse(d.b.begin(), d.b.end());
    if (c.kind == K_BP) for (size_t i = 0; i < d.b.size(); ++i) d.b[i] = !d.b[i];
    std::reverse(d.x.begin(), d.x.end());
    if (c.kind == K_EF || c.kind == K_EFN) for (size_t i = 0; i < d.x.size(); ++i) d.x[i] = c.n - 1 - d.x[i];
    return d;
}
// one half unlike the other
inline Content content_halves(int kind, size_t size, Rng& r) {
    Content c = content_make(kind, size / 2, (int)r.below(60), r), d = content_make(kind, size / 2, (int)r.below(60), r);
    c.b.insert(c.b.end(), d.b.begin(), d.b.end());
    if (kind == K_EF || kind == K_EFN) {
        uint64_t half = ~0ULL >> 1; if (c.n > half) { uint64_t cut = half; while (!c.x.empty() && c.x.back() >= cut) c.x.pop_back(); c.n = cut; }
        if (d.n > half) { while (!d.x.empty() && d.x.back() >= half) d.x.pop_back(); d.n = half; }
        for (size_t i = 0; i < d.x.size(); ++i) d.x[i] += c.n;
        c.n += d.n;
    }
    c.x.insert(c.x.end(), d.x.begin(), d.x.end());
    if (kind == K_EFL) { uint64_t s = 0; for (size_t i = 0; i < c.x.size(); ++i) { if (c.x[i] > (~0ULL - 1) - s) c.x[i] = 0; s += c.x[i]; } }
    return c;
}

typedef U64s Ans;
inline void put(Ans& a, uint64_t v) { a.push_back(v); }
// up to lim indices of 0..n-1, the same for the same content
inline std::vector<size_t> some(size_t n, size_t lim, uint64_t seed) {
    std::vector<size_t> r; if (n <= lim) { for (size_t i = 0; i < n; ++i) r.push_back(i); return r; }
    Rng g(seed); for (size_t i = 0; i < lim; ++i) r.push_back((size_t)g.below(n)); r.push_back(n - 1); r.push_back(0); return r;
}
inline size_t ones_of(BV const& b) { size_t k = 0; for (size_t i = 0; i < b.size(); ++i) k += b[i]; return k; }

template <class T> struct Put { // elements converted for a range of the right type
    std::vector<T> v; Put(U64s const& x) : v(x.size()) { for (size_t i = 0; i < x.size(); ++i) v[i] = (T)x[i]; }
};

static const size_t LIM = 150;
// construct T(args) in place of o, or construct it elsewhere and swap it in
template <class T, class... A> inline void set(T& o, int route, A&&... args_) {
    if (route & 4) { o.~T(); new (&o) T(std::forward<A>(args_)...); } else { T t(std::forward<A>(args_)...); t.swap(o); }
}

// ---- building (by two routes where there are two) and asking, per type
template <class T> inline void mk(M::mappable_vector<T>& o, Content const& c, int route) {
    Put<T> p(c.x);
    if (route & 1) { if (route & 4) o.steal(p.v); else { M::mappable_vector<T> t; t.steal(p.v); t.swap(o); } } else if (route & 4) o.assign(p.v); else set(o, 0, p.v);
}
template <class T> inline void q(M::mappable_vector<T> const& o, Content const& c, Ans& a) {
    put(a, o.size()); if (o.size() != c.x.size()) return;
    std::vector<size_t> s = some(c.x.size(), LIM, c.seed); for (size_t i = 0; i < s.size(); ++i) put(a, (uint64_t)o[s[i]]);
    uint64_t h = 0; for (typename M::mappable_vector<T>::const_iterator it = o.begin(); it != o.end(); ++it) h = h * 1000003 + (uint64_t)*it; put(a, h);
}
inline void fillb(S::bit_vector_builder& bb, BV const& b, int route) {
    if (route & 2) { bb.reserve(b.size()); }
    for (size_t i = 0; i < b.size(); ++i) bb.push_back(b[i]);
}
inline void mk(S::bit_vector& o, Content const& c, int route) {
    if (route & 1) { S::bit_vector_builder bb; fillb(bb, c.b, route); set(o, route, &bb); } else set(o, route, c.b);
}
inline void q(S::bit_vector const& o, Content const& c, Ans& a) {
    put(a, o.size()); size_t n = c.b.size(); if (o.size() != n) return;
    std::vector<size_t> s = some(n, LIM, c.seed);
    for (size_t i = 0; i < s.size(); ++i) {
        size_t p = s[i]; put(a, o[p]); put(a, o.get_bits(p, std::min<size_t>(64, n - p))); put(a, o.get_word(p));
    }
    size_t f = 0; while (f < n && !c.b[f]) ++f;
    size_t z = 0, lf = n, lz = n; while (z < n && c.b[z]) ++z; while (lf > 0 && !c.b[lf - 1]) --lf; while (lz > 0 && c.b[lz - 1]) --lz; // lf, lz: one past the last one, zero
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] >= f) put(a, o.predecessor1(s[i])); if (s[i] >= z) put(a, o.predecessor0(s[i]));
        if (s[i] < lf) put(a, o.successor1(s[i])); if (s[i] < lz) put(a, o.successor0(s[i]));
        if (s[i] / 8 + 8 <= (n + 63) / 64 * 8) put(a, o.get_word56(s[i]) & ((1ULL << 56) - 1));
        if (s[i] < lf) { S::bit_vector::enumerator e(o, s[i]); put(a, e.skip_zeros()); put(a, e.position()); put(a, e.position() < n ? e.next() : 2); }
    }
    { Rng g(c.seed + 20); for (size_t i = 0; i < s.size() && i < 40; ++i) { // k more ones / zeros from here
        size_t l1 = 0, l0 = 0; for (size_t j = s[i]; j < n && j < s[i] + 700; ++j) (c.b[j] ? l1 : l0)++;
        if (l1) { S::bit_vector::unary_enumerator u(o, s[i]); uint64_t k = g.below(l1); put(a, u.skip_no_move(k)); u.skip(k); put(a, u.position()); put(a, u.next()); }
        if (l0) { S::bit_vector::unary_enumerator u(o, s[i]); u.skip0(g.below(l0)); put(a, u.position()); if (u.position() < lf) put(a, u.next()); }
    } }
    S::bit_vector::enumerator e(o, 0); size_t p = 0; while (p + 13 <= n && p < 2000) { put(a, e.take(13)); p += 13; }
    if (f < n) { S::bit_vector::unary_enumerator u(o, 0); size_t k = ones_of(c.b); for (size_t i = 0; i < k && i < LIM; ++i) put(a, u.next()); }
}
inline void mk(S::rs_bit_vector& o, Content const& c, int route) {
    if (route & 1) { S::bit_vector_builder bb; fillb(bb, c.b, route); set(o, route, &bb, (bool)(c.fl & 1), (bool)(c.fl & 2)); }
    else set(o, route, c.b, (bool)(c.fl & 1), (bool)(c.fl & 2));
}
inline void q(S::rs_bit_vector const& o, Content const& c, Ans& a) {
    q((S::bit_vector const&)o, c, a); size_t n = c.b.size(); if (o.size() != n) return;
    size_t k = ones_of(c.b); put(a, o.num_ones()); put(a, o.num_zeros()); if (o.num_ones() != k) return;
    std::vector<size_t> s = some(n + 1, LIM, c.seed + 1); for (size_t i = 0; i < s.size(); ++i) { put(a, o.rank(s[i])); put(a, o.rank0(s[i])); }
    s = some(k, LIM, c.seed + 2); for (size_t i = 0; i < s.size(); ++i) put(a, o.select(s[i]));
    s = some(n - k, LIM, c.seed + 3); for (size_t i = 0; i < s.size(); ++i) put(a, o.select0(s[i]));
}
inline void mk(S::bp_vector& o, Content const& c, int route) {
    if (route & 1) { S::bit_vector_builder bb; fillb(bb, c.b, route); set(o, route, &bb, (bool)(c.fl & 1), (bool)(c.fl & 2)); }
    else set(o, route, c.b, (bool)(c.fl & 1), (bool)(c.fl & 2));
}
inline void q(S::bp_vector const& o, Content const& c, Ans& a) {
    q((S::rs_bit_vector const&)o, c, a); size_t n = c.b.size(); if (o.size() != n || !n) return;
    std::vector<size_t> s = some(n, LIM, c.seed + 4);
    for (size_t i = 0; i < s.size(); ++i) { put(a, c.b[s[i]] ? o.find_close(s[i]) : o.find_open(s[i])); put(a, (uint64_t)o.excess(s[i]));
        if (c.b[s[i]] && o.excess(s[i]) > 0) put(a, o.enclose(s[i])); }
    for (size_t i = 0; i + 1 < s.size(); i += 2) { S::bp_vector::excess_t e = 0; put(a, o.excess_rmq(std::min(s[i], s[i + 1]), std::max(s[i], s[i + 1]), e)); put(a, (uint64_t)e); }
}
template <class D> inline void mkd(D& o, Content const& c, int route) { S::bit_vector bv(c.b); set(o, route, bv); }
inline void mk(S::darray1& o, Content const& c, int r) { mkd(o, c, r); }
inline void mk(S::darray0& o, Content const& c, int r) { mkd(o, c, r); }
template <class D> inline void qd(D const& o, Content const& c, size_t k, Ans& a) {
    put(a, o.num_positions()); if (o.num_positions() != k) return; S::bit_vector bv(c.b);
    std::vector<size_t> s = some(k, LIM, c.seed + 5); for (size_t i = 0; i < s.size(); ++i) put(a, o.select(bv, s[i]));
}
inline void q(S::darray1 const& o, Content const& c, Ans& a) { qd(o, c, ones_of(c.b), a); }
inline void q(S::darray0 const& o, Content const& c, Ans& a) { qd(o, c, c.b.size() - ones_of(c.b), a); }
inline void mk(S::darray64& o, Content const& c, int route) { S::darray64::builder b; for (size_t i = 0; i < c.x.size(); ++i) b.append1(c.x[i]); set(o, route, &b); }
inline void q(S::darray64 const& o, Content const& c, Ans& a) {
    put(a, o.num_ones()); put(a, o.bits().size()); if (o.num_ones() != c.x.size()) return;
    std::vector<size_t> s = some(c.x.size(), LIM, c.seed + 6); for (size_t i = 0; i < s.size(); ++i) put(a, o.select(s[i]));
}
inline void mkef(S::elias_fano& o, Content const& c, int route, bool rank) {
    bool dup = false; for (size_t i = 1; i < c.x.size(); ++i) dup = dup || c.x[i] == c.x[i - 1];
    if ((route & 1) && !dup && c.n < 100000) { S::bit_vector_builder bb(c.n); for (size_t i = 0; i < c.x.size(); ++i) bb.set(c.x[i], 1); set(o, route, &bb, rank); return; }
    S::elias_fano::elias_fano_builder b(c.n, c.x.size()); for (size_t i = 0; i < c.x.size(); ++i) b.push_back(c.x[i]);
    set(o, route, &b, rank);
}
inline void mk(S::elias_fano& o, Content const& c, int route) { mkef(o, c, route, c.kind == K_EF); }
inline void q(S::elias_fano const& o, Content const& c, Ans& a) {
    size_t m = c.x.size(); put(a, o.size()); put(a, o.num_ones()); if (o.num_ones() != m || o.size() != c.n) return;
    std::vector<size_t> s = some(m, LIM, c.seed + 7);
    for (size_t i = 0; i < s.size(); ++i) { put(a, o.select(s[i])); put(a, o.delta(s[i])); if (s[i] + 1 < m) { std::pair<uint64_t, uint64_t> p = o.select_range(s[i]); put(a, p.first); put(a, p.second); } }
    if (m) { S::elias_fano::select_enumerator e(o, m / 3); for (size_t i = m / 3; i < m && i < m / 3 + LIM; ++i) put(a, e.next()); }
    for (size_t j = 0; j < s.size() && j < 25; ++j) { S::elias_fano::select_enumerator e(o, s[j]); for (size_t i = s[j]; i < m && i < s[j] + 30; ++i) put(a, e.next()); }
    if (c.kind == K_EFN) return;
    Rng g(c.seed + 8);
    for (int i = 0; i < 60; ++i) {
        uint64_t x = m && g.chance(2, 3) ? c.x[g.below(m)] + g.below(3) - 1 : g.below(c.n); if (x >= c.n) continue;
        put(a, o[x]); put(a, o.rank(x)); if (m && c.x[0] <= x) put(a, o.predecessor1(x)); if (m && c.x[m - 1] >= x) put(a, o.successor1(x));
    }
}
template <class L> inline void mkl(L& o, Content const& c, int route) {
    if (route & 1) { std::vector<uint64_t> v(c.x); set(o, route, v); } else { L t(c.x); L u; u.swap(t); u.swap(o); }
}
template <class L> inline void ql(L const& o, Content const& c, Ans& a, bool en) {
    put(a, o.size()); if (o.size() != c.x.size()) return;
    std::vector<size_t> s = some(c.x.size(), LIM, c.seed + 9); for (size_t i = 0; i < s.size(); ++i) put(a, (uint64_t)o[s[i]]);
    (void)en;
}
template <class L> inline void qe(L const& o, Content const& c, Ans& a) {
    if (o.size() != c.x.size() || c.x.empty()) return; size_t st = c.x.size() / 3;
    S::forward_enumerator<L> e(o, st); for (size_t i = st; i < c.x.size() && i < st + LIM; ++i) put(a, (uint64_t)e.next());
}
inline void mk(S::elias_fano_list& o, Content const& c, int r) { mkl(o, c, r); }
inline void mk(S::elias_fano_compressed_list& o, Content const& c, int r) { mkl(o, c, r); }
inline void mk(S::gamma_vector& o, Content const& c, int r) { mkl(o, c, r); }
inline void mk(S::gamma_bit_vector& o, Content const& c, int r) { mkl(o, c, r); }
inline void mk(S::nibble_vector& o, Content const& c, int r) { mkl(o, c, r); }
inline void q(S::elias_fano_list const& o, Content const& c, Ans& a) { ql(o, c, a, true); qe(o, c, a); if (o.size() == c.x.size()) put(a, o.sum()); }
inline void q(S::elias_fano_compressed_list const& o, Content const& c, Ans& a) { ql(o, c, a, true); qe(o, c, a); }
inline void q(S::gamma_vector const& o, Content const& c, Ans& a) { ql(o, c, a, true); qe(o, c, a); }
inline void q(S::gamma_bit_vector const& o, Content const& c, Ans& a) { ql(o, c, a, true); qe(o, c, a); }
inline void q(S::nibble_vector const& o, Content const& c, Ans& a) { ql(o, c, a, false); }
inline void mk(S::cartesian_tree& o, Content const& c, int route) {
    if (route & 1) { S::cartesian_tree::builder<uint64_t> b(route & 2 ? c.x.size() : 0); for (size_t i = 0; i < c.x.size(); ++i) b.push_back(c.x[i], std::less<uint64_t>()); set(o, route, &b); }
    else set(o, route, c.x);
}
inline void q(S::cartesian_tree const& o, Content const& c, Ans& a) {
    put(a, o.size()); if (o.size() != c.x.size()) return;
    std::vector<size_t> s = some(c.x.size(), LIM, c.seed + 10);
    for (size_t i = 0; i + 1 < s.size(); ++i) put(a, o.rmq(std::min(s[i], s[i + 1]), std::max(s[i], s[i + 1])));
}
template <class V> inline void mk(S::topk_vector<V>& o, Content const& c, int route) { Put<typename V::value_type> p(c.x); set(o, route, p.v); }
template <class V> inline void q(S::topk_vector<V> const& o, Content const& c, Ans& a) {
    put(a, o.size()); if (o.size() != c.x.size() || c.x.empty()) return;
    std::vector<size_t> s = some(c.x.size(), 40, c.seed + 11);
    for (size_t i = 0; i + 1 < s.size(); ++i) {
        typename S::topk_vector<V>::entry_vector_type r = o.topk(std::min(s[i], s[i + 1]), std::max(s[i], s[i + 1]), 5);
        for (size_t j = 0; j < r.size(); ++j) { put(a, (uint64_t)boost::get<0>(r[j])); put(a, boost::get<1>(r[j])); }
        put(a, (uint64_t)o[s[i]]);
    }
}
inline Content sub(Content const& c, int kind) {
    Content d = c; d.kind = kind;
    if (kind == K_EF) { std::sort(d.x.begin(), d.x.end()); d.n = 70000; }
    if (kind == K_V16) for (size_t i = 0; i < d.x.size(); ++i) d.x[i] &= 0x7fff;
    return d;
}
inline void mk(User& o, Content const& c, int r) {
    User u; u.a = c.n; u.d = (uint8_t)(c.n >> 9); u.z = (uint16_t)(c.n >> 20);
    mk(u.b, c, r); mk(u.c, sub(c, K_EF), r); mk(u.e, sub(c, K_RS), r); mk(u.in.w, sub(c, K_V16), r); mk(u.in.g, sub(c, K_GV), r);
    u.swap(o);
}
inline void q(User const& o, Content const& c, Ans& a) {
    put(a, o.a); put(a, o.d); put(a, o.z); q(o.b, c, a); q(o.c, sub(c, K_EF), a); q(o.e, sub(c, K_RS), a); q(o.in.w, sub(c, K_V16), a); q(o.in.g, sub(c, K_GV), a);
}

struct Obj {
    virtual ~Obj() {}
    virtual void build(Content const&, int route) = 0;
    virtual void ask(Content const&, Ans&) const = 0;
    virtual size_t freeze(const char* file, uint64_t flags) = 0;
    virtual size_t freeze(std::ofstream&, uint64_t flags) = 0;
    virtual size_t map(const char* addr, uint64_t flags) = 0;
    virtual size_t map(boost::iostreams::mapped_file_source const&, uint64_t flags) = 0;
    virtual size_t size_of() = 0;
    virtual M::size_node_ptr tree() = 0;
    virtual void swap(Obj&) = 0;
    virtual void const* raw() const = 0;
};
template <class T> struct ObjT : Obj {
    T t;
    void build(Content const& c, int route) { mk(t, c, route); }
    void ask(Content const& c, Ans& a) const { q(t, c, a); }
    size_t freeze(const char* f, uint64_t fl) { return M::freeze(t, f, fl); }
    size_t freeze(std::ofstream& f, uint64_t fl) { return M::freeze(t, f, fl, "name"); }
    size_t map(const char* p, uint64_t fl) { return M::map(t, p, fl); }
    size_t map(boost::iostreams::mapped_file_source const& m, uint64_t fl) { return M::map(t, m, fl); }
    size_t size_of() { return M::size_of(t); }
    M::size_node_ptr tree() { return M::size_tree_of(t); }
    void swap(Obj& o) { t.swap(static_cast<ObjT<T>&>(o).t); }
    void const* raw() const { return &t; }
};
inline Obj* obj_new(int kind) {
    switch (kind) {
    case K_V8: return new ObjT<M::mappable_vector<uint8_t> >;
    case K_V16: return new ObjT<M::mappable_vector<uint16_t> >;
    case K_V32: return new ObjT<M::mappable_vector<int32_t> >;
    case K_V64: return new ObjT<M::mappable_vector<uint64_t> >;
    case K_BV: return new ObjT<S::bit_vector>;
    case K_RS: return new ObjT<S::rs_bit_vector>;
    case K_BP: return new ObjT<S::bp_vector>;
    case K_DA1: return new ObjT<S::darray1>;
    case K_DA0: return new ObjT<S::darray0>;
    case K_D64: return new ObjT<S::darray64>;
    case K_EF: case K_EFN: return new ObjT<S::elias_fano>;
    case K_EFL: return new ObjT<S::elias_fano_list>;
    case K_EFC: return new ObjT<S::elias_fano_compressed_list>;
    case K_GV: return new ObjT<S::gamma_vector>;
    case K_GB: return new ObjT<S::gamma_bit_vector>;
    case K_NV: return new ObjT<S::nibble_vector>;
    case K_CT: return new ObjT<S::cartesian_tree>;
    case K_TKV: return new ObjT<S::topk_vector<M::mappable_vector<uint32_t> > >;
    case K_TKC: return new ObjT<S::topk_vector<S::elias_fano_compressed_list> >;
    case K_TKG: return new ObjT<S::topk_vector<S::gamma_vector> >;
    default: return new ObjT<User>;
    }
}
inline uint64_t hash64(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p; uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return h ^ (n << 1);
}
inline uint64_t hash64(Ans const& a) { return hash64(a.empty() ? 0 : &a[0], a.size() * 8); }
inline std::string slurp(std::string const& f) { std::ifstream in(f.c_str(), std::ios::binary); std::stringstream s; s << in.rdbuf(); return s.str(); }
}
