// Single queries with arguments, for every kind: a list of questions that a content can be asked (all within
// their preconditions) and the answer of an object as one 64-bit value.
#pragma once
#include "kinds.hpp"
namespace vf {
struct Query { int op; uint64_t a, b; };
typedef std::vector<Query> Queries;
struct Aux { S::bit_vector bv; explicit Aux(Content const& c) { S::bit_vector t(c.b); t.swap(bv); } }; // the vector a bare select index reads

// positions with close neighbours: same word, same block, same superblock, and far apart
inline std::vector<uint64_t> places(uint64_t n, size_t lim, Rng& r) {
    std::vector<uint64_t> p; if (!n) return p; p.push_back(0); p.push_back(n - 1);
    static const uint64_t near[] = {1, 2, 63, 64, 65, 511, 512, 1024, 2048};
    while (p.size() < lim) { uint64_t x = r.below(n); p.push_back(x); x += near[r.below(9)]; if (x < n && p.size() < lim) p.push_back(x); }
    return p;
}
inline void add(Queries& q, int op, std::vector<uint64_t> const& p) { for (size_t i = 0; i < p.size(); ++i) q.push_back(Query{op, p[i], 0}); }
enum { OP_BIT, OP_FIELD, OP_WORD, OP_P1, OP_P0, OP_S1, OP_S0, OP_SKIPZ, OP_UNARY, OP_SKIP, OP_SKIP0, OP_RANK, OP_RANK0, OP_SEL, OP_SEL0, OP_MATCH, OP_ENC, OP_EXC, OP_ERMQ,
       OP_AT, OP_DELTA, OP_RANGE, OP_HAS, OP_RUN, OP_SUM, OP_RMQ, OP_TOPK, OP_TOPE, OP_SIZE, OP_U = 100 };

inline void list_bits(Content const& c, Queries& q, Rng& r) {
    BV const& b = c.b; uint64_t n = b.size(); q.push_back(Query{OP_SIZE, 0, 0}); if (!n) return;
    uint64_t f1 = 0, f0 = 0, l1 = n, l0 = n; while (f1 < n && !b[f1]) ++f1; while (f0 < n && b[f0]) ++f0; while (l1 && !b[l1 - 1]) --l1; while (l0 && b[l0 - 1]) --l0;
    std::vector<uint64_t> p = places(n, 10, r); add(q, OP_BIT, p); add(q, OP_WORD, p);
    for (size_t i = 0; i < p.size(); ++i) {
        uint64_t x = p[i]; q.push_back(Query{OP_FIELD, x, r.below(std::min<uint64_t>(64, n - x) + 1)});
        if (f1 < n && x >= f1) q.push_back(Query{OP_P1, x, 0}); if (f0 < n && x >= f0) q.push_back(Query{OP_P0, x, 0});
        if (x < l1) { q.push_back(Query{OP_S1, x, 0}); q.push_back(Query{OP_SKIPZ, x, 0}); q.push_back(Query{OP_UNARY, x, 0});
            uint64_t k = 0; for (uint64_t j = x; j < n && j < x + 300; ++j) k += b[j]; if (k) q.push_back(Query{OP_SKIP, x, r.below(k)}); }
        if (x < l0) { q.push_back(Query{OP_S0, x, 0}); uint64_t k = 0; for (uint64_t j = x; j < n && j < x + 300; ++j) k += !b[j]; if (k) q.push_back(Query{OP_SKIP0, x, r.below(k)}); }
    }
}
inline void list_rs(Content const& c, Queries& q, Rng& r) {
    list_bits(c, q, r); uint64_t n = c.b.size(), k = ones_of(c.b);
    add(q, OP_RANK, places(n + 1, 12, r)); add(q, OP_RANK0, places(n + 1, 5, r)); add(q, OP_SEL, places(k, 12, r)); add(q, OP_SEL0, places(n - k, 12, r));
}
inline Queries questions(Content const& c);
inline void list_user(Content const& c, Queries& q) {
    static const int ks[] = {K_V32, K_EF, K_RS, K_V16, K_GV};
    for (int j = 0; j < 5; ++j) { Queries s = questions(sub(c, ks[j])); for (size_t i = 0; i < s.size(); i += 3) { s[i].op += OP_U * (j + 1); q.push_back(s[i]); } }
}
inline Queries questions(Content const& c) {
    Queries q; Rng r(c.seed * 3 + 1 + (uint64_t)c.kind); uint64_t m = c.x.size(), n = c.b.size();
    switch (c.kind) {
    case K_BV: list_bits(c, q, r); break;
    case K_RS: list_rs(c, q, r); break;
    case K_BP: {
        list_rs(c, q, r); std::vector<uint64_t> p = places(n, 20, r); add(q, OP_MATCH, p); add(q, OP_EXC, p); std::vector<long> ex(1, 0); for (size_t i = 0; i < n; ++i) ex.push_back(ex.back() + (c.b[i] ? 1 : -1));
        for (size_t i = 0; i < p.size(); ++i) { uint64_t x = p[i]; while (x < n && !(c.b[x] && ex[x] > 0)) ++x; if (x < n) q.push_back(Query{OP_ENC, x, 0}); }
        for (size_t i = 0; i + 1 < p.size(); ++i) q.push_back(Query{OP_ERMQ, std::min(p[i], p[i + 1]), std::max(p[i], p[i + 1])});
        break; }
    case K_DA1: case K_DA0: q.push_back(Query{OP_SIZE, 0, 0}); add(q, OP_SEL, places(c.kind == K_DA1 ? ones_of(c.b) : n - ones_of(c.b), 40, r)); break;
    case K_D64: q.push_back(Query{OP_SIZE, 0, 0}); add(q, OP_SEL, places(m, 40, r)); break;
    case K_EF: case K_EFN:
        q.push_back(Query{OP_SIZE, 0, 0}); add(q, OP_SEL, places(m, 15, r)); add(q, OP_DELTA, places(m, 8, r)); if (m > 1) add(q, OP_RANGE, places(m - 1, 8, r)); add(q, OP_RUN, places(m, 8, r));
        if (c.kind == K_EF) for (int i = 0; i < 25; ++i) {
            uint64_t x = m && r.chance(2, 3) ? c.x[r.below(m)] + r.below(3) - 1 : r.below(c.n); if (x >= c.n) continue;
            q.push_back(Query{OP_RANK, x, 0}); q.push_back(Query{OP_HAS, x, 0}); if (m && c.x[0] <= x) q.push_back(Query{OP_P1, x, 0}); if (m && c.x[m - 1] >= x) q.push_back(Query{OP_S1, x, 0});
        }
        break;
    case K_CT: { q.push_back(Query{OP_SIZE, 0, 0}); std::vector<uint64_t> p = places(m, 40, r); for (size_t i = 0; i + 1 < p.size(); ++i) q.push_back(Query{OP_RMQ, std::min(p[i], p[i + 1]), std::max(p[i], p[i + 1])}); break; }
    case K_TKV: case K_TKC: case K_TKG: {
        q.push_back(Query{OP_SIZE, 0, 0}); std::vector<uint64_t> p = places(m, 16, r); add(q, OP_AT, p);
        for (size_t i = 0; i + 1 < p.size(); ++i) { q.push_back(Query{OP_TOPK, std::min(p[i], p[i + 1]), std::max(p[i], p[i + 1])}); q.push_back(Query{OP_TOPE, std::min(p[i], p[i + 1]), std::max(p[i], p[i + 1])}); }
        break; }
    case K_USER: list_user(c, q); break;
    default: q.push_back(Query{OP_SIZE, 0, 0}); add(q, OP_AT, places(m, 25, r)); add(q, OP_RUN, places(m, 10, r)); if (c.kind == K_EFL) q.push_back(Query{OP_SUM, 0, 0});
    }
    return q;
}
inline uint64_t m2(uint64_t a, uint64_t b) { return a * 0x9E3779B97F4A7C15ULL + b; }
inline uint64_t run(S::bit_vector const& o, Content const&, Aux const&, Query const& q) {
    switch (q.op) {
    case OP_SIZE: return o.size(); case OP_BIT: return o[q.a]; case OP_FIELD: return o.get_bits(q.a, q.b); case OP_WORD: return o.get_word(q.a);
    case OP_P1: return o.predecessor1(q.a); case OP_P0: return o.predecessor0(q.a); case OP_S1: return o.successor1(q.a); case OP_S0: return o.successor0(q.a);
    case OP_SKIPZ: { S::bit_vector::enumerator e(o, q.a); uint64_t z = e.skip_zeros(); return m2(z, e.position()); }
    case OP_UNARY: { S::bit_vector::unary_enumerator u(o, q.a); return u.next(); }
    case OP_SKIP: { S::bit_vector::unary_enumerator u(o, q.a); uint64_t z = u.skip_no_move(q.b); u.skip(q.b); return m2(z, u.position()); }
    case OP_SKIP0: { S::bit_vector::unary_enumerator u(o, q.a); u.skip0(q.b); return u.position(); }
    } fprintf(stderr, "bad query\n"); exit(3);
}
inline uint64_t run(S::rs_bit_vector const& o, Content const& c, Aux const& x, Query const& q) {
    switch (q.op) { case OP_RANK: return o.rank(q.a); case OP_RANK0: return o.rank0(q.a); case OP_SEL: return o.select(q.a); case OP_SEL0: return o.select0(q.a); }
    return run((S::bit_vector const&)o, c, x, q);
}
inline uint64_t run(S::bp_vector const& o, Content const& c, Aux const& x, Query const& q) {
    switch (q.op) { case OP_MATCH: return c.b[q.a] ? o.find_close(q.a) : o.find_open(q.a); case OP_ENC: return o.enclose(q.a); case OP_EXC: return (uint64_t)o.excess(q.a);
        case OP_ERMQ: { S::bp_vector::excess_t e = 0; uint64_t p = o.excess_rmq(q.a, q.b, e); return m2(p, (uint64_t)e); } }
    return run((S::rs_bit_vector const&)o, c, x, q);
}
template <class D> inline uint64_t runda(D const& o, Aux const& x, Query const& q) { return q.op == OP_SIZE ? o.num_positions() : o.select(x.bv, q.a); }
inline uint64_t run(S::darray1 const& o, Content const&, Aux const& x, Query const& q) { return runda(o, x, q); }
inline uint64_t run(S::darray0 const& o, Content const&, Aux const& x, Query const& q) { return runda(o, x, q); }
inline uint64_t run(S::darray64 const& o, Content const&, Aux const&, Query const& q) { return q.op == OP_SIZE ? m2(o.num_ones(), o.bits().size()) : o.select(q.a); }
inline uint64_t run(S::elias_fano const& o, Content const& c, Aux const&, Query const& q) {
    switch (q.op) { case OP_SIZE: return m2(o.size(), o.num_ones()); case OP_SEL: return o.select(q.a); case OP_DELTA: return o.delta(q.a); case OP_RANK: return o.rank(q.a); case OP_HAS: return o[q.a];
        case OP_P1: return o.predecessor1(q.a); case OP_S1: return o.successor1(q.a); case OP_RANGE: { std::pair<uint64_t, uint64_t> p = o.select_range(q.a); return m2(p.first, p.second); }
        case OP_RUN: { S::elias_fano::select_enumerator e(o, q.a); uint64_t h = 0; for (uint64_t i = q.a; i < c.x.size() && i < q.a + 20; ++i) h = m2(h, e.next()); return h; } }
    fprintf(stderr, "bad query\n"); exit(3);
}
template <class L> inline uint64_t runl(L const& o, Content const& c, Query const& q) {
    switch (q.op) { case OP_SIZE: return o.size(); case OP_AT: return (uint64_t)o[q.a];
        case OP_RUN: { S::forward_enumerator<L> e(o, q.a); uint64_t h = 0; for (uint64_t i = q.a; i < c.x.size() && i < q.a + 20; ++i) h = m2(h, (uint64_t)e.next()); return h; } }
    fprintf(stderr, "bad query\n"); exit(3);
}
template <class T> inline uint64_t run(M::mappable_vector<T> const& o, Content const& c, Aux const&, Query const& q) { return q.op == OP_RUN ? (uint64_t)o.data()[q.a] : runl(o, c, q); }
inline uint64_t run(S::elias_fano_list const& o, Content const& c, Aux const&, Query const& q) { return q.op == OP_SUM ? o.sum() : runl(o, c, q); }
inline uint64_t run(S::elias_fano_compressed_list const& o, Content const& c, Aux const&, Query const& q) { return runl(o, c, q); }
inline uint64_t run(S::gamma_vector const& o, Content const& c, Aux const&, Query const& q) { return runl(o, c, q); }
inline uint64_t run(S::gamma_bit_vector const& o, Content const& c, Aux const&, Query const& q) { return runl(o, c, q); }
inline uint64_t run(S::nibble_vector const& o, Content const&, Aux const&, Query const& q) { return q.op == OP_SIZE ? o.size() : o[q.a]; }
inline uint64_t run(S::cartesian_tree const& o, Content const&, Aux const&, Query const& q) { return q.op == OP_SIZE ? o.size() : o.rmq(q.a, q.b); }
template <class V> inline uint64_t run(S::topk_vector<V> const& o, Content const&, Aux const&, Query const& q) {
    uint64_t h = 0;
    switch (q.op) { case OP_SIZE: return o.size(); case OP_AT: return (uint64_t)o[q.a];
        case OP_TOPK: { typename S::topk_vector<V>::entry_vector_type r = o.topk(q.a, q.b, 6); for (size_t j = 0; j < r.size(); ++j) h = m2(m2(h, (uint64_t)boost::get<0>(r[j])), boost::get<1>(r[j])); return h; }
        case OP_TOPE: { typename S::topk_vector<V>::enumerator e = o.get_topk_enumerator(q.a, q.b); for (int j = 0; j < 9 && e.next(); ++j) h = m2(m2(h, (uint64_t)boost::get<0>(e.value())), boost::get<1>(e.value())); return h; } }
    fprintf(stderr, "bad query\n"); exit(3);
}
inline uint64_t run(User const& o, Content const& c, Aux const& x, Query const& u) {
    Query q = u; int j = u.op / OP_U - 1; q.op = u.op % OP_U;
    static const int ks[] = {K_V32, K_EF, K_RS, K_V16, K_GV}; if (c.kind == K_USER && q.op == OP_RUN) { Content d = sub(c, ks[j]); switch (j) { case 0: return run(o.b, d, x, q); case 1: return run(o.c, d, x, q); case 3: return run(o.in.w, d, x, q); default: return run(o.in.g, d, x, q); } }
    switch (j) { case 0: return run(o.b, c, x, q); case 1: return run(o.c, c, x, q); case 2: return run(o.e, c, x, q); case 3: return run(o.in.w, c, x, q); default: return run(o.in.g, c, x, q); }
}
struct QObj { // an object and its kind, for single questions
    virtual ~QObj() {}
    virtual uint64_t ask(Content const&, Aux const&, Query const&) const = 0;
    virtual void build(Content const&, int) = 0; virtual void swap(QObj&) = 0; virtual void map(const char*, uint64_t) = 0; virtual void freeze(const char*) = 0;
};
template <class T> struct QObjT : QObj {
    T t;
    uint64_t ask(Content const& c, Aux const& x, Query const& q) const { return run(t, c, x, q); }
    void build(Content const& c, int r) { mk(t, c, r); } void swap(QObj& o) { t.swap(static_cast<QObjT<T>&>(o).t); }
    void map(const char* p, uint64_t f) { M::map(t, p, f); } void freeze(const char* f) { M::freeze(t, f); }
};
inline QObj* qobj_new(int kind) {
    switch (kind) {
    case K_V8: return new QObjT<M::mappable_vector<uint8_t> >; case K_V16: return new QObjT<M::mappable_vector<uint16_t> >;
    case K_V32: return new QObjT<M::mappable_vector<int32_t> >; case K_V64: return new QObjT<M::mappable_vector<uint64_t> >;
    case K_BV: return new QObjT<S::bit_vector>; case K_RS: return new QObjT<S::rs_bit_vector>; case K_BP: return new QObjT<S::bp_vector>;
    case K_DA1: return new QObjT<S::darray1>; case K_DA0: return new QObjT<S::darray0>; case K_D64: return new QObjT<S::darray64>;
    case K_EF: case K_EFN: return new QObjT<S::elias_fano>; case K_EFL: return new QObjT<S::elias_fano_list>; case K_EFC: return new QObjT<S::elias_fano_compressed_list>;
    case K_GV: return new QObjT<S::gamma_vector>; case K_GB: return new QObjT<S::gamma_bit_vector>; case K_NV: return new QObjT<S::nibble_vector>;
    case K_CT: return new QObjT<S::cartesian_tree>; case K_TKV: return new QObjT<S::topk_vector<M::mappable_vector<uint32_t> > >;
    case K_TKC: return new QObjT<S::topk_vector<S::elias_fano_compressed_list> >; case K_TKG: return new QObjT<S::topk_vector<S::gamma_vector> >;
    default: return new QObjT<User>;
    }
}
}
