// Sequences of billions of integers, described by their runs, as ranges a list can be built from.
#pragma once
#include <iterator>
#include "efruns.hpp"
namespace vf {
struct ListRuns : EfRuns {
    typedef uint64_t value_type;
    struct const_iterator {
        typedef std::forward_iterator_tag iterator_category;
        typedef uint64_t value_type;
        typedef std::ptrdiff_t difference_type;
        typedef uint64_t const* pointer;
        typedef uint64_t const& reference;
        ListRuns const* r; size_t s; long left; uint64_t x;
        const_iterator() : r(0), s(0), left(0), x(0) {}
        const_iterator(ListRuns const* r_, size_t s_) : r(r_), s(s_), left(0), x(0) { load(); }
        void load() { if (s < r->len.size()) { left = r->len[s]; x = r->a[s]; } else left = 0; }
        reference operator*() const { return x; }
        pointer operator->() const { return &x; }
        const_iterator& operator++() { if (--left) x += r->d[s]; else { ++s; load(); } return *this; }
        const_iterator operator++(int) { const_iterator t(*this); ++*this; return t; }
        bool operator==(const_iterator const& o) const { return left == o.left && s == o.s; }
        bool operator!=(const_iterator const& o) const { return !(*this == o); }
    };
    typedef const_iterator iterator;
    const_iterator begin() const { return const_iterator(this, 0); }
    const_iterator end() const { return const_iterator(this, len.size()); }
    std::vector<uint64_t> sums() const {
        std::vector<uint64_t> t(1, 0);
        for (size_t s = 0; s < len.size(); ++s) { uint64_t l = (uint64_t)len[s]; t.push_back(t.back() + a[s] * l + d[s] * (l % 2 ? l * ((l - 1) / 2) : l / 2 * (l - 1))); }
        return t;
    }
};
// m values of up to small bits, with stretches of far larger ones (up to max) in between
inline ListRuns list_runs(uint64_t m, uint64_t small, uint64_t max) {
    ListRuns r; uint64_t const part = m / 30;
    while (r.n() < m) {
        uint64_t l, x, s = 0;
        if (rng.chance(1, 3)) { l = 1 + rng.below(2 * part); x = rng.below(small + 1); }
        else if (rng.chance(1, 2)) { l = 1 + rng.below(300); x = rng.chance(1, 3) ? max - rng.below(3) % (max + 1) : max == ~0ULL ? rng.next() : rng.next() % (max + 1); x >>= rng.chance(1, 2) ? 0 : rng.below(60); if (rng.chance(1, 2)) s = rng.below((max - x) / l + 1); }
        else { l = 1 + rng.below(5000); x = rng.below(small + 1); if (rng.chance(1, 2) && max >= 5000) s = rng.below(2); }
        l = std::min<uint64_t>(l, m - r.n());
        r.add(x, s, l);
    }
    return r;
}
// the same, but the sum of all stays below max: the rare values are bounded
inline ListRuns list_runs_sum(uint64_t m, uint64_t small, uint64_t rare) {
    ListRuns r; uint64_t const part = m / 30;
    while (r.n() < m) {
        uint64_t l, x;
        if (rng.chance(1, 3)) { l = 1 + rng.below(2 * part); x = rng.below(small + 1); }
        else { l = 1 + rng.below(rng.chance(1, 2) ? 3 : 4000); x = l < 4 ? rng.below(rare) : rng.below(small * 2 + 1); }
        l = std::min<uint64_t>(l, m - r.n());
        r.add(x, l < 4000 && rng.chance(1, 3) ? rng.below(2) : 0, l);
    }
    return r;
}
}
