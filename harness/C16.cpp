// C16: ownership histories of mappable vectors and of structures.
#include "alloc.hpp"
#include "kinds.hpp"
#include <sys/mman.h>
using namespace vf;

template <class T> struct Own {
    typedef M::mappable_vector<T> MV;
    enum { NV = 2, NM = 3, NR = 2, NC = 4 };
    std::vector<T> con[NC + 1]; std::vector<T>* vec[NV + 1]; MV* mv[NM + 1];
    char* reg[NR + 1]; size_t rlen[NR + 1]; int rcon[NR + 1]; long base_live, base_big;
    static uint64_t dig(T const* p, size_t n) { return hash64(p, n * sizeof(T)); }
    static uint64_t show(MV const& m) { // through iterators, and through the index where they agree on the size
        size_t n = (size_t)m.size(); if ((size_t)(m.end() - m.begin()) != n || n > (1u << 22)) return 1;
        std::vector<T> a(m.begin(), m.end()); for (size_t i = 0; i < n; i += 1 + n / 37) if (m[i] != a[i] || m.data()[i] != a[i]) return 2;
        return dig(n ? &a[0] : 0, n);
    }
    Own() {
        for (int c = 0; c <= NC; ++c) { // content 0: empty
            size_t n = c == 0 ? 0 : c == 1 ? 1 + rng.below(20) : (4096 + sizeof(T)) / sizeof(T) + rng.below(300);
            for (size_t i = 0; i < n; ++i) con[c].push_back((T)rng.next());
        }
        for (int r = 1; r <= NR; ++r) {
            int c = rcon[r] = r == 1 ? (int)rng.below(2) : 2 + (int)rng.below(NC - 1); size_t n = con[c].size(); rlen[r] = 16 + n * sizeof(T);
            reg[r] = (char*)malloc(rlen[r] + 8); uint64_t h[2] = {0, n}; memcpy(reg[r], h, 16); if (n) memcpy(reg[r] + 16, &con[c][0], n * sizeof(T));
        }
        Ev e("con"); std::vector<uint64_t> d; std::vector<long> big; for (int c = 0; c <= NC; ++c) { d.push_back(dig(con[c].empty() ? 0 : &con[c][0], con[c].size())); big.push_back(con[c].size() * sizeof(T) >= va::BIG); }
        std::vector<int> rc(rcon + 1, rcon + NR + 1); V64 g; for (int r = 1; r <= NR; ++r) g.push_back(hash64(reg[r], rlen[r]));
        e.Ls("d", d).vec("big", big).vec("rc", rc).Ls("g", g); e.done();
        for (int i = 1; i <= NV; ++i) vec[i] = 0; for (int i = 1; i <= NM; ++i) mv[i] = 0;
    }
    typedef std::vector<uint64_t> V64;
    void start() { base_live = va::live; base_big = va::big; va::bad = 0; for (int i = 1; i <= NV; ++i) vec[i] = new std::vector<T>; for (int i = 1; i <= NM; ++i) mv[i] = new MV; }
    // everything visible after a step; counts are taken before the log line is made
    void step(const char* op, long a, long b) {
        long bg = va::big - base_big, bad = va::bad;
        Ev e("own"); e.str("op", op).i("a", a).i("b", b).i("oBig", bg).i("oBad", bad);
        V64 v, m, g; for (int i = 1; i <= NV; ++i) v.push_back(dig(vec[i]->empty() ? 0 : &(*vec[i])[0], vec[i]->size()));
        for (int i = 1; i <= NM; ++i) m.push_back(show(*mv[i])); for (int r = 1; r <= NR; ++r) g.push_back(hash64(reg[r], rlen[r]));
        e.Ls("oV", v).Ls("oM", m).Ls("oG", g); e.done();
    }
    void op(std::string const& o, long a, long b) {
        if (o == "fill") { std::vector<T> t(con[b]); vec[a]->swap(t); }
        else if (o == "steal") mv[a]->steal(*vec[b]);
        else if (o == "assign") mv[a]->assign(*vec[b]);
        else if (o == "copy") { if (a == b) return; mv[a]->assign(boost::iterator_range<T const*>(mv[b]->begin(), mv[b]->end())); }
        else if (o == "make") { delete mv[a]; mv[a] = new MV(*vec[b]); }
        else if (o == "swap") mv[a]->swap(*mv[b]);
        else if (o == "clear") mv[a]->clear();
        else if (o == "dispose") S::util::dispose(*mv[a]);
        else if (o == "destroy") { delete mv[a]; mv[a] = new MV; }
        else if (o == "map") M::map(*mv[a], reg[b], rng.next() & 1);
        else { fprintf(stderr, "bad op %s\n", o.c_str()); exit(3); }
        step(o == "dispose" ? "clear" : o.c_str(), a, b);
    }
    void fin() {
        for (int i = 1; i <= NM; ++i) { delete mv[i]; mv[i] = 0; } for (int i = 1; i <= NV; ++i) { delete vec[i]; vec[i] = 0; }
        long left = va::live - base_live;
        V64 g; for (int r = 1; r <= NR; ++r) g.push_back(hash64(reg[r], rlen[r]));
        { Ev e("fin"); e.i("oLeft", left).i("oBad", va::bad).Ls("oG", g); e.done(); }
        for (int r = 1; r <= NR; ++r) free(reg[r]);
    }
    void run(std::vector<std::pair<std::string, std::pair<long, long> > > const& ops) {
        start(); for (size_t i = 0; i < ops.size(); ++i) op(ops[i].first, ops[i].second.first, ops[i].second.second); fin();
    }
};
typedef std::vector<std::pair<std::string, std::pair<long, long> > > Ops;
static Ops parse(std::string const& h) {
    Ops r; std::istringstream in(h); std::string o; while (in >> o) { long a, b; std::string t; in >> a; std::getline(in, t, ';'); b = atol(t.c_str()); r.push_back(std::make_pair(o, std::make_pair(a, b))); } return r;
}
static Ops rand_ops(size_t n) {
    static const char* nm[] = {"fill", "fill", "steal", "steal", "assign", "copy", "make", "swap", "swap", "clear", "dispose", "destroy", "map", "map"};
    Ops r; for (size_t i = 0; i < n; ++i) { int k = (int)rng.below(14); std::string o = nm[k]; long a = 1 + (long)rng.below(o == "fill" ? 2 : 3), b = o == "fill" ? (long)rng.below(5) : o == "steal" || o == "assign" || o == "make" || o == "map" ? 1 + (long)rng.below(2) : 1 + (long)rng.below(3); r.push_back(std::make_pair(o, std::make_pair(a, b))); }
    return r;
}
static void own(Ops const& ops, int type) {
    switch (type % 4) {
    case 0: { Own<uint64_t> o; o.run(ops); break; }
    case 1: { Own<uint8_t> o; o.run(ops); break; }
    case 2: { Own<int32_t> o; o.run(ops); break; }
    default: { Own<uint16_t> o; o.run(ops); }
    }
    va::drain();
}

// vectors of billions of elements: what they show is looked at in a few thousand places
struct Giant {
    typedef M::mappable_vector<uint8_t> MV; typedef std::vector<uint64_t> V64;
    uint64_t n[5]; V64 at[5]; std::vector<uint8_t>* vec[3]; MV* mv[4]; char* reg[3]; uint64_t rlen[3]; long base_live, base_big;
    static uint8_t val(int c, uint64_t i) { return (uint8_t)((i * 0x9E3779B97F4A7C15ULL >> 40) ^ (uint64_t)c); }
    static V64 places(uint64_t n) {
        V64 p; Rng r(n); for (uint64_t i = 0; i < 64 && i < n; ++i) { p.push_back(i); p.push_back(n - 1 - i); }
        for (int e = 12; e < 34; ++e) for (int d = -2; d < 3; ++d) if ((1ULL << e) + (uint64_t)d < n) p.push_back((1ULL << e) + (uint64_t)d);
        for (int i = 0; i < 2000 && n; ++i) p.push_back(r.next() % n); return p;
    }
    template <class F> static uint64_t dig(uint64_t n, F f) { V64 p = places(n); std::string s((char*)&n, 8); for (size_t i = 0; i < p.size(); ++i) s += (char)f(p[i]); return hash64(s.data(), s.size()); }
    uint64_t dcon(int c) { return dig(n[c], [&](uint64_t i) { return val(c, i); }); }
    uint64_t dvec(int i) { std::vector<uint8_t> const& v = *vec[i]; return dig(v.size(), [&](uint64_t k) { return v[k]; }); }
    uint64_t dreg(int r) { uint64_t h[2]; memcpy(h, reg[r], 16); return h[0] == 0 && h[1] == rlen[r] - 16 ? dig(h[1], [&](uint64_t k) { return (uint8_t)reg[r][16 + k]; }) : 1; }
    uint64_t show(int i) {
        MV const& m = *mv[i]; if ((uint64_t)(m.end() - m.begin()) != m.size()) return 1;
        uint64_t a = dig(m.size(), [&](uint64_t k) { return m[k]; }); return a == dig(m.size(), [&](uint64_t k) { return m.begin()[k]; }) && a == dig(m.size(), [&](uint64_t k) { return m.data()[k]; }) ? a : 2;
    }
    void step(const char* op, long a, long b) {
        long bg = va::big - base_big, bad = va::bad; va::drain();
        Ev e("own"); e.str("op", op).i("a", a).i("b", b).i("oBig", bg).i("oBad", bad); V64 v, m, g;
        for (int i = 1; i < 3; ++i) v.push_back(dvec(i)); for (int i = 1; i < 4; ++i) m.push_back(show(i)); for (int r = 1; r < 3; ++r) g.push_back(dreg(r));
        e.Ls("oV", v).Ls("oM", m).Ls("oG", g); e.done();
    }
    void run() {
        n[0] = 0; n[1] = 1 + rng.below(20); n[2] = 5000 + rng.below(100); n[3] = (1ULL << 32) + rng.below(100000); n[4] = (1ULL << 31) + rng.below(100000);
        int rc[3] = {0, 2, 4};
        for (int r = 1; r < 3; ++r) { int c = rc[r]; rlen[r] = 16 + n[c]; reg[r] = (char*)mmap(0, rlen[r], PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (reg[r] == (char*)MAP_FAILED) { perror("mmap"); exit(3); }
            uint64_t h[2] = {0, n[c]}; memcpy(reg[r], h, 16); for (uint64_t i = 0; i < n[c]; ++i) reg[r][16 + i] = (char)val(c, i); }
        { Ev e("con"); V64 d, g; std::vector<long> big; for (int c = 0; c < 5; ++c) { d.push_back(dcon(c)); big.push_back(n[c] >= va::BIG); } for (int r = 1; r < 3; ++r) g.push_back(dreg(r)); e.Ls("d", d).vec("big", big).vec("rc", std::vector<int>(rc + 1, rc + 3)).Ls("g", g); e.done(); }
        va::drain(); base_live = va::live; base_big = va::big; va::bad = 0;
        for (int i = 1; i < 3; ++i) vec[i] = new std::vector<uint8_t>; for (int i = 1; i < 4; ++i) mv[i] = new MV;
        auto fill = [&](int i, int c) { { std::vector<uint8_t> t((size_t)n[c]); for (uint64_t k = 0; k < n[c]; ++k) t[k] = val(c, k); vec[i]->swap(t); } step("fill", i, c); };
        fill(1, 3);
        mv[1]->assign(*vec[1]); step("assign", 1, 1);
        mv[1]->swap(*mv[2]); step("swap", 1, 2);
        mv[2]->swap(*mv[3]); step("swap", 2, 3);
        mv[3]->steal(*vec[1]); step("steal", 3, 1);           // over what it owned
        M::map(*mv[1], reg[2], 0); step("map", 1, 2);
        mv[1]->swap(*mv[3]); step("swap", 1, 3);
        fill(2, 4);
        mv[1]->assign(boost::iterator_range<uint8_t const*>(mv[3]->begin(), mv[3]->end())); step("copy", 1, 3);
        delete mv[2]; mv[2] = new MV(*vec[2]); step("make", 2, 2);
        mv[2]->steal(*vec[2]); step("steal", 2, 2);
        M::map(*mv[2], reg[1], 1); step("map", 2, 1);
        S::util::dispose(*mv[1]); step("clear", 1, 0);
        mv[3]->clear(); step("clear", 3, 0);
        for (int i = 1; i < 4; ++i) delete mv[i]; for (int i = 1; i < 3; ++i) delete vec[i];
        long left = va::live - base_live; V64 g; for (int r = 1; r < 3; ++r) g.push_back(dreg(r));
        { Ev e("fin"); e.i("oLeft", left).i("oBad", va::bad).Ls("oG", g); e.done(); }
        for (int r = 1; r < 3; ++r) munmap(reg[r], rlen[r]); va::drain();
    }
};

// structures: three objects of one kind, two images in memory
struct Str {
    int kind; Content con[4]; Obj* o[4]; int has[4]; int ic[3]; long base_live, base_big; char* mem[3]; size_t len[3];
    explicit Str(int k) : kind(k) { for (int i = 1; i < 4; ++i) { o[i] = 0; has[i] = 0; } mem[1] = mem[2] = 0; }
    void ev(const char* op, int a, int b) { // all objects are asked after every step
        long bg = va::big - base_big, bad = va::bad; Ev e("str"); e.str("op", op).i("a", a).i("b", b).i("oBig", bg).i("oBad", bad);
        U64s r, g; for (int i = 1; i < 4; ++i) { if (!has[i]) { r.push_back(0); continue; } Ans x; o[i]->ask(con[has[i]], x); r.push_back(hash64(x)); }
        for (int f = 1; f < 3; ++f) g.push_back(hash64(mem[f], len[f])); e.Ls("oAns", r).Ls("oG", g); e.done();
    }
    void run(int steps) {
        bool wide = rng.chance(1, 12);
        for (int c = 1; c < 4; ++c) con[c] = wide && c > 1 ? content_wide(kind, rng) : content_make(kind, c == 1 ? rng.below(50) : 2000 + rng.below(6000), (int)rng.below(60), rng);
        for (int f = 1; f < 3; ++f) {
            ic[f] = f == 1 ? 1 + (int)rng.below(3) : 2; std::string file = args.scratch + "/i"; std::unique_ptr<Obj> t(obj_new(kind)); t->build(con[ic[f]], 0); t->freeze(file.c_str(), 0);
            std::string s = slurp(file); mem[f] = (char*)malloc(s.size() + 8); memcpy(mem[f], s.data(), s.size()); len[f] = s.size(); unlink(file.c_str());
        }
        std::vector<int> rc(ic + 1, ic + 3); U64s g, an; for (int f = 1; f < 3; ++f) g.push_back(hash64(mem[f], len[f]));
        for (int c = 1; c < 4; ++c) { std::unique_ptr<Obj> t(obj_new(kind)); t->build(con[c], 0); Ans a; t->ask(con[c], a); an.push_back(hash64(a)); }
        { Ev e("scon"); e.vec("rc", rc).Ls("g", g).Ls("d", an); e.done(); }
        va::drain(); base_live = va::live; base_big = va::big; va::bad = 0;
        for (int i = 1; i < 4; ++i) o[i] = obj_new(kind);
        for (int k = 0; k < steps; ++k) {
            int a = 1 + (int)rng.below(3), b = 1 + (int)rng.below(3);
            switch (rng.below(8)) {
            case 0: case 1: case 2: o[a]->build(con[b], (int)rng.below(8)); has[a] = b; ev("build", a, b); break;
            case 3: case 4: o[a]->swap(*o[b]); std::swap(has[a], has[b]); ev("swap", a, b); break;
            case 5: case 6: b = 1 + (b & 1); o[a]->map(mem[b], rng.next() & 1); has[a] = ic[b]; ev("map", a, b); break;
            default: delete o[a]; o[a] = obj_new(kind); has[a] = 0; ev("destroy", a, 0);
            }
            if (va::held_bytes > (64u << 20)) va::drain();
        }
        for (int i = 1; i < 4; ++i) { delete o[i]; o[i] = 0; }
        long left = va::live - base_live; U64s h; for (int f = 1; f < 3; ++f) h.push_back(hash64(mem[f], len[f]));
        { Ev e("fin"); e.i("oLeft", left).i("oBad", va::bad).Ls("oG", h); e.done(); }
        free(mem[1]); free(mem[2]); va::drain();
    }
};

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") { if (scenario("giant")) { Giant g; g.run(); } finish(); return 0; }
    if (!args.gen.empty()) {
        std::ifstream in(args.gen.c_str()); std::string line; int i = 0;
        while (std::getline(in, line)) { ++i; if (scenario("gen")) { Ops p = parse(line); own(p, i); } }
    }
    for (int i = 0; i < (T ? 4000 : 500); ++i) if (scenario("own")) { Ops p = rand_ops(10 + rng.below(40)); own(p, i); }
    for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 30 : 6); ++i) if (scenario(std::string("str-") + kind_name(k))) { Str s(k); s.run(24); }
    finish();
    return 0;
}
