// C14: freeze and map histories for every kind of structure.
#include "kinds.hpp"
#include <thread>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace vf;

struct Run {
    int kind; Content con[4]; std::unique_ptr<Obj> o[4]; int has[4]; // has: content shown, 0 none
    struct Image { std::vector<uint64_t> mem; size_t off, len; std::string file; int c; bool set; std::shared_ptr<boost::iostreams::mapped_file_source> m; };
    Image im[4]; std::vector<Image> old; int nfile; // images stay alive to the end: objects may still be mapped on them
    std::vector<std::shared_ptr<boost::iostreams::mapped_file_source> > maps;
    Run(int k) : kind(k), nfile(0) { for (int i = 1; i < 4; ++i) { o[i].reset(obj_new(k)); has[i] = 0; im[i].set = false; } }
    ~Run() { for (int i = 1; i < 4; ++i) o[i].reset(); for (int i = 0; i < nfile; ++i) unlink(name(i).c_str()); }
    std::string name(int i) { return args.scratch + "/i" + std::to_string(i); }
    void ask(Ev& e, int i) { Ans a; o[i]->ask(con[has[i]], a); e.L("oAns", hash64(a)); }
    void build(int i, int c, int route) {
        o[i]->build(con[c], route); has[i] = c;
        Ev e("build"); e.i("o", i).i("c", c).i("route", route); ask(e, i); e.done();
    }
    void freeze(int i, int f, uint64_t g) {
        if (im[f].set) old.push_back(std::move(im[f]));
        Image m; m.set = true; m.c = has[i]; m.file = name(nfile++); m.off = 0;
        size_t ret; std::string lead;
        if (g & 1) { // into a stream that already holds other bytes
            lead = "header.."; if (rng.next() & 1) lead += "more bytes here.";
            std::ofstream out(m.file.c_str(), std::ios::binary); out << lead; ret = o[i]->freeze(out, g);
        } else ret = o[i]->freeze(m.file.c_str(), g);
        std::string s = slurp(m.file).substr(lead.size()); m.len = s.size(); m.off = lead.size();
        // in memory at any 8-byte aligned address
        size_t pad = rng.below(4); m.mem.assign(pad + s.size() / 8 + 1, 0); memcpy((char*)&m.mem[0] + pad * 8, s.data(), s.size());
        m.off = pad * 8; m.m.reset();
        if (!lead.empty()) { std::ofstream out(m.file.c_str(), std::ios::binary); out << s; }
        Ev e("freeze"); e.i("o", i).i("f", f).i("g", (long)g).u("oRet", ret).u("oLen", s.size()).L("oImg", hash64(s.data(), s.size()));
        im[f] = std::move(m);
        if (has[i]) ask(e, i); else e.L("oAns", 0);
        e.done();
    }
    void map(int i, int f, int warm, bool file) {
        if (!im[f].set) return;
        size_t ret;
        if (file) { if (!im[f].m) im[f].m.reset(new boost::iostreams::mapped_file_source(im[f].file)), maps.push_back(im[f].m);
            ret = o[i]->map(*im[f].m, warm ? (uint64_t)M::map_flags::warmup : 0); }
        else ret = o[i]->map((const char*)&im[f].mem[0] + im[f].off, warm ? (uint64_t)M::map_flags::warmup : 0);
        has[i] = im[f].c;
        Ev e("map"); e.i("o", i).i("f", f).i("warm", warm).i("file", file).u("oRet", ret); e.done();
    }
    void swap(int i, int j) { o[i]->swap(*o[j]); std::swap(has[i], has[j]); Ev e("swap"); e.i("o", i).i("p", j); e.done(); }
    void destroy(int i) { o[i].reset(); o[i].reset(obj_new(kind)); has[i] = 0; Ev e("destroy"); e.i("o", i); e.done(); }
    void askev(int i) { if (!has[i]) { Ev e("ask0"); e.i("o", i); e.done(); return; } Ev e("ask"); e.i("o", i); ask(e, i); e.done(); }
    void look(int f) { if (!im[f].set) return; const char* p = (const char*)&im[f].mem[0] + im[f].off; std::string s = slurp(im[f].file);
        bool same = s.size() == im[f].len && !memcmp(s.data(), p, s.size());
        Ev e("look"); e.i("f", f).L("oImg", same ? hash64(p, im[f].len) : 0).u("oLen", im[f].len); e.done(); }
    void contents(size_t lim) {
        for (int c = 1; c < 4; ++c) { size_t n = c == 1 && rng.chance(1, 6) ? 0 : 1 + rng.below(rng.chance(1, 3) ? 20 : lim); con[c] = content_make(kind, n, (int)rng.below(60), rng); }
    }
    void all() { for (int i = 1; i < 4; ++i) askev(i); for (int f = 1; f < 4; ++f) look(f); }
    void replay(std::string const& h) {
        std::istringstream in(h); std::string op;
        while (in >> op) {
            long a, b, c; std::string t; in >> a >> b; std::getline(in, t, ';'); c = atol(t.c_str());
            if (op == "build") build((int)a, (int)b, (int)c);
            else if (op == "freeze") freeze((int)a, (int)b, (uint64_t)c);
            else if (op == "mapmem") map((int)a, (int)b, (int)c, false);
            else if (op == "mapfile") map((int)a, (int)b, (int)c, true);
            else if (op == "swap") swap((int)a, (int)b);
            else if (op == "destroy") destroy((int)a);
            else if (op == "ask") askev((int)a);
            else if (op == "look") look((int)a);
            else { fprintf(stderr, "bad op %s\n", op.c_str()); exit(3); }
        }
        all();
    }
    // the plain round trips
    void trip() {
        build(1, 1, (int)rng.below(8)); freeze(1, 1, 0); map(2, 1, 0, false); askev(2); destroy(1); askev(2);
        freeze(2, 2, 0); map(3, 2, 1, true); askev(3); swap(2, 3); askev(2); askev(3);
        build(1, 2, (int)rng.below(8)); map(1, 1, 1, false); askev(1); freeze(1, 3, 0);
        build(2, 1, (int)rng.below(8)); freeze(2, 2, 0); destroy(3); map(3, 2, 0, true); askev(3); build(3, 3, 0); askev(3); all();
        swap(2, 3); all(); build(1, 2, (int)rng.below(8)); swap(1, 3); all(); swap(2, 1); all();
    }
};

// structures of billions of values, nearly all of them zero: frozen into a pipe, what comes out kept in memory, mapped there
static uint64_t ask1(S::bit_vector const& v, uint64_t i) { return v[i]; }
static uint64_t ask1(S::nibble_vector const& v, uint64_t i) { return v[i]; }
template <class T> static uint64_t ask1(M::mappable_vector<T> const& v, uint64_t i) { return v[i]; }
static void make(S::bit_vector& v, uint64_t n, U64s const& ix, U64s const& vx) {
    S::bit_vector_builder b(n); for (size_t k = 0; k < ix.size(); ++k) b.set(ix[k], vx[k]); S::bit_vector(&b).swap(v);
}
struct Zeros { // n values, nearly all zero, as a range
    uint64_t n; U64s const* ix; U64s const* vx;
    struct const_iterator {
        typedef std::forward_iterator_tag iterator_category; typedef uint64_t value_type; typedef std::ptrdiff_t difference_type; typedef uint64_t const* pointer; typedef uint64_t const& reference;
        Zeros const* z; uint64_t i; size_t k; uint64_t x;
        void load() { x = 0; if (k < z->ix->size() && (*z->ix)[k] == i) x = (*z->vx)[k++]; }
        uint64_t const& operator*() const { return x; }
        const_iterator& operator++() { ++i; load(); return *this; }
        const_iterator operator++(int) { const_iterator t(*this); ++*this; return t; }
        bool operator==(const_iterator const& o) const { return i == o.i; } bool operator!=(const_iterator const& o) const { return i != o.i; }
    };
    typedef const_iterator iterator;
    const_iterator begin() const { const_iterator t = {this, 0, 0, 0}; t.load(); return t; }
    const_iterator end() const { const_iterator t = {this, n, 0, 0}; return t; }
};
static void make(S::nibble_vector& v, uint64_t n, U64s const& ix, U64s const& vx) { Zeros z = {n, &ix, &vx}; S::nibble_vector(z).swap(v); }
template <class T> static void make(M::mappable_vector<T>& v, uint64_t n, U64s const& ix, U64s const& vx) {
    std::vector<T> t((size_t)n); for (size_t k = 0; k < ix.size(); ++k) t[(size_t)ix[k]] = (T)vx[k]; v.steal(t);
}
template <class V> static void vast(const char* kind, uint64_t n, uint64_t max) {
    std::set<uint64_t> at; at.insert(0); at.insert(n - 1);
    for (int k = 0; k < 120; ++k) { uint64_t x = rng.chance(1, 2) ? (1ULL << rng.range(20, 35)) * (1 + rng.below(3)) + rng.below(7) - 3 : rng.next() % n; if (x < n) at.insert(x); }
    U64s ix(at.begin(), at.end()), vx, q; for (size_t k = 0; k < ix.size(); ++k) vx.push_back(rng.below(max) + 1);
    for (size_t k = 0; k < ix.size(); ++k) for (int d = -1; d <= 1; ++d) if (ix[k] + (uint64_t)d < n) q.push_back(ix[k] + (uint64_t)d);
    for (int k = 0; k < 100; ++k) q.push_back(rng.next() % n);
    Ev e("vast"); e.str("kind", kind).L("n", n).Ls("ix", ix).Ls("vx", vx).Ls("q", q);
    auto look = [&](const char* a, const char* b, V const& v) { U64s r; e.L(a, v.size()); if (v.size() == n) for (size_t k = 0; k < q.size(); ++k) r.push_back(ask1(v, q[k])); e.Ls(b, r); };
    uint64_t ret, got = 0; size_t room = (size_t)(n >> 34 ? n / 4 : n * 9) + (1 << 20); // enough for any kind
    char* m = (char*)mmap(0, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == (char*)MAP_FAILED) { perror("mmap"); exit(3); }
    {
        V v; make(v, n, ix, vx); look("oN", "oV", v);
        std::string f = args.scratch + "/pipe"; if (mkfifo(f.c_str(), 0600)) { perror("mkfifo"); exit(3); }
        std::thread rd([&]() {
            int fd = open(f.c_str(), O_RDONLY); fcntl(fd, F_SETPIPE_SZ, 1 << 20); std::vector<uint64_t> buf(1 << 16); char* b = (char*)&buf[0]; ssize_t k;
            while ((k = ::read(fd, b, 1 << 19)) > 0) {
                for (size_t i = 0; i < (size_t)k; i += 4096) { size_t w = std::min<size_t>(4096, (size_t)k - i); bool any = false; for (size_t j = i; j < i + w; ++j) any |= b[j] != 0; if (any && got + i + w <= room) memcpy(m + got + i, b + i, w); }
                got += (uint64_t)k;
            }
            close(fd);
        });
        { std::ofstream out(f.c_str(), std::ios::binary); ret = M::freeze(v, out); }
        rd.join(); unlink(f.c_str());
    }
    e.L("oRet", ret).L("oLen", got);
    V v, w; uint64_t mret = M::map(v, m, rng.chance(1, 2) ? (uint64_t)M::map_flags::warmup : 0); e.L("oMap", mret); look("oN2", "oV2", v); w.swap(v); look("oN3", "oV3", w);
    e.done(); munmap(m, room);
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        for (int i = 0; i < (T ? 3 : 1); ++i) {
            if (scenario("v8")) vast<M::mappable_vector<uint8_t> >("v8", (1ULL << 32) + rng.below(1 << 16), 255);
            if (scenario("v64")) vast<M::mappable_vector<uint64_t> >("v64", (1ULL << 29) + rng.below(1 << 16), ~0ULL - 1);
            if (scenario("bv")) vast<S::bit_vector>("bv", (1ULL << 35) + rng.below(1 << 16), 1);
            if (scenario("nv")) vast<S::nibble_vector>("nv", (1ULL << 32) + rng.below(1 << 16), 15);
        }
        finish(); return 0;
    }
    if (!args.gen.empty()) {
        std::ifstream in(args.gen.c_str()); std::string line; int i = 0;
        while (std::getline(in, line)) { ++i; if (scenario(std::string("gen-") + kind_name(i % KINDS_N))) { Run t(i % KINDS_N); t.contents(i % 5 ? 300 : 9000); t.replay(line); } }
    }
    for (int k = 0; k < KINDS_N; ++k) for (size_t n = 0; n <= (T ? 140u : 70u); n += (n < 5 ? 1 : 1 + rng.below(1) + 8)) if (scenario(std::string("trip-") + kind_name(k))) {
        Run t(k); for (int c = 1; c < 4; ++c) t.con[c] = content_make(k, n + (size_t)c - 1, (int)(n + (size_t)c * 5), rng); t.trip();
    }
    for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 12 : 3); ++i) if (scenario(std::string("big-") + kind_name(k))) {
        Run t(k); for (int c = 1; c < 4; ++c) t.con[c] = content_make(k, 2000 + rng.below(i == 2 ? 60000 : 9000), i * 5 + c, rng); t.trip();
    }
    for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 8 : 1); ++i) if (scenario(std::string("wide-") + kind_name(k))) {
        Run t(k); for (int c = 1; c < 4; ++c) t.con[c] = c == 1 && i % 2 ? content_make(k, 200, c, rng) : content_wide(k, rng); t.trip();
    }
    finish();
    return 0;
}
