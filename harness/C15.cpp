// C15: complete images and size reports of every kind of structure.
#include "kinds.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <thread>
using namespace vf;

static void tree(M::size_node_ptr n, long d, std::vector<std::vector<long> >& out) {
    out.push_back({d, clip(n->size)});
    for (size_t i = 0; i < n->children.size(); ++i) tree(n->children[i], d + 1, out);
}
static long top(uint64_t v) { long k = -1; while (v) { ++k; v >>= 1; } return k; }

static void image(Ev& e, Obj& o, uint64_t g) {
    std::string f = args.scratch + "/img"; size_t ret;
    size_t size = o.size_of(); std::vector<std::vector<long> > t; tree(o.tree(), 0, t);
    size_t before = 0, after = 0;
    if (rng.next() & 1) { // a stream that may hold other things, too
        std::ofstream out(f.c_str(), std::ios::binary);
        if (rng.next() & 1) { before = 1 + rng.below(rng.chance(1, 8) ? 20000 : 40); out << std::string(before, 'x'); if (rng.chance(1, 3)) before += o.freeze(out, ~g); }
        ret = o.freeze(out, g);
        if (rng.chance(1, 4)) { after = 1 + rng.below(20); out << std::string(after, 'y'); }
    } else ret = o.freeze(f.c_str(), g);
    std::string s = slurp(f); unlink(f.c_str()); s = s.size() < before + after ? std::string() : s.substr(before, s.size() - before - after);
    std::vector<long> by; for (size_t i = 0; i < s.size(); ++i) by.push_back((unsigned char)s[i]);
    e.L("g", g).vec("oB", by).u("oF", ret).u("oS", size).vecs("oT", t);
}
static uint64_t flag_words(size_t i) { static const uint64_t g[] = {0, 0, 0, 1, 2, 255, 0x123456789ABCDEFULL, ~0ULL, 1ULL << 63}; return g[i % 9]; }

static void go(Content const& c, int route) {
    std::unique_ptr<Obj> o(obj_new(c.kind)); o->build(c, route);
    Ev e("img"); e.str("kind", kind_name(c.kind)).i("fl", c.fl).i("route", route).L("n", c.n).vec("b", c.b);
    std::vector<long> r(1, 0); for (size_t i = 0; i < c.b.size(); ++i) r.push_back(r.back() + c.b[i]);
    e.vec("r", r).Ls("x", c.x);
    uint64_t d = c.kind == K_GB ? 2 : 1; std::vector<long> ln;
    if (c.kind == K_EFC || c.kind == K_GV || c.kind == K_GB || c.kind == K_TKC || c.kind == K_TKG || c.kind == K_USER) for (size_t i = 0; i < c.x.size(); ++i) ln.push_back(top(c.x[i] + d));
    e.vec("ln", ln);
    U64s s; if (c.kind == K_EFL) { uint64_t t = 0; for (size_t i = 0; i < c.x.size(); ++i) s.push_back(t += c.x[i]); } e.Ls("s", s);
    if (c.kind == K_USER) { e.i("d", (long)(uint8_t)(c.n >> 9)).i("z", (long)(uint16_t)(c.n >> 20)).Ls("xs", sub(c, K_EF).x).Ls("xm", sub(c, K_V16).x); }
    image(e, *o, flag_words(rng.below(9)));
    // map it back: the count it reports
    std::string f = args.scratch + "/again"; o->freeze(f.c_str(), 0); std::string b = slurp(f); unlink(f.c_str());
    std::vector<uint64_t> mem(b.size() / 8 + 1); memcpy(&mem[0], b.data(), b.size());
    std::unique_ptr<Obj> p(obj_new(c.kind)); size_t mret = p->map((const char*)&mem[0], rng.next() & 1);
    e.u("oM", mret); e.done();
}
static void def(int kind) {
    void* m = malloc(1 << 16); memset(m, 0xA5, 1 << 16); free(m); // whatever is left over must not show
    std::unique_ptr<Obj> o(obj_new(kind)); Ev e("def"); e.str("kind", kind_name(kind)); image(e, *o, 0);
    std::string f = args.scratch + "/again"; o->freeze(f.c_str(), 0); std::string b = slurp(f); unlink(f.c_str());
    std::vector<uint64_t> mem(b.size() / 8 + 1); memcpy(&mem[0], b.data(), b.size());
    std::unique_ptr<Obj> p(obj_new(kind)); e.u("oM", p->map((const char*)&mem[0], 0)); e.done();
}

// images of billions of bytes: plain fields (-w) and vectors (w) in order
static std::vector<int> leaves(int k) {
    const int P = -8;
    std::vector<int> bits{P, 8}, da{P, 8, 2, 8}, d64, ef, bp{P, 8, 8, 8, 8, P, 2, 4}, gv, r;
    auto cat = [](std::vector<int>& a, std::vector<int> const& b) { a.insert(a.end(), b.begin(), b.end()); };
    d64 = {P}; cat(d64, bits); cat(d64, {8, 2});
    ef = {P}; cat(ef, bits); cat(ef, da); cat(ef, da); cat(ef, bits); cat(ef, {-1});
    gv = d64; cat(gv, bits);
    switch (k) {
    case K_V8: return {1}; case K_V16: return {2}; case K_V32: return {4}; case K_V64: return {8};
    case K_BV: return bits; case K_RS: return {P, 8, 8, 8, 8}; case K_BP: case K_CT: return bp;
    case K_DA1: case K_DA0: return da; case K_D64: return d64; case K_EF: case K_EFN: case K_EFL: return ef;
    case K_EFC: r = ef; cat(r, bits); return r;
    case K_GV: case K_GB: return gv; case K_NV: return {P, 1};
    case K_TKV: r = {4}; cat(r, bp); return r;
    case K_TKC: r = ef; cat(r, bits); cat(r, bp); return r;
    case K_TKG: r = gv; cat(r, bp); return r;
    default: r = {P, 4}; cat(r, ef); cat(r, {-1, P, 8, 8, 8, 8, 2}); cat(r, gv); cat(r, {-2}); return r;
    }
}
static void treeL(M::size_node_ptr n, long d, std::vector<long>& ds, U64s& bs) {
    ds.push_back(d); bs.push_back(n->size);
    for (size_t i = 0; i < n->children.size(); ++i) treeL(n->children[i], d + 1, ds, bs);
}
// an image of zeros with the given fields, mapped from memory and frozen again; all bytes of it are looked at when it is not too long
static void virt(int kind, uint64_t limit, bool read) {
    std::vector<int> ls = leaves(kind); U64s val; uint64_t len = 8;
    size_t vecs = 0; for (size_t i = 0; i < ls.size(); ++i) vecs += ls[i] > 0;
    size_t bigger = 1 + rng.below(std::min<size_t>(vecs, 3)); std::set<size_t> at; while (at.size() < bigger) { size_t i = rng.below(ls.size()); if (ls[i] > 0) at.insert(i); }
    uint64_t left = limit;
    for (size_t i = 0; i < ls.size(); ++i) {
        if (ls[i] < 0) { val.push_back(rng.next() & (ls[i] == -8 ? ~0ULL : (1ULL << (-8 * ls[i])) - 1)); len += (uint64_t)-ls[i]; continue; }
        uint64_t n = rng.below(1000), w = (uint64_t)ls[i];
        if (at.count(i)) { // a count or a number of bytes at a power of two, or anything
            uint64_t e = 31 + rng.below(3), x = (1ULL << e) + rng.below(100) - rng.below(3) * 20; if (rng.next() & 1) x = x / w + 1 + rng.below(9); if (rng.chance(1, 4)) x = rng.below(left / w);
            while (x * w > left / at.size()) x = x / 2 + 1;
            n = x;
        }
        val.push_back(n); len += 8 + n * w; left -= std::min(left, n * w);
    }
    uint64_t g = flag_words(rng.below(9)); size_t room = len + 4096;
    char* m = (char*)mmap(0, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == (char*)MAP_FAILED) { perror("mmap"); exit(3); }
    char* c = m; memcpy(c, &g, 8); c += 8;
    for (size_t i = 0; i < ls.size(); ++i) { size_t w = ls[i] < 0 ? (size_t)-ls[i] : 8; memcpy(c, &val[i], w); c += w; if (ls[i] > 0) c += val[i] * (uint64_t)ls[i]; }
    Ev e("vimg"); e.str("kind", kind_name(kind)).L("g", g).Ls("v", val);
    std::unique_ptr<Obj> o(obj_new(kind)), p(obj_new(kind));
    uint64_t mret = o->map(m, read && len < (5ULL << 30) && rng.chance(1, 2)); p->swap(*o);
    uint64_t g2 = flag_words(rng.below(9)), fret, got = 0; U64s zp; std::vector<long> zb;
    if (!read) { std::ofstream out("/dev/null", std::ios::binary); fret = p->freeze(out, g2); }
    else {
        std::string f = args.scratch + "/pipe"; if (mkfifo(f.c_str(), 0600)) { perror("mkfifo"); exit(3); }
        std::thread rd([&]() {
            int fd = open(f.c_str(), O_RDONLY); fcntl(fd, F_SETPIPE_SZ, 1 << 20); std::vector<uint64_t> buf(1 << 17); char* b = (char*)&buf[0]; ssize_t k;
            while ((k = ::read(fd, b, 1 << 20)) > 0) {
                bool any = false; for (size_t i = 0; i < (size_t)k / 8; ++i) any |= buf[i] != 0;
                for (size_t i = any ? 0 : (size_t)k / 8 * 8; i < (size_t)k; ++i) if (b[i] && zp.size() < 500) { zp.push_back(got + i); zb.push_back((unsigned char)b[i]); }
                got += (uint64_t)k;
            }
            close(fd);
        });
        { std::ofstream out(f.c_str(), std::ios::binary); fret = p->freeze(out, g2); }
        rd.join(); unlink(f.c_str());
    }
    std::vector<long> ds; U64s bs; treeL(p->tree(), 0, ds, bs);
    e.L("g2", g2).L("oM", mret).L("oF", fret).L("oS", p->size_of()).vec("oTd", ds).Ls("oTs", bs).i("read", read).L("oLen", got).Ls("oZp", zp).vec("oZb", zb); e.done();
    p.reset(); o.reset(); munmap(m, room);
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 40 : 8); ++i) if (scenario(std::string("huge-") + kind_name(k))) virt(k, 60ULL << 30, false);
        for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 3 : 1); ++i) if (scenario(std::string("read-") + kind_name(k))) virt(k, k == K_V8 || k == K_BV || k == K_USER || k == K_GV ? (4ULL << 30) + (40 << 20) : 100 << 20, true);
        finish(); return 0;
    }
    for (int k = 0; k < KINDS_N; ++k) if (scenario("default")) def(k);
    for (int k = 0; k < KINDS_N; ++k) for (size_t n = 0; n <= (T ? 200u : 130u); n += (n < 9 ? 1 : n < 60 ? 5 : 13)) if (scenario(kind_name(k)))
        for (int i = 0; i < (n < 9 ? 4 : 1); ++i) { Content c = content_make(k, n, (int)rng.below(60), rng); go(c, (int)rng.below(8)); }
    // whole words and blocks
    static const size_t edge[] = {63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025};
    for (int k = 0; k < KINDS_N; ++k) for (size_t j = 0; j < 14; ++j) if (scenario(std::string("edge-") + kind_name(k))) {
        if (k >= K_CT && edge[j] > 600) continue;
        Content c = content_make(k, edge[j], (int)rng.below(60), rng); go(c, (int)rng.below(8));
    }
    // several blocks, hints and superblocks
    static const int big[] = {K_BV, K_RS, K_BP, K_DA1, K_DA0, K_D64, K_EF, K_EFN, K_EFL, K_EFC, K_GV, K_GB, K_NV};
    for (size_t b = 0; b < 13; ++b) for (int i = 0; i < (T ? 12 : 4); ++i) if (scenario(std::string("big-") + kind_name(big[b]))) {
        int k = big[b]; size_t n = k <= K_BP ? 3000 + rng.below(k == K_BP ? 60000 : 12000) : k == K_DA1 || k == K_DA0 ? 2000 + rng.below(20000) : 1025 + rng.below(1500);
        Content c = content_make(k, n, k <= K_BP || k == K_DA1 || k == K_DA0 ? i * 5 : i * 4, rng); c.fl = k <= K_BP ? i % 4 : c.fl; go(c, (int)rng.below(8));
    }
    // sparse select blocks
    for (int v = 0; v < 2; ++v) for (int i = 0; i < (T ? 6 : 2); ++i) if (scenario("sparse")) {
        Content c; c.kind = v ? K_DA1 : K_DA0; c.seed = rng.next(); size_t n = 150000 + rng.below(30000); c.b.assign(n, (unsigned char)!v);
        for (int j = 0; j < 1500 + 400 * i; ++j) c.b[rng.chance(1, 3) ? rng.below(n) : rng.below(4000)] = (unsigned char)v;
        go(c, 0);
    }
    finish();
    return 0;
}
