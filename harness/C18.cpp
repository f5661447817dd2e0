// C18: one program, many build variants.  Phase "freeze": every variant builds the same contents, asks
// everything and writes the image.  Phase "map": every variant maps the images of all others and asks again.
#include "kinds.hpp"
#include "succinct/broadword.hpp"
#include "succinct/vbyte.hpp"
#include "succinct/util.hpp"
#include <dirent.h>
using namespace vf;
static bool mapping;
static std::vector<std::string> variants() {
    std::vector<std::string> r; DIR* d = opendir(args.shared.c_str()); if (!d) exit(3);
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name);
    closedir(d); std::sort(r.begin(), r.end()); return r;
}
static std::string path(std::string const& v, int c) { return args.shared + "/" + v + "/" + std::to_string(scenario_no) + "." + std::to_string(c); }
static const char* role() { return args.variant == "ref" ? "base" : "var"; }
// digests of consecutive answers, so that a difference can be placed
static U64s digest(Ans const& a) { U64s r; r.push_back(a.size()); for (size_t i = 0; i < a.size(); i += 200) { Ans p(a.begin() + (long)i, a.begin() + (long)std::min(a.size(), i + 200)); r.push_back(hash64(p)); } return r; }

static void go(Content const& c, int id, int route) {
    if (!mapping) {
        std::unique_ptr<Obj> o(obj_new(c.kind)); o->build(c, route); Ans a; o->ask(c, a);
        std::string f = path(args.variant, id); size_t ret = o->freeze(f.c_str(), 0); std::string s = slurp(f);
        Ev e(role()); e.str("v", args.variant).str("kind", kind_name(c.kind)).i("c", id).i("route", route).Ls("oAns", digest(a)).L("oImg", hash64(s.data(), s.size())).u("oLen", s.size()).u("oRet", ret); e.done();
        return;
    }
    std::vector<std::string> vs = variants(); std::map<std::string, std::string> seen; // bytes -> who wrote them
    for (size_t i = 0; i < vs.size(); ++i) seen[slurp(path(vs[i], id))] += (seen.empty() ? "" : " ") + vs[i];
    for (std::map<std::string, std::string>::iterator it = seen.begin(); it != seen.end(); ++it) {
        std::string const& s = it->first; if (s.size() < 8) continue; // a variant that ended before writing it
        std::vector<uint64_t> mem(s.size() / 8 + 1); memcpy(&mem[0], s.data(), s.size());
        std::unique_ptr<Obj> o(obj_new(c.kind)); size_t ret = o->map((const char*)&mem[0], (uint64_t)(id + scenario_no) & 1); Ans a; o->ask(c, a);
        std::string f = args.scratch + "/again"; o->freeze(f.c_str(), 0); std::string t = slurp(f); unlink(f.c_str());
        Ev e("read"); e.str("v", args.variant).str("from", it->second).i("c", id).Ls("oAns", digest(a)).L("oImg", hash64(t.data(), t.size())).u("oLen", t.size()).u("oRet", ret); e.done();
    }
}
static void raw(U64s const& w) { // the primitives over a list of words
    if (mapping) return; namespace B = S::broadword; Ans a;
    for (size_t i = 0; i < w.size(); ++i) {
        uint64_t x = w[i]; unsigned long r = 99; put(a, B::popcount(x)); put(a, B::reverse_bytes(x)); put(a, B::reverse_bits(x));
        put(a, B::msb(x, r) ? r : 99); r = 99; put(a, B::lsb(x, r) ? r : 99); if (x) { put(a, B::msb(x)); put(a, B::lsb(x)); put(a, B::bit_position(x & -x)); }
        uint64_t k = 0; for (uint64_t y = x; y; y &= y - 1) put(a, B::select_in_word(x, k++));
        std::vector<uint8_t> b; put(a, S::append_vbyte(b, x)); put(a, hash64(&b[0], b.size())); uint64_t v = 0; put(a, S::decode_vbyte(b, 0, v)); put(a, v);
        if (i) put(a, B::same_msb(x, w[i - 1]));
    }
    Ev e(role()); e.str("v", args.variant).str("kind", "words").i("c", 1).i("route", 0).Ls("oAns", digest(a)).L("oImg", 0).u("oLen", 0).u("oRet", 0); e.done();
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough; mapping = args.mode == "map";
    for (int k = 0; k < KINDS_N; ++k) for (size_t n = 0; n <= (T ? 200u : 130u); n += (n < 4 ? 1 : 9)) if (scenario(kind_name(k)))
        for (int id = 1; id <= 3; ++id) { Content c = content_make(k, n + (size_t)id - 1, (int)rng.below(60), rng); go(c, id, (int)rng.below(8)); }
    for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 40 : 8); ++i) if (scenario(std::string("mid-") + kind_name(k))) { Content c = content_make(k, 300 + rng.below(3000), i * 7, rng); c.fl = i % 4; go(c, 1, (int)rng.below(8)); }
    for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 10 : 3); ++i) if (scenario(std::string("big-") + kind_name(k))) { Content c = content_make(k, 9000 + rng.below(60000), i * 5, rng); c.fl = 3 - i % 4; go(c, 1, (int)rng.below(8)); }
    for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 6 : 1); ++i) if (scenario(std::string("wide-") + kind_name(k))) { Content c = content_wide(k, rng); go(c, 1, (int)rng.below(8)); }
    for (int i = 0; i < 16; ++i) if (scenario("words")) {
        U64s w; w.push_back(0); w.push_back(~0ULL);
        if (i < 8) for (int b = 0; b < 256; ++b) { w.push_back((uint64_t)b << (8 * i)); w.push_back(~((uint64_t)b << (8 * i))); }
        for (int j = 0; j < (T ? 20000 : 1500); ++j) { uint64_t x = rng.next(); for (uint64_t d = rng.below(5); d; --d) x &= rng.next(); if (rng.next() & 1) x = ~x; if (rng.chance(1, 4)) x >>= rng.below(64); w.push_back(x); }
        raw(w);
    }
    finish();
    return 0;
}
