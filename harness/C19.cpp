// C19: histories of questions on several objects, and several threads asking at once.
#include "query.hpp"
#include <thread>
#include <atomic>
using namespace vf;
enum { NC = 3, NO = 4 };
struct World {
    int kind; Content con[NC + 1]; std::unique_ptr<Aux> aux[NC + 1]; Queries qs[NC + 1];
    std::unique_ptr<QObj> o[NO + 1]; int has[NO + 1]; bool told; std::vector<uint64_t> img[NC + 1];
    World(int k, size_t lim, bool twins = false) : kind(k), told(false) {
        for (int c = 1; c <= NC; ++c) {
            if (twins) { // the second is the first read backwards
                if (c == 1) con[1] = content_halves(k, 2 + rng.below(lim), rng);
                else if (c == 2) con[2] = content_mirror(con[1]);
                else { con[3] = content_make(k, con[1].b.size() + con[1].x.size(), (int)rng.below(60), rng); con[3].seed = con[1].seed; }
            } else
            if (!lim) con[c] = content_wide(k, rng);
            else { con[c] = content_make(k, 1 + rng.below(rng.chance(1, 4) ? 40 : lim), (int)rng.below(60), rng); }
            // close to another content: a stale answer looks plausible
            if (!twins && c == NC && rng.chance(1, 2)) { con[c] = content_make(k, con[1].b.size() + con[1].x.size(), (int)rng.below(60), rng); con[c].seed = con[1].seed; }
            aux[c].reset(new Aux(con[c])); qs[c] = questions(con[c]);
            std::unique_ptr<QObj> t(qobj_new(k)); t->build(con[c], 0); std::string f = args.scratch + "/w"; t->freeze(f.c_str());
            std::string s = slurp(f); unlink(f.c_str()); img[c].assign(s.size() / 8 + 1, 0); memcpy(&img[c][0], s.data(), s.size());
        }
        for (int i = 1; i <= NO; ++i) { o[i].reset(qobj_new(k)); has[i] = 0; }
    }
    uint64_t ask(QObj const& p, int c, size_t q) const { return p.ask(con[c], *aux[c], qs[c][q]); }
    // what the answers are: asked once each, of an object nobody else has
    void base() {
        for (int c = 1; c <= NC; ++c) {
            std::unique_ptr<QObj> t(qobj_new(kind)); t->build(con[c], (int)rng.below(8)); U64s a; for (size_t q = 0; q < qs[c].size(); ++q) a.push_back(ask(*t, c, q));
            Ev e("base"); e.str("kind", kind_name(kind)).i("c", c).Ls("oA", a); e.done();
        }
        told = true;
        for (int c = NC; c >= 1; --c) { // backwards
            std::unique_ptr<QObj> t(qobj_new(kind)); t->build(con[c], (int)rng.below(8)); std::vector<long> ql; U64s a; for (size_t q = qs[c].size(); q-- > 0;) { ql.push_back((long)q + 1); a.push_back(ask(*t, c, q)); }
            Ev e("again"); e.i("c", c).vec("q", ql).Ls("oA", a); e.done();
        }
    }
    void build(int i, int c, int route) { o[i]->build(con[c], route); has[i] = c; Ev e("build"); e.i("o", i).i("c", c); e.done(); }
    void map(int i, int c, int warm) { o[i]->map((const char*)&img[c][0], (uint64_t)warm); has[i] = c; Ev e("build"); e.i("o", i).i("c", c); e.done(); }
    void swap(int i, int j) { o[i]->swap(*o[j]); std::swap(has[i], has[j]); Ev e("swap"); e.i("o", i).i("p", j); e.done(); }
    void destroy(int i) { o[i].reset(); o[i].reset(qobj_new(kind)); has[i] = 0; Ev e("destroy"); e.i("o", i); e.done(); }
    void ask_run(int i, size_t from, size_t n) { // n questions one after another
        if (!has[i]) return; size_t m = qs[has[i]].size(); std::vector<long> ql; U64s a;
        for (size_t k = 0; k < n && k < m; ++k) { size_t q = (from + k) % m; ql.push_back((long)q + 1); a.push_back(ask(*o[i], has[i], q)); }
        Ev e(told ? "ask" : "ask0"); e.i("o", i).vec("q", ql).Ls("oA", a); e.done();
    }
    void mixed(size_t n) { // questions to all objects in turn
        std::vector<long> ol, ql; U64s a; for (size_t k = 0; k < n; ++k) { int i = 1 + (int)rng.below(NO); if (!has[i]) continue; size_t q = rng.below(qs[has[i]].size()); for (int rep = 0; rep <= (int)rng.below(2); ++rep) { ol.push_back(i); ql.push_back((long)q + 1); a.push_back(ask(*o[i], has[i], q)); } }
        Ev e(told ? "mix" : "mix0"); e.i("t", 0).vec("o", ol).vec("q", ql).Ls("oA", a); e.done();
    }
    // the same question to an object before and after its content is exchanged, rebuilt or mapped anew
    void flips(size_t rounds) {
        build(1, 1, (int)rng.below(8)); build(2, 2, (int)rng.below(8)); build(3, 3, (int)rng.below(8)); build(4, 1, (int)rng.below(8));
        for (size_t r = 0; r < rounds; ++r) {
            size_t m = std::min(qs[1].size(), qs[2].size()), from = rng.below(m), n = 1 + rng.below(3);
            for (int k = 0; k < 5; ++k) {
                ask_run(1, from, n);
                if (rng.chance(1, 3)) ask_run(4, from, n);
                switch (rng.below(6)) {
                case 0: build(1, 3 - has[1] > 0 ? 3 - has[1] : 1, 4 + (int)rng.below(4)); break;
                case 1: map(1, 3 - has[1] > 0 ? 3 - has[1] : 1, (int)rng.below(2)); break;
                case 2: swap(1, 3); break;
                default: swap(1, 2);
                }
                if (rng.chance(1, 3)) from = (from + 1) % m;
            }
        }
    }
    void replay(std::string const& h) {
        std::istringstream in(h); std::string op;
        while (in >> op) {
            long a, b, c; std::string t; in >> a >> b; std::getline(in, t, ';'); c = atol(t.c_str());
            if (op == "build") build((int)a, (int)b, (int)c); else if (op == "map") map((int)a, (int)b, (int)c & 1); else if (op == "swap") swap((int)a, (int)b); else if (op == "destroy") destroy((int)a);
            else if (op == "ask") ask_run((int)a, (size_t)b * 7, (size_t)c); else if (op == "mix") mixed((size_t)c * 4); else { fprintf(stderr, "bad op %s\n", op.c_str()); exit(3); }
        }
        for (int i = 1; i <= NO; ++i) ask_run(i, rng.below(50), 40);
    }
    // threads: every one asks the shared objects in its own order, and builds, swaps and drops objects of its own
    void threads(int n, int rounds, bool busy) {
        for (int i = 1; i <= NO; ++i) { if (i & 1) build(i, 1 + (i - 1) % NC, (int)rng.below(8)); else map(i, 1 + (i - 1) % NC, 0); }
        typedef std::set<std::pair<std::pair<int, size_t>, uint64_t> > Seen;
        std::vector<Seen> seen((size_t)n); std::vector<std::thread> th; std::atomic<int> ready(0); uint64_t seed = rng.next();
        for (int t = 0; t < n; ++t) th.push_back(std::thread([&, t]() {
            Rng g(mix(seed, (uint64_t)t)); ++ready; while (ready < n) {}
            Seen& s = seen[(size_t)t]; std::unique_ptr<QObj> own(qobj_new(kind)), own2(qobj_new(kind)); int oc = 0, oc2 = 0;
            for (int r = 0; r < rounds; ++r) {
                if (busy && (t & 1) && g.chance(1, 40)) { int c = 1 + (int)g.below(NC); if (g.next() & 1) own->build(con[c], (int)g.below(8)); else own->map((const char*)&img[c][0], g.next() & 1); oc = c; }
                if (busy && (t & 1) && g.chance(1, 60)) { own->swap(*own2); std::swap(oc, oc2); }
                if (busy && (t & 1) && g.chance(1, 90)) { own2.reset(); own2.reset(qobj_new(kind)); oc2 = 0; }
                if (oc && g.chance(1, 3)) { size_t q = g.below(qs[oc].size()); s.insert(std::make_pair(std::make_pair(100 + oc, q), ask(*own, oc, q))); }
                int i = g.chance(1, 2) ? 1 : 1 + (int)g.below(NO); size_t m = qs[has[i]].size(), q = r < (int)m ? (size_t)r : g.below(m); // all start with the same questions
                s.insert(std::make_pair(std::make_pair(i, q), ask(*o[i], has[i], q)));
            }
        }));
        for (int t = 0; t < n; ++t) th[(size_t)t].join();
        for (int t = 0; t < n; ++t) { // objects above 100: a thread's own, of the content 1..
            std::vector<long> ol, ql; U64s a; for (Seen::iterator it = seen[(size_t)t].begin(); it != seen[(size_t)t].end(); ++it) { ol.push_back(it->first.first); ql.push_back((long)it->first.second + 1); a.push_back(it->second); }
            Ev e(told ? "mix" : "mix0"); e.i("t", t + 1).vec("o", ol).vec("q", ql).Ls("oA", a); e.done();
        }
    }
};

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "threads") {
        for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 12 : 3); ++i) if (scenario(std::string("threads-") + kind_name(k))) { World w(k, i == 0 ? 60 : i == 1 ? 900 : 12000); w.threads(4, T ? 4000 : 900, i != 1); w.base(); }
        finish(); return 0;
    }
    if (!args.gen.empty()) {
        std::ifstream in(args.gen.c_str()); std::string line; int i = 0;
        while (std::getline(in, line)) { ++i; if (scenario(std::string("gen-") + kind_name(i % KINDS_N))) { World w(i % KINDS_N, i % 4 ? 400 : 5000); if (i % 3) w.base(); w.replay(line); if (i % 3 == 0) w.base(); } }
    }
    // big objects: several superblocks, and questions that repeat
    for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 10 : 3); ++i) if (scenario(std::string("big-") + kind_name(k))) {
        World w(k, i % 4 == 2 ? 0 : 40000); w.base(); for (int c = 1; c <= NO; ++c) w.build(c, 1 + (c - 1) % NC, (int)rng.below(8));
        for (int r = 0; r < 12; ++r) { w.mixed(60); switch (rng.below(4)) { case 0: w.swap(1 + (int)rng.below(NO), 1 + (int)rng.below(NO)); break; case 1: w.build(1 + (int)rng.below(NO), 1 + (int)rng.below(NC), 4 + (int)rng.below(4)); break; case 2: w.map(1 + (int)rng.below(NO), 1 + (int)rng.below(NC), 1); break; default: w.destroy(1 + (int)rng.below(NO)); } }
        w.mixed(60);
    }
    for (int k = 0; k < KINDS_N; ++k) for (int i = 0; i < (T ? 12 : 4); ++i) if (scenario(std::string("flip-") + kind_name(k))) { World w(k, i == 0 ? 300 : i % 2 ? 6000 : 40000, true); w.base(); w.flips(T ? 200 : 90); }
    finish();
    return 0;
}
