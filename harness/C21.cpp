// C21: the line readers.
#include "vf.hpp"
#include <sys/mman.h>
#include "succinct/util.hpp"
using namespace vf;
namespace U = succinct::util;
typedef std::vector<std::string> Ls;

static std::string path(int k) { return args.scratch + "/t" + std::to_string(k); }
static void put(std::string const& t, int k) { std::ofstream f(path(k).c_str(), std::ios::binary); f.write(t.data(), (long)t.size()); }
static size_t cap(std::string const& t) { return (size_t)std::count(t.begin(), t.end(), '\n') + 8; } // a reader that never ends is cut here
static void log(const char* how, std::string const& t, Ls const& ls, int end) {
    Ev e("lines"); e.str("how", how); e.vec("t", std::vector<unsigned char>(t.begin(), t.end()));
    std::vector<std::vector<unsigned char> > o; for (size_t i = 0; i < ls.size(); ++i) o.push_back(std::vector<unsigned char>(ls[i].begin(), ls[i].end()));
    e.vecs("oLs", o).i("oEnd", end); e.done();
}
// end: 1 when the reader reported the end, and again when asked again
static void all(std::string const& t, unsigned which = 63) {
    put(t, 0); size_t lim = cap(t);
    for (int trim = 0; trim < 2; ++trim) {
        if (which >> trim & 1) { U::auto_file f(path(0).c_str()); Ls r; std::string s("leftover"); while (r.size() < lim && U::fast_getline(s, f.get(), trim)) r.push_back(s); int end = !U::fast_getline(s, f.get(), trim) && !U::fast_getline(s, f.get(), trim); log(trim ? "trim" : "keep", t, r, end); }
        if (which >> (2 + trim) & 1) { U::auto_file f(path(0).c_str()); Ls r; U::line_range_t g = U::lines(f.get(), trim); for (; g.first != g.second && r.size() < lim; ++g.first) r.push_back(*g.first); log(trim ? "trim" : "keep", t, r, g.first == g.second); }
    }
    if (which >> 4 & 1) { std::vector<char> b(t.begin(), t.end()); b.push_back('X'); Ls r; if (t.empty()) { char c = 'x'; U::buffer_line_iterator i(&c, 0), z; for (; i != z && r.size() < lim; ++i) r.push_back(*i); log("buf", t, r, i == z); }
        else { std::unique_ptr<char[]> x(new char[t.size()]); memcpy(x.get(), t.data(), t.size()); U::buffer_line_iterator i(x.get(), t.size()), z; for (; i != z && r.size() < lim; ++i) r.push_back(*i); log("buf", t, r, i == z); } }
    if (which >> 5 & 1) { U::mmap_lines m(path(0)); Ls r; U::mmap_lines::iterator i = m.begin(), z = m.end(); for (; i != z && r.size() < lim; ++i) r.push_back(*i); log("buf", t, r, i == z);
        Ls r2; for (U::mmap_lines::const_iterator j = m.begin(); j != m.end() && r2.size() < lim; ++j) r2.push_back(*j); if (r2 != r) log("buf", t, r2, 1); }
}
// two streams read alternately
static void two(std::string const& a, std::string const& b, int trim) {
    put(a, 1); put(b, 2); U::auto_file f(path(1).c_str()), g(path(2).c_str()); Ls x, y; std::string s; size_t la = cap(a), lb = cap(b); bool ea = false, eb = false;
    while ((!ea && x.size() < la) || (!eb && y.size() < lb)) {
        if (!ea && (eb || (rng.next() & 1))) { if (U::fast_getline(s, f.get(), trim)) { x.push_back(s); if (x.size() >= la) ea = true; } else ea = true; }
        else if (!eb) { if (U::fast_getline(s, g.get(), trim)) { y.push_back(s); if (y.size() >= lb) eb = true; } else eb = true; }
    }
    log(trim ? "trim" : "keep", a, x, 1); log(trim ? "trim" : "keep", b, y, 1);
}
static std::string text(size_t n, int style) {
    std::string t; while (t.size() < n) {
        switch (style % 6) {
        case 0: t += rng.chance(1, 6) ? '\n' : rng.chance(1, 8) ? '\r' : (char)('a' + rng.below(26)); break;
        case 1: t += rng.chance(1, 2) ? '\n' : '\r'; break;
        case 2: t += std::string(rng.below(12), 'q') + (rng.next() & 1 ? "\r\n" : "\n"); break;
        case 3: t += (char)(1 + rng.below(255)); break;
        case 4: t += std::string(rng.below(400), 'z') + (rng.chance(1, 4) ? "\r\r\n" : rng.chance(1, 4) ? "\n\r" : "\n"); break;
        case 5: t += rng.chance(1, 20) ? "\n" : std::string(1, (char)(128 + rng.below(128))); break;
        }
    }
    return t;
}

// texts of billions of characters
struct Source { std::string const* p; uint64_t lead, len, at; char c; }; // lead times c, then *p over and over up to len in all
static ssize_t feed(void* v, char* b, size_t n) {
    Source& s = *(Source*)v; size_t g = 0;
    while (g < n && s.at < s.len) {
        if (s.at < s.lead) { size_t k = (size_t)std::min<uint64_t>(n - g, s.lead - s.at); memset(b + g, s.c, k); g += k; s.at += k; continue; }
        size_t o = (size_t)((s.at - s.lead) % s.p->size()), k = (size_t)std::min<uint64_t>(std::min<uint64_t>(n - g, s.p->size() - o), s.len - s.at);
        memcpy(b + g, s.p->data() + o, k); g += k; s.at += k;
    }
    return (ssize_t)g;
}
static FILE* stream(Source& s) { cookie_io_functions_t f; memset(&f, 0, sizeof f); f.read = feed; return fopencookie(&s, "r", f); }
struct Sink { // lines of a repeated text: as many as there are, compared with those a period before
    size_t m; uint64_t n, diff; Ls first; explicit Sink(size_t m_) : m(m_), n(0), diff(~0ULL) {}
    void line(std::string const& l) { if (n < m) first.push_back(l); else if (diff == ~0ULL && first[n % m] != l) diff = n; ++n; }
};
static void lsof(Ev& e, Ls const& ls) { std::vector<std::vector<unsigned char> > o; for (size_t i = 0; i < ls.size(); ++i) o.push_back(std::vector<unsigned char>(ls[i].begin(), ls[i].end())); e.vecs("oLs", o); }
static void per(int which, uint64_t k) { // 0, 1: by lines, 2, 3: by line_iterator, 4: from a buffer
    std::string p = text(4095, 4 + (int)rng.below(which == 4 ? 1 : 2)).substr(0, 4095); p += '\n';
    std::vector<unsigned char> pv(p.begin(), p.end()); size_t m = (size_t)std::count(p.begin(), p.end(), '\n'); Sink s(m); uint64_t lim = m * (k + 1); int end = 0;
    const char* how = which == 4 ? "buf" : which % 2 ? "trim" : "keep";
    if (which < 4) {
        Source src = {&p, 0, k * p.size(), 0, 0}; FILE* f = stream(src); std::string l; bool trim = which % 2;
        if (which < 2) { while (s.n < lim && U::fast_getline(l, f, trim)) s.line(l); end = !U::fast_getline(l, f, trim); }
        else { U::line_range_t g = U::lines(f, trim); for (; g.first != g.second && s.n < lim; ++g.first) s.line(*g.first); end = g.first == g.second; }
        fclose(f);
    } else {
        const size_t C = 1 << 20; int fd = memfd_create("text", 0); std::string c; while (c.size() < C) c += p;
        if (fd < 0 || write(fd, c.data(), C) != (ssize_t)C) { perror("memfd"); exit(3); }
        size_t len = (size_t)(k * p.size()), room = (len + C - 1) / C * C;
        char* b = (char*)mmap(0, room, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == (char*)MAP_FAILED) { perror("mmap"); exit(3); }
        for (size_t o = 0; o < room; o += C) if (mmap(b + o, C, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
        close(fd);
        { U::buffer_line_iterator i(b, len), z; for (; i != z && s.n < lim; ++i) s.line(*i); end = i == z; }
        munmap(b, room);
    }
    Ev e("per"); e.str("how", how).vec("p", pv).i("k", (long)k).L("oN", s.n).i("oDiff", s.diff == ~0ULL ? -1 : clip(s.diff) < 0 ? 2000000000 : clip(s.diff)).i("oEnd", end); lsof(e, s.first); e.done();
}
static void led(int which, uint64_t n, std::string const& t) {
    std::vector<uint64_t> lens; Ls ls; bool all = true; int end = 0; size_t lim = cap(t); const char* how = which == 4 ? "buf" : which % 2 ? "trim" : "keep";
    auto line = [&](std::string const& l) {
        lens.push_back(l.size());
        if (ls.empty() && l.size() >= n) { for (uint64_t i = 0; i + 1 < n; ++i) if (l[i] != 'b') { all = false; break; } ls.push_back(l.substr(n - 1)); if (ls[0].size() > 5000) ls[0].resize(5000); }
        else ls.push_back(l.substr(0, 5000));
    };
    if (which < 4) {
        Source src = {&t, n, n + t.size(), 0, 'b'}; FILE* f = stream(src); bool trim = which % 2;
        if (which < 2) { std::string l; while (ls.size() < lim && U::fast_getline(l, f, trim)) line(l); end = !U::fast_getline(l, f, trim); }
        else { U::line_range_t g = U::lines(f, trim); for (; g.first != g.second && ls.size() < lim; ++g.first) line(*g.first); end = g.first == g.second; }
        fclose(f);
    } else {
        size_t len = n + t.size(); char* b = (char*)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == (char*)MAP_FAILED) { perror("mmap"); exit(3); }
        memset(b, 'b', n); memcpy(b + n, t.data(), t.size());
        { U::buffer_line_iterator i(b, len), z; for (; i != z && ls.size() < lim; ++i) line(*i); end = i == z; }
        munmap(b, len);
    }
    Ev e("led"); e.str("how", how).i("c", 'b').L("n", n).vec("t", std::vector<unsigned char>(t.begin(), t.end())).Ls("oLen", lens).i("oAll", all).i("oEnd", end); lsof(e, ls); e.done();
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool T = args.thorough;
    if (args.mode == "huge") {
        uint64_t const K = (1ULL << 20) + 300; static const char* ends[] = {"", "\n", "\r\n", "\r\r\n", "\r\nlast", "\n\nx\r\n"};
        for (int w = 0; w < 5; ++w) if (scenario("repeated")) per(w, K + rng.below(9));
        for (int w = 0; w < 5; ++w) if (w != 2 || T) if (scenario("long-line")) led(w, (1ULL << 32) + rng.below(70000), ends[rng.below(6)]);
        for (int w = 0; w < 5; ++w) if (w != 0 || T) if (scenario("half-line")) led(w, (1ULL << 31) - 100 + rng.below(200), ends[rng.below(6)]);
        finish(); return 0;
    }
    static const char al[] = {'a', '\n', '\r'};
    for (int n = 0; n <= (T ? 7 : 6); ++n) { long m = 1; for (int i = 0; i < n; ++i) m *= 3; for (int part = 0; part < 8; ++part) if (scenario("all-" + std::to_string(n)))
        for (long k = part; k < m; k += 8) { std::string t; long x = k; for (int i = 0; i < n; ++i) { t += al[x % 3]; x /= 3; } all(t); } }
    for (int i = 0; i < (T ? 1200 : 240); ++i) if (scenario("random")) { std::string t = text(rng.below(i % 5 ? 200 : 3000), (int)rng.below(6)); if (rng.chance(1, 3)) t += '\n'; all(t); }
    // line lengths around the internal buffer of the stream readers, terminated in every way, alone and among others
    static const long ls[] = {65533, 65534, 65535, 65536, 65537, 131068, 131069, 131070, 131071, 131072, 196605, 196604};
    for (size_t k = 0; k < sizeof ls / sizeof *ls; ++k) for (int e = 0; e < 5; ++e) if (T || k < 8 || e % 2 == (int)k % 2) if (scenario("long")) {
        static const char* ends[] = {"", "\n", "\r\n", "\r\r\n", "\n\n"};
        std::string t; if (rng.next() & 1) t += "x\n"; if (rng.chance(1, 4)) t += "\n";
        std::string body((size_t)ls[k], 'b'); if (rng.next() & 1) body[rng.below(body.size())] = '\r'; if (rng.next() & 1) body[(size_t)ls[k] - 1] = '\r';
        t += body; t += ends[e]; if (e && (rng.next() & 1)) t += "tail";
        unsigned w = (1u << rng.below(2)) | (4u << rng.below(2)) | (rng.chance(1, 3) ? 48u : 0u); all(t, T ? 63 : w);
    }
    // carriage returns, one or several, where a buffer of some customary size ends
    static const long bs[] = {64, 128, 256, 512, 1024, 4096, 8192, 16384, 65536, 131072};
    for (size_t k = 0; k < sizeof bs / sizeof *bs; ++k) for (int d = -2; d <= 1; ++d) for (int m = 1; m <= (bs[k] <= 4096 || T ? 3 : 1); ++m) if (scenario("cr-at-buffer")) {
        static const char* ends[] = {"", "\n", "\r\n", "\r\r\n", "tail\n", "\nx"};
        std::string t((size_t)(bs[k] + d + 1), 'b'); for (long j = 0; j < m; ++j) t[t.size() - 1 - (size_t)j] = '\r'; if (rng.chance(1, 3)) t = std::string("y\n") + t.substr(2);
        if (rng.next() & 1) t += std::string(1 + rng.below(5), 'c'); t += ends[rng.below(6)];
        unsigned w = 1u << rng.below(6); all(t, T || bs[k] <= 4096 ? 63 : (1u << 1) | (rng.chance(1, 4) ? w : 0u) | (rng.chance(1, 3) ? 8u : 0u));
    }
    for (int i = 0; i < (T ? 12 : 3); ++i) if (scenario("huge-line")) { std::string t((size_t)(rng.range(200000, 400000)), 'c'); if (i % 3) t += i % 3 == 1 ? "\n" : "\r\n"; all(t, 1u << (i % 4) | 32u); }
    for (int i = 0; i < (T ? 300 : 60); ++i) if (scenario("two")) two(text(rng.below(300), i), text(rng.below(300), i + 1), i & 1);
    for (int i = 0; i < 3; ++i) unlink(path(i).c_str());
    finish();
    return 0;
}
