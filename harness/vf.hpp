// Common part of the conformance drivers: arguments, scenario sharding,
// deterministic random numbers and the ndjson log that TLC judges.
//
// A driver only calls the public interface of succinct and writes down what it
// was given and what it got back.  It never decides whether an answer is right:
// that is done by the TLA+ trace specification.  Fields whose name starts with
// 'o' + capital letter are observations of the implementation; the others say
// what was asked.
#pragma once

#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>
#include <stdint.h>
#include <unistd.h>

namespace vf {

static const long BAD = -1; // an answer outside the representable range
static const long NA = -2;  // call outside its precondition: not made

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
};

struct Args {
    uint64_t seed;
    bool thorough;
    unsigned shard, nshards;
    std::string out, scratch, gen, mode, shared, variant;
};

static Args args;
static FILE* logf_ = 0;
static long scenario_no = -1;
static std::string only_;
static Rng rng(1);

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x2545F4914F6CDD1DULL + b);
    r.next();
    return r.next();
}

inline void init(int argc, char** argv) {
    args.seed = 1; args.thorough = false; args.shard = 0; args.nshards = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") args.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--tier") args.thorough = (v == "thorough");
        else if (k == "--shard") args.shard = (unsigned)atoi(v.c_str());
        else if (k == "--nshards") args.nshards = (unsigned)atoi(v.c_str());
        else if (k == "--out") args.out = v;
        else if (k == "--scratch") args.scratch = v;
        else if (k == "--gen") args.gen = v;
        else if (k == "--mode") args.mode = v;
        else if (k == "--shared") args.shared = v;
        else if (k == "--variant") args.variant = v;
        else if (k == "--only") only_ = v;
        else { fprintf(stderr, "bad argument %s\n", k.c_str()); exit(3); }
    }
    logf_ = fopen(args.out.c_str(), "w");
    if (!logf_) { fprintf(stderr, "cannot open %s\n", args.out.c_str()); exit(3); }
    static char buf[1 << 20];
    setvbuf(logf_, buf, _IOFBF, sizeof buf);
}

// one line of the log
struct Ev {
    std::string s;
    explicit Ev(const char* e) { s = "{\"e\":\""; s += e; s += "\""; }
    void key(const char* k) { s += ",\""; s += k; s += "\":"; }
    static void num(std::string& s, long v) {
        char b[24]; char* p = b + sizeof b; bool neg = v < 0;
        unsigned long u = neg ? (unsigned long)(-v) : (unsigned long)v;
        do { *--p = char('0' + u % 10); u /= 10; } while (u);
        if (neg) *--p = '-';
        s.append(p, size_t(b + sizeof b - p));
    }
    Ev& i(const char* k, long v) { key(k); num(s, v); return *this; }
    // an unsigned answer of the implementation: anything TLC cannot hold is BAD
    Ev& u(const char* k, uint64_t v) { return i(k, v > 2000000000ULL ? BAD : (long)v); }
    Ev& str(const char* k, std::string const& v) { key(k); s += '"'; s += v; s += '"'; return *this; }
    template <class C> Ev& vec(const char* k, C const& c) {
        key(k); s += '[';
        bool first = true;
        for (typename C::const_iterator it = c.begin(); it != c.end(); ++it) {
            if (!first) s += ',';
            first = false;
            num(s, (long)*it);
        }
        s += ']'; return *this;
    }
    // sequence of sequences
    template <class C> Ev& vecs(const char* k, C const& c) {
        key(k); s += '[';
        bool first = true;
        for (typename C::const_iterator it = c.begin(); it != c.end(); ++it) {
            if (!first) s += ',';
            first = false;
            s += '[';
            for (size_t j = 0; j < it->size(); ++j) { if (j) s += ','; num(s, (long)(*it)[j]); }
            s += ']';
        }
        s += ']'; return *this;
    }
    // 64-bit value as three limbs of 4/30/30 bits, most significant first
    static void limb(std::string& s, uint64_t v) {
        s += '['; num(s, (long)(v >> 60)); s += ',';
        num(s, (long)((v >> 30) & 0x3fffffff)); s += ',';
        num(s, (long)(v & 0x3fffffff)); s += ']';
    }
    Ev& L(const char* k, uint64_t v) { key(k); limb(s, v); return *this; }
    template <class C> Ev& Ls(const char* k, C const& c) {
        key(k); s += '[';
        for (size_t j = 0; j < c.size(); ++j) { if (j) s += ','; limb(s, c[j]); }
        s += ']'; return *this;
    }
    // 64-bit word as four 16-bit pieces, least significant first
    static void quad(std::string& s, uint64_t v) {
        s += '[';
        for (unsigned j = 0; j < 4; ++j) { if (j) s += ','; num(s, (long)((v >> (16 * j)) & 0xffff)); }
        s += ']';
    }
    Ev& Q(const char* k, uint64_t v) { key(k); quad(s, v); return *this; }
    template <class C> Ev& Qs(const char* k, C const& c) {
        key(k); s += '[';
        for (size_t j = 0; j < c.size(); ++j) { if (j) s += ','; quad(s, c[j]); }
        s += ']'; return *this;
    }
    // 64-bit word as its 64 bits, bit 0 first
    static void bits64(std::string& s, uint64_t v, unsigned n = 64) {
        s += '[';
        for (unsigned j = 0; j < n; ++j) { if (j) s += ','; s += char('0' + ((v >> j) & 1)); }
        s += ']';
    }
    Ev& W(const char* k, uint64_t v, unsigned n = 64) { key(k); bits64(s, v, n); return *this; }
    template <class C> Ev& Ws(const char* k, C const& c, unsigned n = 64) {
        key(k); s += '[';
        for (size_t j = 0; j < c.size(); ++j) { if (j) s += ','; bits64(s, c[j], n); }
        s += ']'; return *this;
    }
    void done(bool flush = true) {
        s += "}\n";
        if (fwrite(s.data(), 1, s.size(), logf_) != s.size()) { perror("log"); _exit(3); }
        if (flush) fflush(logf_);
    }
};

inline long clip(uint64_t v) { return v > 2000000000ULL ? BAD : (long)v; }

// Starts the next scenario; true when this shard runs it.  Each scenario has
// its own random stream, so shards do not influence each other.
inline bool scenario(std::string const& name) {
    ++scenario_no;
    if (!only_.empty()) { if (only_ != std::to_string(scenario_no)) return false; }
    else if ((unsigned long)scenario_no % args.nshards != args.shard) return false;
    rng = Rng(mix(args.seed, (uint64_t)scenario_no));
    Ev e("sc");
    e.str("n", name).i("i", scenario_no);
    e.done();
    return true;
}

inline void finish() {
    Ev("end").done();
    fclose(logf_);
}

typedef std::vector<unsigned char> BV; // one byte per bit
}
