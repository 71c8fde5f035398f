// Core of the monitoring harness: a tiny JSON value type, a deterministic PRNG,
// and the case/verdict protocol. Deliberately independent of valijson.
#pragma once
#include <algorithm>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0,n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline uint64_t mixSeed(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

// ---------------------------------------------------------------- JSON value
struct J {
    enum T { Null, Bool, Int, Dbl, Str, Arr, Obj } t = Null;
    bool b = false;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;  // insertion order, unique keys

    J() {}
    static J null() { return J(); }
    static J boolean(bool v) { J j; j.t = Bool; j.b = v; return j; }
    static J integer(int64_t v) { J j; j.t = Int; j.i = v; return j; }
    static J dbl(double v) { J j; j.t = Dbl; j.d = v; return j; }
    static J str(std::string v) { J j; j.t = Str; j.s = std::move(v); return j; }
    static J arr(std::vector<J> v = {}) { J j; j.t = Arr; j.a = std::move(v); return j; }
    static J obj() { J j; j.t = Obj; return j; }

    bool isNum() const { return t == Int || t == Dbl; }
    double num() const { return t == Int ? (double)i : d; }
    const J *find(const std::string &k) const {
        if (t != Obj) return nullptr;
        for (auto &kv : o) if (kv.first == k) return &kv.second;
        return nullptr;
    }
    J *find(const std::string &k) {
        for (auto &kv : o) if (kv.first == k) return &kv.second;
        return nullptr;
    }
    J &set(const std::string &k, J v) {
        if (J *p = find(k)) { *p = std::move(v); return *this; }
        o.emplace_back(k, std::move(v));
        return *this;
    }
    void erase(const std::string &k) {
        for (size_t n = 0; n < o.size(); n++) if (o[n].first == k) { o.erase(o.begin() + (long)n); return; }
    }
    size_t size() const { return t == Arr ? a.size() : t == Obj ? o.size() : 0; }
};

// An integral double in int64 range is "an integer" to JSON Schema
inline bool integralDouble(double d) {
    return std::isfinite(d) && std::floor(d) == d && d >= -9223372036854775808.0 && d < 9223372036854775808.0;
}

// exact comparison of numbers: -1, 0, 1
inline int numCmp(const J &x, const J &y) {
    if (x.t == J::Int && y.t == J::Int) return x.i < y.i ? -1 : x.i > y.i;
    long double a = x.t == J::Int ? (long double)x.i : (long double)x.d;   // x87: 64 bit mantissa, exact for both
    long double b = y.t == J::Int ? (long double)y.i : (long double)y.d;
    return a < b ? -1 : a > b;
}

// JSON equality: numbers by mathematical value, objects order-insensitive
inline bool jeq(const J &x, const J &y) {
    if (x.isNum() && y.isNum()) return numCmp(x, y) == 0;
    if (x.t != y.t) return false;
    switch (x.t) {
    case J::Null: return true;
    case J::Bool: return x.b == y.b;
    case J::Str: return x.s == y.s;
    case J::Arr:
        if (x.a.size() != y.a.size()) return false;
        for (size_t n = 0; n < x.a.size(); n++) if (!jeq(x.a[n], y.a[n])) return false;
        return true;
    case J::Obj:
        if (x.o.size() != y.o.size()) return false;
        for (auto &kv : x.o) { const J *p = y.find(kv.first); if (!p || !jeq(kv.second, *p)) return false; }
        return true;
    default: return false;
    }
}

inline void putStr(std::string &out, const std::string &s, bool ascii = false) {
    out += '"';
    for (unsigned char c : s) {
        char buf[8];
        switch (c) {
        case '"': out += "\\\""; break;
        case '\\': out += "\\\\"; break;
        case '\n': out += "\\n"; break;
        case '\t': out += "\\t"; break;
        case '\r': out += "\\r"; break;
        default:
            if (c < 0x20 || (c == 0x7f) || (ascii && c >= 0x80)) { snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
            else out += (char)c;
        }
    }
    out += '"';
}
inline void putDbl(std::string &out, double d) {
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", d);
    // shortest representation that round trips
    for (int p = 1; p < 17; p++) { char b2[64]; snprintf(b2, sizeof b2, "%.*g", p, d); if (strtod(b2, nullptr) == d) { strcpy(buf, b2); break; } }
    out += buf;
    if (!strpbrk(buf, ".eEn")) out += ".0";
}
inline void dumpTo(std::string &out, const J &j) {
    char buf[32];
    switch (j.t) {
    case J::Null: out += "null"; break;
    case J::Bool: out += j.b ? "true" : "false"; break;
    case J::Int: snprintf(buf, sizeof buf, "%" PRId64, j.i); out += buf; break;
    case J::Dbl: putDbl(out, j.d); break;
    case J::Str: putStr(out, j.s); break;
    case J::Arr: {
        out += '[';
        bool f = true;
        for (auto &e : j.a) { if (!f) out += ','; f = false; dumpTo(out, e); }
        out += ']';
        break; }
    case J::Obj: {
        out += '{';
        bool f = true;
        for (auto &kv : j.o) { if (!f) out += ','; f = false; putStr(out, kv.first); out += ':'; dumpTo(out, kv.second); }
        out += '}';
        break; }
    }
}
inline std::string dump(const J &j) { std::string s; dumpTo(s, j); return s; }

// ---------------------------------------------------------------- parser (for literal schemas in the harness)
struct Parser {
    const char *p, *e;
    [[noreturn]] void fail() { throw std::runtime_error(std::string("harness JSON literal is malformed near: ") + std::string(p, std::min<size_t>(20, (size_t)(e - p)))); }
    void ws() { while (p < e && strchr(" \t\r\n", *p)) p++; }
    static void utf8(std::string &o, uint32_t c) {
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    uint32_t hex4() { if (e - p < 4) fail(); uint32_t v = (uint32_t)strtoul(std::string(p, 4).c_str(), nullptr, 16); p += 4; return v; }
    std::string string() {
        std::string o;
        if (*p++ != '"') fail();
        while (p < e && *p != '"') {
            if (*p == '\\') {
                p++;
                char c = *p++;
                switch (c) {
                case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break;
                case 'b': o += '\b'; break; case 'f': o += '\f'; break;
                case 'u': { uint32_t v = hex4(); if (v >= 0xD800 && v < 0xDC00 && e - p >= 6 && p[0] == '\\' && p[1] == 'u') { p += 2; v = 0x10000 + ((v - 0xD800) << 10) + (hex4() - 0xDC00); } utf8(o, v); break; }
                default: o += c;
                }
            } else o += *p++;
        }
        if (p >= e) fail();
        p++;
        return o;
    }
    J value() {
        ws();
        if (p >= e) fail();
        if (*p == '{') {
            J j = J::obj(); p++; ws();
            if (*p == '}') { p++; return j; }
            for (;;) { ws(); std::string k = string(); ws(); if (*p++ != ':') fail(); j.set(k, value()); ws(); if (*p == ',') { p++; continue; } if (*p++ == '}') return j; fail(); }
        }
        if (*p == '[') {
            J j = J::arr(); p++; ws();
            if (*p == ']') { p++; return j; }
            for (;;) { j.a.push_back(value()); ws(); if (*p == ',') { p++; continue; } if (*p++ == ']') return j; fail(); }
        }
        if (*p == '"') return J::str(string());
        if (!strncmp(p, "true", 4)) { p += 4; return J::boolean(true); }
        if (!strncmp(p, "false", 5)) { p += 5; return J::boolean(false); }
        if (!strncmp(p, "null", 4)) { p += 4; return J(); }
        const char *q = p; bool fl = false;
        while (q < e && strchr("+-0123456789.eE", *q)) { if (strchr(".eE", *q)) fl = true; q++; }
        if (q == p) fail();
        std::string n(p, q); p = q;
        if (!fl) { errno = 0; long long v = strtoll(n.c_str(), nullptr, 10); if (!errno) return J::integer(v); }
        return J::dbl(strtod(n.c_str(), nullptr));
    }
};
inline J parse(const std::string &s) { Parser p{s.data(), s.data() + s.size()}; J j = p.value(); p.ws(); if (p.p != p.e) p.fail(); return j; }

// ---------------------------------------------------------------- options
struct Opt {
    int draft = 7;            // 3, 4, 7
    bool strict = true;       // kStrongTypes
    bool strictDate = true;   // kStrictDateTime
};
struct Err { std::vector<std::string> ctx; std::string desc, ptr; };

// ---------------------------------------------------------------- run protocol
// A harness runs cases [from, to) of a deterministic sequence. The index of the case
// being run is kept in a shared mapping so that the driver can attribute a crash.
struct Run {
    std::string mode;
    uint64_t seed = 1;
    uint64_t from = 0, to = 0;
    bool thorough = false, verbose = false;
    volatile uint64_t *progress = nullptr;
    std::map<std::string, uint64_t> stats;
    std::map<std::string, std::unordered_set<uint64_t>> distinct;
    std::map<std::string, std::vector<std::string>> samples;
    uint64_t violations = 0, cur = 0;
    std::string curText;
    std::map<std::string, int> perKey;

    void count(const std::string &k, uint64_t n = 1) { stats[k] += n; }
    void seen(const std::string &k, uint64_t h) { distinct[k].insert(h); }
    void sample(const std::string &k, const std::string &s) { auto &v = samples[k]; if (v.size() < 2) v.push_back(s.substr(0, 600)); }
    void at(uint64_t idx) { cur = idx; if (progress) *progress = idx + 1; }

    // key: stable identifier of what failed (used for known findings); detail: the witness
    void violation(const std::string &key, const std::string &detail) {
        violations++;
        if (perKey[key]++ >= 3) return;
        std::string o = "VIOL {\"key\":";
        putStr(o, key, true);
        o += ",\"case\":" + std::to_string(cur) + ",\"detail\":";
        putStr(o, detail.substr(0, 6000), true);
        o += "}\n";
        fputs(o.c_str(), stdout);
        fflush(stdout);
    }
    void finish() {
        std::string o = "DONE {\"violations\":" + std::to_string(violations) + ",\"stats\":{";
        bool f = true;
        for (auto &kv : stats) { if (!f) o += ','; f = false; putStr(o, kv.first); o += ':' + std::to_string(kv.second); }
        o += "},\"distinct\":{";
        f = true;
        for (auto &kv : distinct) {
            if (!f) o += ','; f = false; putStr(o, kv.first); o += ":[";
            // hashes, so that the driver can take a union over shards (capped)
            size_t n = 0;
            for (uint64_t h : kv.second) { if (n) o += ','; o += std::to_string(h & 0xffffffffffull); if (++n >= 60000) break; }
            o += ']';
        }
        o += "},\"samples\":{";
        f = true;
        for (auto &kv : samples) {
            if (!f) o += ','; f = false; putStr(o, kv.first); o += ":[";
            for (size_t n = 0; n < kv.second.size(); n++) { if (n) o += ','; putStr(o, kv.second[n], true); }
            o += ']';
        }
        o += "}}\n";
        fputs(o.c_str(), stdout);
        fflush(stdout);
    }
};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f); char buf[4096]; vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}

// Every harness implements this: run case `idx` (deterministic in run.seed, idx).
using CaseFn = std::function<void(Run &, uint64_t idx, Rng &)>;

inline int harnessMain(int argc, char **argv, const CaseFn &fn, const std::function<void(Run &)> &end = nullptr) {
    Run r;
    for (int n = 1; n < argc; n++) {
        std::string a = argv[n];
        auto val = [&]() -> std::string { return n + 1 < argc ? argv[++n] : ""; };
        if (a == "--seed") r.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--from") r.from = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--to") r.to = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--only") { r.from = strtoull(val().c_str(), nullptr, 10); r.to = r.from + 1; r.verbose = true; }
        else if (a == "--mode") r.mode = val();
        else if (a == "--thorough") r.thorough = true;
        else if (a == "--verbose") r.verbose = true;
        else if (a == "--progress") {
            int fd = open(val().c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, 4096) == 0) {
                void *m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) r.progress = (volatile uint64_t *)m;
            }
        } else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    for (uint64_t idx = r.from; idx < r.to; idx++) {
        r.at(idx);
        Rng rng(mixSeed(r.seed, idx ^ (hashStr(r.mode) << 20)));
        fn(r, idx, rng);
    }
    r.at(UINT64_MAX - 1);
    if (end) end(r);
    r.finish();
    return 0;
}

}  // namespace vh
