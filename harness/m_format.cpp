// C11: the formats date, time, date-time and ipv4 against hand-written recognisers
#include "sem.hpp"
using namespace vh;

// ---------------------------------------------------------------- recognisers (no regular expressions)
struct Scan {
    const std::string &s;
    size_t p = 0;
    explicit Scan(const std::string &x) : s(x) {}
    bool num(size_t digits, int lo, int hi, int &v) {
        if (p + digits > s.size()) return false;
        v = 0;
        for (size_t k = 0; k < digits; k++) { char c = s[p + k]; if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); }
        p += digits;
        return v >= lo && v <= hi;
    }
    bool lit(char c) { if (p < s.size() && s[p] == c) { p++; return true; } return false; }
    bool oneOf(char a, char b) { return lit(a) || lit(b); }
    bool end() const { return p == s.size(); }
};
// days of each month by counting through a 400 year cycle, from the rule stated as a table of exceptions
static int daysIn(int y, int m) {
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    bool leap = y % 400 == 0 ? true : y % 100 == 0 ? false : y % 4 == 0;
    return d[m - 1] + (m == 2 && leap ? 1 : 0);
}
static bool dateAt(Scan &c) {
    int y, m, d;
    return c.num(4, 0, 9999, y) && c.lit('-') && c.num(2, 1, 12, m) && c.lit('-') && c.num(2, 1, 31, d) && d <= daysIn(y, m);
}
static bool timeAt(Scan &c, bool strict) {
    int h, m, s, oh = 0, om = 0, sign = 0;
    if (!(c.num(2, 0, 23, h) && c.lit(':') && c.num(2, 0, 59, m) && c.lit(':') && c.num(2, 0, 60, s))) return false;
    if (c.lit('.')) { size_t p = c.p; while (c.p < c.s.size() && c.s[c.p] >= '0' && c.s[c.p] <= '9') c.p++; if (c.p == p) return false; }
    if (c.oneOf('Z', 'z')) {}
    else if (c.lit('+')) sign = 1;
    else if (c.lit('-')) sign = -1;
    else if (strict) return false;
    if (sign && !(c.num(2, 0, 23, oh) && c.lit(':') && c.num(2, 0, 59, om))) return false;
    if (s == 60) { int utc = h * 60 + m - sign * (oh * 60 + om); if (utc != 23 * 60 + 59 && utc != 23 * 60 + 59 - 1440 && utc != 23 * 60 + 59 + 1440) return false; }
    return true;
}
static bool isDate(const std::string &s) { Scan c(s); return dateAt(c) && c.end(); }
static bool isTime(const std::string &s, bool strict) { Scan c(s); return timeAt(c, strict) && c.end(); }
static bool isDateTime(const std::string &s, bool strict) { Scan c(s); return dateAt(c) && c.oneOf('T', 't') && timeAt(c, strict) && c.end(); }
// undecided: leading zeros
static bool isIpv4(const std::string &s, bool &undecided) {
    size_t p = 0;
    undecided = false;
    for (int k = 0; k < 4; k++) {
        if (k && (p >= s.size() || s[p++] != '.')) { undecided = false; return false; }
        size_t q = p;
        int v = 0;
        while (p < s.size() && s[p] >= '0' && s[p] <= '9' && p - q < 4) v = v * 10 + (s[p++] - '0');
        if (p == q || p - q > 3 || v > 255) { undecided = false; return false; }
        if (p - q > 1 && s[q] == '0') undecided = true;
    }
    if (p != s.size()) { undecided = false; return false; }
    return true;
}
// years with a number of digits other than four are not judged
static bool oddYear(const std::string &s) {
    size_t n = 0;
    while (n < s.size() && s[n] >= '0' && s[n] <= '9') n++;
    return n != 4 && n > 0 && n < s.size() && s[n] == '-';
}

struct Bench {
    Lib *lib;
    std::map<std::string, std::unique_ptr<Compiled>> c;
    Run &run;
    Rng &r;
    int n = 0;
    Bench(Run &ru, Rng &rn, Lib *l) : lib(l), run(ru), r(rn) {}
    Compiled *get(const std::string &f, int draft) {
        auto &p = c[f + std::to_string(draft)];
        if (!p) {
            J s = J::obj();
            s.set("format", J::str(f));
            Opt o; o.draft = draft;
            p = lib->compile(s, o).c;
            if (!p) run.violation("rejected", "a schema with format " + f + " is rejected");
        }
        return p.get();
    }
    void check(const std::string &f, const J &v, bool want, bool strictDate, bool strict = true) {
        Opt o;
        o.draft = n % 3 == 0 ? 7 : n % 3 == 1 ? 4 : 3;
        o.strictDate = strictDate;
        o.strict = strict;
        n++;
        Compiled *p = get(f, o.draft);
        if (!p) return;
        bool res = r.chance(50);
        Outcome out = p->validate(v, o, res);
        run.count("evaluations");
        run.count(want ? "valid" : "invalid");
        run.count("cell:" + f + tf(want) + (strictDate ? "s" : "p"));
        bool errs = !res || out.errs.size() == (out.valid ? 0u : 1u);
        if (out.threw || out.valid != want || !errs)
            run.violation("format-" + f, fmt("%s %s%s: expected %s, got %s%s: format %s, value ", lib->name, optText(o).c_str(), res ? " with results" : "", tf(want), out.threw ? ("exception " + out.what).c_str() : tf(out.valid), errs ? "" : (" and errors " + errText(out.errs)).c_str(), f.c_str()) + dump(v));
    }
    void check(const std::string &f, const std::string &s) {
        bool sd = r.chance(50);
        if (f == "ipv4") { bool u, w = isIpv4(s, u); if (u) run.count("undecided"); else { run.seen("strings", hashStr(f + s)); check(f, J::str(s), w, sd); } return; }
        if (oddYear(s)) { run.count("undecided"); return; }
        run.seen("strings", hashStr(f + s));
        if (f == "date") check(f, J::str(s), isDate(s), sd);
        else check(f, J::str(s), f == "time" ? isTime(s, sd) : isDateTime(s, sd), sd);
    }
};

// one year: every month 0 to 13 and day 0 to 32; as a date and (first, last and a random day) as a date-time
static void days(Run &run, uint64_t idx, Rng &r) {
    int year = (int)((idx * 4649 + 2000) % 10000);
    Bench b(run, r, typedLibs()[idx % typedLibs().size()]);
    for (int m = 0; m <= 13; m++) for (int d = 0; d <= 32; d++) {
        std::string s = fmt("%04d-%02d-%02d", year, m, d);
        b.check("date", s);
        if (d >= 27 || d < 2 || r.chance(5)) b.check("date-time", s + (r.chance(50) ? "T" : "t") + fmt("%02d:%02d:%02d", (int)r.below(24), (int)r.below(60), (int)r.below(60)) + (r.chance(50) ? "Z" : r.chance(50) ? "-11:30" : ""));
    }
    run.seen("years", (uint64_t)year);
}
// one offset (idx): leap seconds at every minute near 23:59 UTC and at random minutes
static void leaps(Run &run, uint64_t idx, Rng &r) {
    int off = (int)(idx * 1237 % 2880);           // minute of offset and sign
    bool neg = off >= 1440;
    int o = off % 1440;
    Bench b(run, r, typedLibs()[idx % typedLibs().size()]);
    std::string zone = fmt("%c%02d:%02d", neg ? '-' : '+', o / 60, o % 60);
    int base = 1439 + (neg ? -o : o);
    for (int k = -70; k <= 70; k++) {
        if (k > 3 || k < -3) if (k % 60 != 0 && !r.chance(6)) continue;
        int m = ((base + k) % 1440 + 1440) % 1440;
        std::string t = fmt("%02d:%02d:60", m / 60, m % 60) + (r.chance(20) ? ".25" : "");
        b.check("time", t + zone);
        b.check("date-time", (r.chance(50) ? "2016-12-31T" : "1972-06-30t") + t + zone);
        b.check("time", t + (r.chance(50) ? "Z" : "z"));
        b.check("time", t);
        b.check("time", fmt("%02d:%02d:59", m / 60, m % 60) + zone);
    }
    for (int k = 0; k < 10; k++) { int m = (int)r.below(1440); b.check("time", fmt("%02d:%02d:60", m / 60, m % 60) + zone); }
    run.seen("offsets", (uint64_t)off);
}
// every field of a time over and beyond its range
static void clock_(Run &run, uint64_t idx, Rng &r) {
    Bench b(run, r, typedLibs()[idx % typedLibs().size()]);
    for (int k = 0; k < 60; k++) {
        int h = (int)(idx % 26), m = (int)r.below(62), s = (int)r.below(63);
        if (r.chance(60)) { h = (int)r.below(24); m = (int)r.below(60); }
        std::string t = fmt("%02d:%02d:%02d", h, m, s);
        if (r.chance(30)) { t += '.'; for (int64_t n = r.range(0, 12); n > 0; n--) t += (char)('0' + r.below(10)); }
        switch (r.below(5)) {
        case 0: t += 'Z'; break;
        case 1: t += 'z'; break;
        case 2: break;
        default: t += fmt("%c%02d:%02d", r.chance(50) ? '+' : '-', (int)r.below(26), (int)r.below(62));
        }
        b.check("time", t);
        b.check("date-time", fmt("%04d-%02d-%02d", (int)r.below(10000), (int)r.range(1, 12), (int)r.range(1, 29)) + (r.chance(45) ? "T" : r.chance(80) ? "t" : " ") + t);
    }
}
// strings near valid ones
static void near_(Run &run, uint64_t idx, Rng &r) {
    Bench b(run, r, typedLibs()[idx % typedLibs().size()]);
    static const std::vector<std::string> chars = {"0", "1", "2", "5", "6", "9", "-", "+", ":", ".", "T", "t", "Z", "z", " ", "\n", "\r", ",", "/", "a", "_", "x", "\xC3\xA9", "\xD9\xA3", "\xEF\xBC\x91", "\t", "e"};
    for (int k = 0; k < 40; k++) {
        std::string s, f;
        switch (r.below(4)) {
        case 0: f = "date"; s = fmt("%04d-%02d-%02d", (int)r.below(10000), (int)r.range(1, 12), (int)r.range(1, 28)); break;
        case 1: f = "time"; s = fmt("%02d:%02d:%02d", (int)r.below(24), (int)r.below(60), (int)r.below(60)); break;
        case 2: f = "date-time"; s = fmt("%04d-%02d-%02dT%02d:%02d:%02d", (int)r.below(10000), (int)r.range(1, 12), (int)r.range(1, 28), (int)r.below(24), (int)r.below(60), (int)r.below(60)); break;
        default: f = "ipv4"; s = fmt("%d.%d.%d.%d", (int)r.below(256), (int)r.below(256), (int)r.below(256), (int)r.below(256)); break;
        }
        if (f == "time" || f == "date-time") { if (r.chance(30)) s += ".5"; s += r.chance(50) ? "Z" : r.chance(50) ? "+01:30" : "-23:59"; }
        b.check(f, s);
        int edits = (int)r.range(1, 2);
        for (; edits > 0; edits--) {
            size_t p = r.below(s.size() + 1);
            switch (r.below(5)) {
            case 0: if (p < s.size()) s.erase(p, 1); break;
            case 1: s.insert(p, r.pick(chars)); break;
            case 2: if (p < s.size()) s.replace(p, 1, r.pick(chars)); break;
            case 3: s = r.chance(50) ? s.substr(0, p) : s.substr(p); break;
            default: if (p < s.size()) s.insert(p, 1, s[p]); break;
            }
        }
        // only ASCII before the change of a byte that splits a character
        bool split = false;
        for (size_t p = 0; p < s.size(); p++) if ((s[p] & 0xC0) == 0x80 && (p == 0 || !(s[p - 1] & 0x80))) split = true;
        if (split || (!s.empty() && (s.back() & 0xC0) == 0xC0)) continue;
        b.check(f, s);
        if (r.chance(30)) { static const std::vector<std::string> fs = {"date", "time", "date-time", "ipv4"}; b.check(r.pick(fs), s); }
    }
}
// every octet value in every place; all groups of boundary values
static void ip(Run &run, uint64_t idx, Rng &r) {
    Bench b(run, r, typedLibs()[idx % typedLibs().size()]);
    int v = (int)(idx % 1010);
    for (int k = 0; k < 4; k++) {
        int o[4];
        static const std::vector<int> edge = {0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255};
        for (int &x : o) x = r.pick(edge);
        o[k] = v;
        std::string s = fmt("%d.%d.%d.%d", o[0], o[1], o[2], o[3]);
        b.check("ipv4", s);
        b.check("ipv4", s + (r.chance(50) ? "." : ".1"));
        b.check("ipv4", fmt("%d.%d.%d", o[0], o[1], o[2]));
        b.check("ipv4", fmt("%d.%d.%d.%s", o[0], o[1], o[2], r.chance(50) ? "" : "-1"));
    }
}
// other formats, values that are not strings
static void others(Run &run, uint64_t idx, Rng &r) {
    Bench b(run, r, typedLibs()[idx % typedLibs().size()]);
    GenCfg cfg; cfg.integralDbl = false;
    SchemaGen g(cfg, r);
    for (int k = 0; k < 12; k++) {
        static const std::vector<std::string> fs = {"date", "time", "date-time", "ipv4"};
        static const std::vector<std::string> un = {"email", "ipv6", "uri", "hostname", "regex", "Date", "date ", "datetime", "ip-address", "DATE-TIME", "json-pointer", "idn-email", "ipv4 ", "IPv4", "times"};
        J v;
        do v = g.value(2); while (v.t == J::Str);
        b.check(r.pick(fs), v, true, r.chance(50), r.chance(50));
        b.check(r.pick(un), r.chance(70) ? J::str(g.str()) : g.value(1), true, r.chance(50), r.chance(50));
        run.seen("others", hashStr(dump(v)));
    }
}

int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t i, Rng &r) {
        if (run.mode == "days") days(run, i, r);
        else if (run.mode == "leaps") leaps(run, i, r);
        else if (run.mode == "clock") clock_(run, i, r);
        else if (run.mode == "near") near_(run, i, r);
        else if (run.mode == "ip") ip(run, i, r);
        else others(run, i, r);
    });
}
