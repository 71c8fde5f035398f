// C14: numeric keywords by exact value at every magnitude, sizes, spellings, locales
#include "sem.hpp"
#include <clocale>
#include <locale>
#include <cfenv>
using namespace vh;
typedef __int128 I;

// ---------------------------------------------------------------- exact arithmetic on int64 and double
static bool finiteIntegral(double d) { return std::isfinite(d) && std::floor(d) == d; }
// |d| mod m, exactly, d integral, m > 0
static uint64_t modExact(double d, uint64_t m) {
    int e;
    double f = std::frexp(std::fabs(d), &e);
    uint64_t mant = (uint64_t)std::ldexp(f, 53);
    e -= 53;
    while (e < 0) { mant >>= 1; e++; }        // integral: the bits dropped are zero
    unsigned __int128 r = mant % m, two = 2 % m;
    for (; e > 0; e--) r = r * two % m;
    return (uint64_t)r;
}
static bool multipleOfInt(const J &v, int64_t m) {
    if (v.t == J::Int) return v.i % m == 0;
    return finiteIntegral(v.d) && modExact(v.d, (uint64_t)m) == 0;
}

// ---------------------------------------------------------------- values
static J number(Rng &r) {
    static const std::vector<int64_t> edge = {0, 1, -1, 2, -2, 10, 100, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, UINT32_MAX, (int64_t)UINT32_MAX + 1, 1ll << 52, (1ll << 53) - 1, 1ll << 53, (1ll << 53) + 1, -(1ll << 53) - 1,
        1ll << 62, (1ll << 62) + 1, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, INT64_MAX - 511, INT64_MAX - 512, INT64_MAX - 1023, 1000000000000000000ll, 999999999999999999ll, -999999999999999999ll};
    static const std::vector<double> dedge = {0.0, -0.0, 0.5, -0.5, 1.5, 0.1, 1e-5, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 9007199254740992.0, 9007199254740994.0, 4503599627370495.5, 4503599627370496.0,
        9223372036854775808.0, -9223372036854775808.0, 9223372036854774784.0, -9223372036854777856.0, 9223372036854777856.0, 18446744073709551616.0, 18446744073709549568.0, 1e19, 1e20, 1e100, 1e300, -1e300, 2147483647.5, 2147483648.0, 4294967296.0, 0.30000000000000004, 123456.789, 1e15, 1e16, 1e17, 1e18};
    switch (r.below(8)) {
    case 0: case 1: return J::integer(r.pick(edge));
    case 2: { int64_t e = r.pick(edge); return J::integer((int64_t)((uint64_t)e + (uint64_t)r.range(-3, 3))); }
    case 3: { uint64_t x = r.next() >> r.below(64); return J::integer((int64_t)(r.chance(50) ? x : 0 - x)); }
    case 4: case 5: return J::dbl(r.pick(dedge));
    case 6: { double d = r.pick(dedge); d = std::nextafter(d, r.chance(50) ? 1e308 : -1e308); return J::dbl(std::isfinite(d) ? d : 1.0); }
    default: { double d = std::ldexp((double)(int64_t)(r.next() >> r.range(10, 60)), (int)r.range(-80, 80)); return J::dbl(r.chance(50) ? d : -d); }
    }
}
static J around(const J &j, Rng &r) {         // a number next to another, in either form
    if (j.t == J::Int) {
        if (r.chance(40)) { double d = (double)j.i; if (r.chance(60)) d = std::nextafter(d, r.chance(50) ? 1e308 : -1e308); return J::dbl(d); }
        return J::integer((int64_t)((uint64_t)j.i + (uint64_t)r.range(-2, 2)));
    }
    if (r.chance(40) && std::fabs(j.d) < 9.2e18) return J::integer((int64_t)((uint64_t)(int64_t)j.d + (uint64_t)r.range(-1, 1)));
    double d = j.d;
    if (r.chance(60)) d = std::nextafter(d, r.chance(50) ? 1e308 : -1e308);
    return J::dbl(std::isfinite(d) ? d : 1.0);
}
static bool boundOk(const J &b) {             // bounds are kept as double: others are known findings
    return b.t == J::Dbl || (double)b.i != 9223372036854775808.0 ? b.t == J::Dbl || (int64_t)(double)b.i == b.i : false;
}
// what a library can hold
static bool holds(const Lib *lib, const J &j) {
    std::string n = lib->name;
    if (n == "json11") { if (j.t == J::Int && ((double)j.i >= 9223372036854775808.0 || (int64_t)(double)j.i != j.i)) return false; }
    for (auto &e : j.a) if (!holds(lib, e)) return false;
    for (auto &kv : j.o) if (!holds(lib, kv.second)) return false;
    return true;
}

// ---------------------------------------------------------------- locales
struct Comma : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1\2"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
static const char *cLocale() {
    static const char *res = [] {
        const char *scratch = getenv("VH_SCRATCH");
        std::string dir = std::string(scratch ? scratch : "/tmp") + "/locales-" + std::to_string(getpid());
        std::string cmd = "mkdir -p '" + dir + "' && localedef -i de_DE -f UTF-8 '" + dir + "/de_DE.UTF-8' >/dev/null 2>&1";
        int rc = system(cmd.c_str());
        (void)rc;
        setenv("LOCPATH", dir.c_str(), 1);
        const char *l = setlocale(LC_ALL, "de_DE.UTF-8");
        std::string keep = l ? l : "";
        setlocale(LC_ALL, "C");
        std::string rm = "rm -r -f '" + dir + "'";
        if (system(rm.c_str())) {}
        return keep.empty() ? (const char *)nullptr : strdup(keep.c_str());
    }();
    return res;
}
struct Locale {                               // in force while the code under test runs
    bool cpp, c;
    std::locale old;
    static bool keepC;
    Locale(Run &run, int kind) : cpp(kind & 1), c(kind & 2) {
        if (cpp) { static std::locale l(std::locale::classic(), new Comma); old = std::locale::global(l); run.count("under_cpp_locale"); }
        if (c) { if (!setlocale(LC_ALL, "de_DE.UTF-8")) c = false; else { run.count("under_c_locale"); if (std::localeconv()->decimal_point[0] != ',') abort(); } }
    }
    ~Locale() { if (c) setlocale(LC_ALL, "C"); if (cpp) { std::locale::global(old); if (c) setlocale(LC_ALL, "C"); } }
};

struct Bench {
    Run &run;
    Lib *lib;
    Opt opt;
    int kind;                                 // of locale
    Rng &r;
    // schema and instance: expected verdict
    bool check(const std::string &key, const J &schema, const J &inst, bool want) {
        if (!holds(lib, schema) || !holds(lib, inst)) return true;
        CompileResult cr;
        Outcome o, o2;
        {
            Locale l(run, kind);
            cr = lib->compile(schema, opt);
            if (cr.c) cr.c->validate2(inst, opt, o, o2);
        }
        if (!cr.c) { run.violation(key + ":populate", std::string(lib->name) + " " + optText(opt) + " schema " + dump(schema) + " rejected: " + cr.what); return false; }
        run.count("evaluations");
        run.count(want ? "valid" : "invalid");
        run.count("kw_" + key);
        run.seen("pairs", hashStr(dump(schema) + dump(inst)));
        if (o.threw || o2.threw || o.valid != want || o2.valid != want) {
            run.violation(key, std::string(lib->name) + " " + optText(opt) + (kind ? fmt(" locale %d", kind) : "") + " schema " + dump(schema) + " instance " + dump(inst) + ": " +
                (o.threw ? "threw " + o.what : o2.threw ? "threw " + o2.what : std::string("expected ") + tf(want) + ", got " + tf(o.valid) + ", with results " + tf(o2.valid)));
            return false;
        }
        return true;
    }
    J weak(const J &v) {                      // the same number as a string, now and then
        if (opt.strict || !r.chance(40)) return v;
        if (v.t == J::Int) return J::str(std::to_string(v.i));
        char b[64];
        snprintf(b, sizeof b, "%.17g", v.d);
        return J::str(b);
    }
};
static J obj1(const char *k, J v) { J o = J::obj(); o.set(k, std::move(v)); return o; }

static Bench bench(Run &run, uint64_t idx, Rng &r) {
    Bench b{run, typedLibs()[idx % typedLibs().size()], Opt(), 0, r};
    b.opt.draft = r.chance(50) ? 7 : r.chance(60) ? 4 : 3;
    b.opt.strict = r.chance(75);
    b.kind = run.mode == "locale" ? 1 + (int)r.below(cLocale() ? 3 : 1) : 0;
    return b;
}

static bool bounds(Bench &b) {
    Rng &r = b.r;
    J bound;
    do bound = number(r); while (!boundOk(bound));
    for (int k = 0; k < 3; k++) {
        J v = r.chance(60) ? around(bound, r) : r.chance(20) ? bound : number(r);
        int c = numCmp(v, bound);
        J w = b.weak(v);
        J min = obj1("minimum", bound), max = obj1("maximum", bound), xmin, xmax;
        if (b.opt.draft == 7) { xmin = obj1("exclusiveMinimum", bound); xmax = obj1("exclusiveMaximum", bound); }
        else { xmin = min; xmin.set("exclusiveMinimum", J::boolean(true)); xmax = max; xmax.set("exclusiveMaximum", J::boolean(true)); }
        if (!b.check("minimum", min, w, c >= 0) || !b.check("maximum", max, w, c <= 0) || !b.check("exclusiveMinimum", xmin, w, c > 0) || !b.check("exclusiveMaximum", xmax, w, c < 0)) return false;
    }
    return true;
}
static bool multiples(Bench &b) {
    Rng &r = b.r;
    const char *kw = b.opt.draft == 3 ? "divisibleBy" : "multipleOf";
    if (r.chance(50)) {       // integers
        int64_t m;
        do { J n = r.chance(50) ? J::integer(r.range(1, 1000)) : number(r); m = n.t == J::Int ? n.i : std::fabs(n.d) < 9e18 ? (int64_t)n.d : 1; if (m < 0 && m != INT64_MIN) m = -m; } while (m <= 0);
        J divisor = J::integer(m);
        if (r.chance(25) && (double)m < 9e18 && (int64_t)(double)m == m) divisor = J::dbl((double)m);
        for (int k = 0; k < 3; k++) {
            J v = number(r);
            if (r.chance(50)) {
                I q = (I)r.range(-2000, 2000) * ((I)1 << r.below(30)), x = q * m + (r.chance(40) ? r.range(-2, 2) : 0);
                if (x >= INT64_MIN && x <= INT64_MAX) { v = J::integer((int64_t)x); if (r.chance(30) && (double)v.i < 9e18 && (int64_t)(double)v.i == v.i) v = J::dbl((double)v.i); }
            } else if (r.chance(40)) v = J::dbl(std::ldexp((double)m, (int)r.below(900)) * (r.chance(50) ? 3 : 1));
            if (v.t == J::Dbl && !std::isfinite(v.d)) continue;
            J w = v.t == J::Dbl && std::fabs(v.d) >= 9e18 ? v : b.weak(v);
            if (!b.check(kw, obj1(kw, divisor), w, multipleOfInt(v, m))) return false;
        }
        return true;
    }
    if (r.chance(70)) {       // decimals: a 10^-p and b 10^-q
        static const double p10[] = {1, 10, 100, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12};
        int q = (int)r.range(1, 6), p = (int)r.range(0, 6);
        int64_t bb = r.range(1, r.chance(50) ? 20 : 9999);
        if (bb % (int64_t)p10[q] == 0) bb++;              // a fraction
        J divisor = J::dbl((double)bb / p10[q]);
        for (int k = 0; k < 3; k++) {
            I scale = (I)p10[p], dscale = (I)p10[q];
            int64_t a;
            if (r.chance(60)) {    // a multiple: a = n * bb * 10^(p-q)
                int64_t n = r.range(-100000, 100000);
                I x = (I)n * bb;
                if (p >= q) x *= (I)p10[p - q]; else { I d = (I)p10[q - p]; x = x * d; x /= d * d; }
                a = (int64_t)x + (r.chance(25) ? r.range(-1, 1) : 0);
            } else a = r.range(-10000000, 10000000);
            if (a > 1000000000000ll || a < -1000000000000ll) continue;
            // a / scale = n * bb / dscale  <=>  a * dscale = n * bb * scale
            I lhs = (I)a * dscale, rhs = (I)bb * scale;
            I quot = lhs / rhs;
            if (quot > 100000000 || quot < -100000000) continue;
            J v = a % (int64_t)scale == 0 && r.chance(70) ? J::integer(a / (int64_t)scale) : J::dbl((double)a / p10[p]);
            if (!b.check(kw, obj1(kw, divisor), b.weak(v), lhs % rhs == 0)) return false;
        }
        return true;
    }
    // divisors beyond int64, and overflowing quotients
    double d = std::ldexp((double)r.range(1, 1000), (int)r.range(64, 900));
    int64_t k = r.range(-1000, 1000);
    return b.check(kw, obj1(kw, J::dbl(d)), J::dbl(d * (double)k), true) && b.check(kw, obj1(kw, J::dbl(d)), J::dbl(d * ((double)k + 0.5)), false) &&
        b.check(kw, obj1(kw, J::dbl(d)), J::integer(r.range(1, INT64_MAX)), false) && b.check(kw, obj1(kw, J::dbl(0.123456789)), J::dbl(std::ldexp(1.1, 1023)), false);
}
static bool types(Bench &b) {
    J v = number(b.r), w = b.weak(v);
    bool integral = v.t == J::Int || finiteIntegral(v.d);
    if (!b.check("number", obj1("type", J::str("number")), w, true)) return false;
    if (w.t == J::Str) { if (v.t == J::Dbl) return true; }
    if (v.t == J::Dbl && integral && !b.opt.strict && std::fabs(v.d) > 9e18) {}
    return b.check("integer", obj1("type", J::str("integer")), w, integral);
}
static bool equality(Bench &b) {
    Rng &r = b.r;
    std::vector<J> vals;
    for (int n = (int)r.range(1, 4); n > 0; n--) vals.push_back(r.chance(50) || vals.empty() ? number(r) : around(vals[0], r));
    J v = r.chance(70) ? around(r.pick(vals), r) : number(r);
    bool in = false, first = jeq(v, vals[0]), unique = true;
    for (auto &x : vals) in = in || jeq(x, v);
    b.opt.strict = true;
    J wrap = r.chance(30) ? J::arr({v}) : v;
    std::vector<J> ev;
    for (auto &x : vals) ev.push_back(wrap.t == J::Arr ? J::arr({x}) : x);
    // enumerations contain each value once
    std::vector<J> en;
    for (auto &x : ev) { bool dup = false; for (auto &y : en) dup = dup || jeq(x, y); if (!dup) en.push_back(x); }
    if (!b.check("enum", obj1("enum", J::arr(en)), wrap, in)) return false;
    if (b.opt.draft == 7 && !b.check("const", obj1("const", ev[0]), wrap, first)) return false;
    ev.push_back(wrap);
    for (size_t i = 0; i < ev.size(); i++) for (size_t j = 0; j < i; j++) unique = unique && !jeq(ev[i], ev[j]);
    return b.check("uniqueItems", obj1("uniqueItems", J::boolean(true)), J::arr(ev), unique);
}
static bool sizes(Bench &b) {
    Rng &r = b.r;
    int n = r.chance(60) ? (int)r.below(6) : (int)r.range(6, 300);
    // bounds near the size, and far beyond every narrower integer type
    static const std::vector<int64_t> far = {255, 256, 65535, 65536, INT32_MAX, (int64_t)INT32_MAX + 1, UINT32_MAX, (int64_t)UINT32_MAX + 1, 1ll << 53, (1ll << 53) + 1, 1ll << 62, INT64_MAX, INT64_MAX - 1};
    int64_t bound = r.chance(50) ? std::max<int64_t>(0, n + r.range(-2, 2)) : r.chance(60) ? r.pick(far) : (int64_t)((uint64_t)n + ((uint64_t)r.range(1, 5) << (8 * r.range(1, 7))));
    if (bound < 0) bound = INT64_MAX;
    J bv = J::integer(bound);
    if (r.chance(20) && bound < (1ll << 53)) bv = J::dbl((double)bound);     // 3.0 is an integer, too
    static const char *kws[][2] = {{"minItems", "maxItems"}, {"minLength", "maxLength"}, {"minProperties", "maxProperties"}};
    int k = (int)r.below(b.opt.draft == 3 ? 2 : 3);
    J inst = k == 0 ? J::arr() : k == 1 ? J::str("") : J::obj();
    for (int i = 0; i < n; i++) {
        if (k == 0) inst.a.push_back(J::integer(i));
        else if (k == 1) inst.s += i % 3 ? "a" : "\xE2\x82\xAC";
        else inst.o.emplace_back("p" + std::to_string(1000 + i), J());
    }
    return b.check(kws[k][0], obj1(kws[k][0], bv), inst, n >= bound) && b.check(kws[k][1], obj1(kws[k][1], bv), inst, n <= bound);
}

// ---------------------------------------------------------------- spellings
// the same number, written in another way (all exactly representable, few digits)
static std::string spell(int64_t num, int den2, Rng &r) {
    // num / 2^den2 as a decimal: num * 5^den2 / 10^den2
    I m = num;
    for (int k = 0; k < den2; k++) m *= 5;
    bool neg = m < 0;
    if (neg) m = -m;
    std::string digits;
    do { digits.insert(digits.begin(), (char)('0' + (int)(m % 10))); m /= 10; } while (m);
    int exp = -den2;
    if (r.chance(40)) { int z = (int)r.below(4); digits += std::string((size_t)z, '0'); exp -= z; }
    else while (digits.size() > 1 && digits.back() == '0' && r.chance(70)) { digits.pop_back(); exp++; }
    // place the point somewhere
    std::string s;
    int shift = (int)r.range(0, (int64_t)digits.size() + 1);       // digits after the point
    if (r.chance(40) && exp <= 0 && -exp < 12) shift = -exp;
    while ((int)digits.size() <= shift) digits.insert(digits.begin(), '0');
    std::string whole = digits.substr(0, digits.size() - (size_t)shift), frac = digits.substr(digits.size() - (size_t)shift);
    while (whole.size() > 1 && whole[0] == '0') whole.erase(0, 1);
    exp += shift;
    s = (neg ? "-" : "") + whole;
    if (!frac.empty()) s += "." + frac;
    if (exp || r.chance(20)) s += std::string(r.chance(50) ? "e" : "E") + (exp < 0 ? "" : r.chance(40) ? "+" : "") + std::to_string(exp);
    return s;
}
static void spelling(Run &run, uint64_t idx, Rng &r) {
    Bench b = bench(run, idx, r);
    b.opt.strict = true;
    for (int k = 0; k < 8; k++) {
        int den = (int)r.below(4);
        int64_t x = r.chance(30) ? r.range(-8, 8) : r.range(-200000, 200000), y = r.chance(50) ? x : x + r.range(-1, 1);
        std::string a = spell(x, den, r), c = spell(y, den, r);
        static const std::vector<std::string> kws = {"minimum", "maximum", "enum", "const", "uniqueItems", "type", "multipleOf", "exclusiveMinimum", "maxLength"};
        std::string kw = r.pick(kws), schema, inst = c;
        bool want;
        b.opt.draft = 7;
        if (kw == "minimum") { schema = a; want = y >= x; }
        else if (kw == "maximum") { schema = a; want = y <= x; }
        else if (kw == "exclusiveMinimum") { schema = a; want = y > x; }
        else if (kw == "enum") { schema = "[" + a + "]"; want = x == y; }
        else if (kw == "const") { schema = a; want = x == y; }
        else if (kw == "uniqueItems") { schema = "true"; inst = "[" + a + "," + c + "]"; want = x != y; }
        else if (kw == "type") { schema = "\"integer\""; want = y % (1 << den) == 0; }
        else if (kw == "multipleOf") { int64_t m = r.range(1, 9); schema = spell(m, 0, r); want = y % (m << den) == 0; }
        else { int64_t m = r.range(0, 9); size_t n = (size_t)r.below(12); schema = spell(m, 0, r); inst = "\"" + std::string(n, 'x') + "\""; want = (int64_t)n <= m; }
        std::string text = "{\"" + kw + "\":" + schema + "}";
        CompileResult cr;
        if (!b.lib->compileText(text, b.opt, cr)) { run.count("text_rejected_by_library"); continue; }
        if (!cr.c) { run.violation("spelling:populate", std::string(b.lib->name) + " schema " + text + " rejected: " + cr.what); return; }
        Outcome o;
        if (!cr.c->validateText(inst, b.opt, r.chance(50), o)) { run.count("text_rejected_by_library"); continue; }
        run.count("evaluations");
        run.count("spellings");
        run.count(want ? "valid" : "invalid");
        run.seen("pairs", hashStr(text + inst));
        if (o.threw || o.valid != want) { run.violation("spelling", std::string(b.lib->name) + " schema " + text + " instance " + inst + ": expected " + tf(want) + ", got " + (o.threw ? "threw " + o.what : tf(o.valid))); return; }
    }
}

// weak types under locales: the text of numbers
static bool texts(Bench &b) {
    Rng &r = b.r;
    b.opt.strict = false;
    if (!b.lib->strictTypes) return true;
    int64_t x = (r.chance(50) ? r.range(-99, 99) : r.range(-9999999, 9999999)) | 1;
    double d = (double)x / 8;
    char six[64];
    snprintf(six, sizeof six, "%.6f", d);
    std::string num = std::to_string(x);
    b.opt.draft = 7;
    return b.check("weak-pattern", obj1("pattern", J::str("^-?[0-9]+$")), J::integer(x), true) &&
        b.check("weak-length", obj1("maxLength", J::integer((int64_t)num.size())), J::integer(x), true) &&
        b.check("weak-length", obj1("minLength", J::integer((int64_t)num.size() + 1)), J::integer(x), false) &&
        b.check("weak-pattern", obj1("pattern", J::str("^-?[0-9]+\\.[0-9]{6}$")), J::dbl(d), true) &&
        b.check("weak-length", obj1("maxLength", J::integer((int64_t)strlen(six))), J::dbl(d), true) &&
        b.check("weak-type", obj1("type", J::str("number")), J::str(std::to_string(x / 8) + ".5"), true) &&
        b.check("weak-type", obj1("type", J::str("number")), J::str(std::to_string(x / 8) + ",5"), false) &&
        b.check("weak-type", obj1("type", J::str("integer")), J::str("1.000"), false) &&
        b.check("weak-type", obj1("type", J::str("integer")), J::str("12.345.678"), false) &&
        b.check("weak-type", obj1("type", J::str("number")), J::str("1.234.567"), false) &&
        b.check("weak-minimum", obj1("minimum", J::dbl(d)), J::str(six), true) &&
        b.check("weak-minimum", obj1("exclusiveMinimum", J::dbl(d)), J::str(six), false) &&
        b.check("weak-type", obj1("type", J::str("boolean")), J::str("true"), true) &&
        b.check("weak-type", obj1("type", J::str("boolean")), J::str("wahr"), false);
}

static void numbers(Run &run, uint64_t idx, Rng &r) {
    Bench b = bench(run, idx, r);
    for (int k = 0; k < 6; k++) {
        int what = run.mode == "bounds" ? 0 : run.mode == "multiples" ? 1 : run.mode == "others" ? 2 + (int)r.below(3) : (int)r.below(6);
        b.opt.strict = r.chance(75);
        bool ok = what == 0 ? bounds(b) : what == 1 ? multiples(b) : what == 2 ? types(b) : what == 3 ? equality(b) : what == 4 ? sizes(b) : texts(b);
        if (!ok) return;
    }
}

// integer bounds that double cannot hold: listed findings
static void fixed(Run &run, uint64_t idx, Rng &r) {
    static const struct { const char *kw; int64_t bound, inst; bool want; } t[] = {
        {"maximum", 9007199254740993, 9007199254740993, true}, {"maximum", INT64_MAX - 1, INT64_MAX, false}, {"minimum", 9007199254740995, 9007199254740995, true}, {"exclusiveMaximum", 9007199254740995, 9007199254740995, false}};
    if (idx >= sizeof t / sizeof *t) return;
    Bench b{run, libNlohmann(), Opt(), 0, r};
    CompileResult cr = b.lib->compile(obj1(t[idx].kw, J::integer(t[idx].bound)), b.opt);
    run.count("evaluations");
    Outcome o = cr.c->validate(J::integer(t[idx].inst), b.opt, false);
    if (o.valid != t[idx].want) run.violation(fmt("fixed:bound-%s-%lld", t[idx].kw, (long long)t[idx].bound), fmt("{\"%s\":%lld} with %lld: expected %s", t[idx].kw, (long long)t[idx].bound, (long long)t[idx].inst, tf(t[idx].want)));
}

int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t i, Rng &r) {
        if (run.mode == "spelling") spelling(run, i, r);
        else if (run.mode == "fixed") fixed(run, i, r);
        else numbers(run, i, r);
    });
}
