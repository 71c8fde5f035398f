// C17: string lengths in code points; patterns against an independent matcher
#include "sem.hpp"
#include <valijson/validator.hpp>
using namespace vh;

static void putUtf8(std::string &o, uint32_t c) { Parser::utf8(o, c); }

// ------------------------------------------------------------------ lengths
static uint32_t codePoint(Rng &r, int kind) {
    static const std::vector<uint32_t> edges = {0x00, 0x01, 0x1F, 0x20, 0x7E, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xC3, 0xFF, 0x100, 0x300, 0x3FF, 0x400, 0x7BF, 0x7C0, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x1FFF, 0x2028, 0x3000,
        0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xEFFF, 0xF000, 0xFB01, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x1FFFF, 0x20000, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0xBFFFF, 0xC0000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF};
    for (;;) {
        uint32_t c;
        switch (kind) {
        case 0: c = (uint32_t)r.range(0x20, 0x7E); break;
        case 1: c = (uint32_t)r.range(0x80, 0x7FF); break;
        case 2: c = (uint32_t)r.range(0x800, 0xFFFF); break;
        case 3: c = (uint32_t)r.range(0x10000, 0x10FFFF); break;
        case 4: c = r.pick(edges); break;
        default: c = (uint32_t)r.below(0x110000);
        }
        if (c < 0xD800 || c > 0xDFFF) return c;
    }
}
static void length(Run &run, uint64_t idx, Rng &r) {
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    Opt opt;
    static const std::vector<int> drafts = {7, 7, 4, 3};
    opt.draft = r.pick(drafts);
    opt.strict = r.chance(60);
    for (int k = 0; k < 6; k++) {
        std::string s;
        int64_t n = r.chance(70) ? r.range(0, 12) : r.chance(80) ? r.range(0, 300) : r.range(0, run.thorough ? 100000 : 5000);
        int kind = (int)r.below(7);
        bool nul = r.chance(15);
        for (int64_t q = 0; q < n; q++) {
            uint32_t c = codePoint(r, kind == 6 ? (int)r.below(6) : kind);
            if (!c && !nul) c = 'a';
            if (nul && r.chance(20)) c = 0;
            putUtf8(s, c);
        }
        bool inName = opt.draft == 7 && r.chance(40);
        int64_t bound = std::max<int64_t>(0, n + r.range(-2, 2));
        if (r.chance(10)) bound = (int64_t)s.size();
        bool min = r.chance(50);
        bool want = min ? n >= bound : n <= bound;
        J leaf = J::obj();
        leaf.set(min ? "minLength" : "maxLength", J::integer(bound));
        J schema = leaf, inst = J::str(s);
        if (inName) { schema = J::obj(); schema.set("propertyNames", leaf); inst = J::obj(); inst.set(s, J::integer(1)); }
        else if (r.chance(30)) { schema = J::obj(); J p = J::obj(); p.set("a", leaf); schema.set("properties", p); J i = J::obj(); i.set("a", inst); inst = i; }
        J back;
        auto nat = lib->native(inst);
        std::string bad = nat->roundTrip(back);
        if (!bad.empty() || !jeq(back, inst)) { run.count("not_held"); run.count(std::string("not_held ") + lib->name); continue; }
        CompileResult c = lib->compile(schema, opt);
        if (!c.c) { run.violation("rejected", std::string(lib->name) + ": " + dump(schema) + ": " + c.what); return; }
        Outcome o = c.c->validate(inst, opt, r.chance(50));
        run.count("evaluations");
        run.count(want ? "valid" : "invalid");
        run.count(inName ? "names" : "values");
        if (nul) run.count("with_null_characters");
        if (s.size() != (size_t)n) run.count("multibyte");
        run.seen("pairs", hashStr(dump(schema)) ^ hashStr(dump(inst)) * 31);
        if (o.threw || o.valid != want) { run.violation("length", fmt("%s %s: %" PRId64 " code points (%zu bytes): ", lib->name, optText(opt).c_str(), n, s.size()) + dump(schema) + " " + dump(inst) + ": " + (o.threw ? "threw " + o.what : tf(o.valid))); return; }
    }
}

// ------------------------------------------------------------------ patterns
struct Re {
    enum K { Lit, Any, Class, Seq, Alt, Rep, Group, Start, End, WordB, NotWordB, Look, NotLook } k = Lit;
    std::string lit;                    // Lit: one character (maybe of several bytes)
    std::vector<std::pair<unsigned char, unsigned char>> ranges;   // Class
    bool neg = false, capture = false, lazy = false;
    std::string text;                   // Class: as it is written
    int lo = 0, hi = -1;
    std::vector<Re> sub;
};
static std::string show(const Re &e) {
    switch (e.k) {
    case Re::Lit: return strchr("^$\\.*+?()[]{}|/", e.lit[0]) && e.lit[0] ? "\\" + e.lit : e.lit;
    case Re::Any: return ".";
    case Re::Class: return e.text;
    case Re::Seq: { std::string o; for (auto &s : e.sub) o += show(s); return o; }
    case Re::Alt: { std::string o; for (size_t n = 0; n < e.sub.size(); n++) o += (n ? "|" : "") + show(e.sub[n]); return o; }
    case Re::Group: return (e.capture ? "(" : "(?:") + show(e.sub[0]) + ")";
    case Re::Rep: {
        std::string o = show(e.sub[0]);
        if (e.lo == 0 && e.hi == -1) o += "*";
        else if (e.lo == 1 && e.hi == -1) o += "+";
        else if (e.lo == 0 && e.hi == 1) o += "?";
        else if (e.hi == e.lo) o += fmt("{%d}", e.lo);
        else if (e.hi == -1) o += fmt("{%d,}", e.lo);
        else o += fmt("{%d,%d}", e.lo, e.hi);
        return o + (e.lazy ? "?" : "");
    }
    case Re::Start: return "^";
    case Re::End: return "$";
    case Re::WordB: return "\\b";
    case Re::NotWordB: return "\\B";
    case Re::Look: return "(?=" + show(e.sub[0]) + ")";
    case Re::NotLook: return "(?!" + show(e.sub[0]) + ")";
    }
    return "";
}
static bool word(const std::string &s, size_t i) { return i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_') && !(s[i] & 0x80); }
using Ends = std::set<size_t>;
static Ends match(const Re &e, const std::string &s, size_t i) {
    Ends out;
    switch (e.k) {
    case Re::Lit: if (s.compare(i, e.lit.size(), e.lit) == 0) out.insert(i + e.lit.size()); break;
    case Re::Any: if (i < s.size() && s[i] != '\n' && s[i] != '\r') out.insert(i + 1); break;
    case Re::Class: if (i < s.size()) { bool in = false; for (auto &x : e.ranges) if ((unsigned char)s[i] >= x.first && (unsigned char)s[i] <= x.second) in = true; if (in != e.neg) out.insert(i + 1); } break;
    case Re::Seq: { out.insert(i); for (auto &x : e.sub) { Ends next; for (size_t p : out) { Ends m = match(x, s, p); next.insert(m.begin(), m.end()); } out = next; } break; }
    case Re::Alt: for (auto &x : e.sub) { Ends m = match(x, s, i); out.insert(m.begin(), m.end()); } break;
    case Re::Group: return match(e.sub[0], s, i);
    case Re::Rep: {
        Ends cur = {i};
        for (int n = 0; n < e.lo; n++) { Ends next; for (size_t p : cur) { Ends m = match(e.sub[0], s, p); next.insert(m.begin(), m.end()); } cur = next; }
        out = cur;
        for (int n = e.lo; (e.hi < 0 || n < e.hi) && !cur.empty(); n++) {
            Ends next;
            for (size_t p : cur) for (size_t q : match(e.sub[0], s, p)) if (out.insert(q).second) next.insert(q);
            cur = next;
        }
        break;
    }
    case Re::Start: if (i == 0) out.insert(i); break;
    case Re::End: if (i == s.size()) out.insert(i); break;
    case Re::WordB: if (word(s, i) != (i > 0 && word(s, i - 1))) out.insert(i); break;
    case Re::NotWordB: if (word(s, i) == (i > 0 && word(s, i - 1))) out.insert(i); break;
    case Re::Look: if (!match(e.sub[0], s, i).empty()) out.insert(i); break;
    case Re::NotLook: if (match(e.sub[0], s, i).empty()) out.insert(i); break;
    }
    return out;
}
static bool search(const Re &e, const std::string &s) { for (size_t i = 0; i <= s.size(); i++) if (!match(e, s, i).empty()) return true; return false; }

struct ReGen {
    Rng &r;
    explicit ReGen(Rng &x) : r(x) {}
    int inRep = 0, unbounded = 0, inLook = 0;
    bool utf8;         // characters of several bytes (then nothing counts single bytes)
    std::string ch() {
        static const std::vector<std::string> ascii = {"a", "b", "c", "A", "B", "1", "2", "_", "-", " ", ".", "/", "$", "^", "\n", "x", "\t", "\"", "~", "+", "(", "]", "}"};
        static const std::vector<std::string> wide = {"\xC3\xA9", "\xC3\x89", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xC3\xA8"};
        return utf8 && r.chance(40) ? r.pick(wide) : ascii[r.chance(60) ? r.below(6) : r.below(ascii.size())];
    }
    Re lit() { Re e; e.lit = ch(); return e; }
    Re cls() {
        Re e; e.k = Re::Class;
        struct Esc { const char *t; std::vector<std::pair<unsigned char, unsigned char>> v; bool neg; };
        static const std::vector<Esc> esc = {{"\\d", {{'0', '9'}}, false}, {"\\D", {{'0', '9'}}, true}, {"\\w", {{'0', '9'}, {'A', 'Z'}, {'a', 'z'}, {'_', '_'}}, false}, {"\\W", {{'0', '9'}, {'A', 'Z'}, {'a', 'z'}, {'_', '_'}}, true},
            {"\\s", {{9, 13}, {' ', ' '}}, false}, {"\\S", {{9, 13}, {' ', ' '}}, true}};
        if (r.chance(40)) { const Esc &x = esc[r.below(utf8 ? 1 : esc.size())]; e.text = x.t; e.ranges = x.v; e.neg = x.neg; return e; }
        static const std::vector<std::pair<const char *, std::pair<unsigned char, unsigned char>>> parts = {{"a", {'a', 'a'}}, {"b", {'b', 'b'}}, {"a-c", {'a', 'c'}}, {"A-Z", {'A', 'Z'}}, {"0-9", {'0', '9'}}, {"_", {'_', '_'}}, {".", {'.', '.'}},
            {"1", {'1', '1'}}, {" ", {' ', ' '}}, {"$", {'$', '$'}}, {"\\]", {']', ']'}}, {"\\n", {'\n', '\n'}}, {"B-x", {'B', 'x'}}};
        e.neg = !utf8 && r.chance(35);
        e.text = e.neg ? "[^" : "[";
        for (int64_t n = r.range(1, 3); n > 0; n--) { auto &p = r.pick(parts); e.text += p.first; e.ranges.push_back(p.second); }
        e.text += "]";
        return e;
    }
    Re atom(int d) {
        Re e;
        switch (r.below(d > 0 ? 12 : 6)) {
        case 0: case 1: case 2: return lit();
        case 3: case 4: return cls();
        case 5: if (utf8) return lit(); e.k = Re::Any; return e;
        // (libstdc++ takes the start of a lookahead for the start of the text)
        case 6: e.k = r.chance(60) ? Re::WordB : Re::NotWordB; return utf8 || inLook ? lit() : e;
        case 7: e.k = r.chance(50) ? Re::Look : Re::NotLook; inLook++; e.sub.push_back(alt(d - 1)); inLook--; return e;
        default: e.k = Re::Group; e.capture = r.chance(40); e.sub.push_back(alt(d - 1)); return e;
        }
    }
    Re term(int d) {
        if (!inLook && r.chance(8)) { Re e; e.k = r.chance(50) ? Re::Start : Re::End; return e; }
        // (matchers that backtrack take exponential time for nested repetitions)
        bool rep = !inRep && r.chance(35);
        if (rep) inRep++;
        Re a = atom(d);
        if (rep) inRep--;
        if (a.k != Re::Lit && a.k != Re::Any && a.k != Re::Class && a.k != Re::Group) return a;
        if (a.k == Re::Lit && a.lit.size() > 1) return a;           // (a quantifier would apply to the last byte)
        if (!rep) return a;
        Re e; e.k = Re::Rep;
        static const std::vector<std::pair<int, int>> reps = {{0, -1}, {1, -1}, {0, 1}, {2, 2}, {0, 2}, {2, -1}, {1, 3}, {0, 0}, {3, 3}};
        auto p = r.pick(reps);
        if (p.second < 0 && unbounded >= 3) p.second = p.first + 2;
        e.lo = p.first; e.hi = p.second; e.lazy = r.chance(20);
        e.sub.push_back(a);
        if (e.hi < 0) unbounded++;
        return e;
    }
    Re seq(int d) { Re e; e.k = Re::Seq; for (int64_t n = r.range(r.chance(10) ? 0 : 1, 3); n > 0; n--) e.sub.push_back(term(d)); return e; }
    Re alt(int d) {
        if (r.chance(75)) return seq(d);
        Re e; e.k = Re::Alt;
        if (inRep) {        // different first characters
            std::set<std::string> seen;
            for (int64_t n = 3; n > 0; n--) { Re s = seq(0), l = lit(); if (!seen.insert(l.lit).second) continue; s.k = Re::Seq; s.sub.insert(s.sub.begin(), l); e.sub.push_back(s); }
            return e;
        }
        for (int64_t n = r.range(2, 3); n > 0; n--) { Re s = seq(d); e.sub.push_back(s); }
        return e;
    }
    Re top() {
        Re e = alt(2);
        if (e.k == Re::Seq) {
            Re a; a.k = Re::Start; Re b; b.k = Re::End;
            if (r.chance(35)) e.sub.insert(e.sub.begin(), a);
            if (r.chance(35)) e.sub.push_back(b);
        }
        return e;
    }
    // a string the expression is likely to match
    void sample(const Re &e, std::string &o) {
        switch (e.k) {
        case Re::Lit: o += e.lit; break;
        case Re::Any: o += r.pick(std::vector<std::string>{"a", "\n", "Z", " "}); break;
        case Re::Class: if (e.neg) o += r.pick(std::vector<std::string>{"a", "1", "%", " "}); else { auto &p = e.ranges[r.below(e.ranges.size())]; o += (char)r.range(p.first, p.second); } break;
        case Re::Seq: for (auto &s : e.sub) sample(s, o); break;
        case Re::Alt: sample(e.sub[r.below(e.sub.size())], o); break;
        case Re::Group: sample(e.sub[0], o); break;
        case Re::Rep: for (int64_t n = r.range(e.lo, e.hi < 0 ? e.lo + 3 : e.hi); n > 0; n--) sample(e.sub[0], o); break;
        default: break;
        }
    }
    std::string subject(const Re &e) {
        std::string o;
        auto noise = [&]() { for (int64_t n = r.range(0, 3); n > 0; n--) o += ch(); };
        if (r.chance(35)) noise();
        if (r.chance(80)) sample(e, o);
        if (r.chance(35)) noise();
        if (r.chance(10)) { o.insert(r.below(o.size() + 1), 1, '\n'); }
        if (r.chance(8)) { o.insert(r.below(o.size() + 1), 1, '\0'); }
        if (r.chance(10) && !o.empty()) { size_t p = r.below(o.size()); if (!(o[p] & 0x80)) o[p] = (char)(isupper((unsigned char)o[p]) ? tolower(o[p]) : toupper(o[p])); }
        if (r.chance(4)) o.insert(r.below(2) ? 0 : o.size(), std::string((size_t)r.range(20, unbounded > 2 ? 30 : unbounded > 1 ? 80 : 250), 'q'));
        return o;
    }
};
static bool badUtf8(const std::string &s) {
    for (size_t n = 0; n < s.size();) {
        unsigned char ch = (unsigned char)s[n];
        int k = ch < 0x80 ? 0 : ch >= 0xC2 && ch < 0xE0 ? 1 : ch >= 0xE0 && ch < 0xF0 ? 2 : ch >= 0xF0 && ch < 0xF5 ? 3 : -1;
        if (k < 0 || n + (size_t)k >= s.size()) return true;
        for (int q = 1; q <= k; q++) if (((unsigned char)s[n + (size_t)q] & 0xC0) != 0x80) return true;
        n += (size_t)k + 1;
    }
    return false;
}
static void pattern(Run &run, uint64_t idx, Rng &r) {
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    Opt opt;
    opt.strict = r.chance(80);
    static const std::vector<int> drafts = {7, 7, 4, 3};
    opt.draft = r.pick(drafts);
    ReGen g(r);
    g.utf8 = r.chance(25);
    valijson::Validator v(opt.strict ? valijson::Validator::kStrongTypes : valijson::Validator::kWeakTypes);
    struct P { Re e; std::string text; int unbounded; };
    std::vector<P> ps;
    int most = 0;
    for (int64_t n = r.range(1, 4); n > 0; n--) {
        P p; g.unbounded = 0; p.e = g.top(); p.text = show(p.e); p.unbounded = g.unbounded; most = std::max(most, p.unbounded);
        try { valijson::DefaultRegexEngine e(p.text); } catch (const std::exception &e) { run.violation("pattern-rejected", "pattern " + p.text + ": " + e.what()); return; }
        ps.push_back(p);
    }
    g.unbounded = most;
    auto check = [&](const J &schema, const J &inst, bool want, const char *what) {
        J back;
        auto nat = lib->native(inst);
        std::string bad = nat->roundTrip(back);
        if (!bad.empty() || !jeq(back, inst)) { run.count("not_held"); return true; }
        CompileResult c = lib->compile(schema, opt);
        if (!c.c) { run.violation("rejected", std::string(lib->name) + ": " + dump(schema) + ": " + c.what); return false; }
        Outcome o = lib->validateWith(&v, c.c->schemaPtr(), inst, r.chance(50));
        run.count("evaluations");
        run.count(want ? "valid" : "invalid");
        run.count(what);
        run.seen("pairs", hashStr(dump(schema)) ^ hashStr(dump(inst)) * 31);
        if (o.threw || o.valid != want) { run.violation(std::string("pattern-") + what, fmt("%s %s: expected %s: ", lib->name, optText(opt).c_str(), tf(want)) + dump(schema) + " " + dump(inst) + ": " + (o.threw ? "threw " + o.what : tf(o.valid))); return false; }
        return true;
    };
    for (int k = 0; k < 6; k++) {
        const P &p = r.pick(ps);
        std::string s = g.subject(p.e);
        if (badUtf8(s)) { run.count("not_text"); continue; }
        bool m = search(p.e, s);
        run.count(m ? "matches" : "no_match");
        run.count("engine");
        if (valijson::DefaultRegexEngine::search(s, valijson::DefaultRegexEngine(p.text)) != m) { run.violation("engine", "pattern " + p.text + " in " + dump(J::str(s)) + ": expected " + (m ? "a match" : "none")); return; }
        J ps1 = J::obj(); ps1.set("pattern", J::str(p.text));
        switch (r.below(opt.draft == 7 ? 4 : 3)) {
        case 0: case 1: if (!check(ps1, J::str(s), m, "value")) return; break;
        case 2: {   // the names a pattern matches, and the others
            J sc = J::obj(), pp = J::obj(), in = J::obj();
            bool typed = r.chance(50);
            J t = J::obj(); t.set("type", J::str("integer"));
            pp.set(p.text, typed ? t : J::obj());
            const P &p2 = r.pick(ps);
            pp.set(p2.text, typed ? t : J::obj());
            sc.set("patternProperties", pp);
            if (!typed) sc.set("additionalProperties", J::boolean(false));
            bool want = true;
            for (int64_t n = r.range(1, 3); n > 0; n--) {
                std::string name = n == 1 ? s : g.subject(p2.e);
                if (badUtf8(name)) continue;
                bool hit = search(p.e, name) || search(p2.e, name);
                J val = typed ? (r.chance(60) ? J::integer(1) : J::str("no")) : J::integer(1);
                in.set(name, val);
                (void)hit;
            }
            for (auto &kv : in.o) { bool hit = search(p.e, kv.first) || search(p2.e, kv.first); want = want && (typed ? !hit || kv.second.t == J::Int : hit); }
            if (typed && !opt.strict) {}
            if (!check(sc, in, want, "patternProperties")) return;
            break;
        }
        default: {
            J sc = J::obj(), in = J::obj();
            sc.set("propertyNames", ps1);
            in.set(s, J());
            if (!check(sc, in, m, "propertyNames")) return;
        }
        }
    }
}

static void one(Run &run, uint64_t idx, Rng &r) {
    if (run.mode == "length") length(run, idx, r);
    else pattern(run, idx, r);
}
int main(int argc, char **argv) { return harnessMain(argc, argv, one); }
