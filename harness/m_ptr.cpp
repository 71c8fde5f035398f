// C12: JSON Pointers against an evaluator written from RFC 6901
#include "sem.hpp"
using namespace vh;

// RFC 6901 over a percent-encoded fragment; null: no such value. undecided: forms the property does not speak about
static const J *eval(const J &doc, const std::string &ptr, bool &undecided, std::string &why) {
    undecided = false;
    const J *cur = &doc;
    size_t p = 0;
    if (ptr.empty()) return cur;
    if (ptr[0] != '/') { why = "no leading slash"; return nullptr; }
    while (p < ptr.size()) {
        p++;                                     // the slash
        std::string raw;
        while (p < ptr.size() && ptr[p] != '/') raw += ptr[p++];
        std::string t, name;
        for (size_t k = 0; k < raw.size(); k++) {
            if (raw[k] != '%') { t += raw[k]; continue; }
            int v = 0;
            if (k + 2 >= raw.size() + 0 && k + 2 > raw.size() - 1) { why = "percent escape cut short"; return nullptr; }
            for (int n = 1; n <= 2; n++) {
                char c = raw[k + (size_t)n];
                int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
                if (d < 0) { why = "bad percent escape"; return nullptr; }
                v = v * 16 + d;
            }
            if (v == '/') undecided = true;
            t += (char)v;
            k += 2;
        }
        for (size_t k = 0; k < t.size(); k++) {
            if (t[k] != '~') { name += t[k]; continue; }
            if (k + 1 < t.size() && t[k + 1] == '0') { name += '~'; k++; }
            else if (k + 1 < t.size() && t[k + 1] == '1') { name += '/'; k++; }
            else { undecided = true; name += '~'; }
        }
        if (cur->t == J::Obj) {
            const J *n = nullptr;
            for (auto &kv : cur->o) if (kv.first == name) n = &kv.second;
            if (!n) { why = "missing member"; return nullptr; }
            cur = n;
        } else if (cur->t == J::Arr) {
            if (name.empty()) { why = "empty index"; return nullptr; }
            for (char c : name) if (c < '0' || c > '9') { why = "not an index"; return nullptr; }
            if (name.size() > 1 && name[0] == '0') { why = "leading zero"; return nullptr; }
            if (name.size() > 18) { why = "index out of range"; return nullptr; }
            uint64_t v = 0;
            for (char c : name) v = v * 10 + (uint64_t)(c - '0');
            if (v >= cur->a.size()) { why = "index out of range"; return nullptr; }
            cur = &cur->a[(size_t)v];
        } else { why = "step into a scalar"; return nullptr; }
    }
    return cur;
}

static std::string name(Rng &r) {
    if (r.chance(55)) return r.pick(oddNames());
    if (r.chance(8)) return std::string("a\0b", 3);
    if (r.chance(50)) return r.pick(plainNames());
    static const std::vector<std::string> parts = {"~", "/", "~0", "~1", "%", "%41", "%7e", "%2", "0", "1", "a", "\xE2\x82\xAC", " ", "#", "?", "\"", "+", "{", "|", "^", ".", "..", "%zz", "é"};
    std::string s;
    for (int n = 1 + (int)r.below(4); n > 0; n--) s += r.pick(parts);
    return s;
}
static int64_t unique_ = 0;
static J document(Rng &r, int depth) {
    int64_t k = r.range(0, depth > 0 ? 9 : 3);
    if (k <= 3) switch (r.below(6)) {
        case 0: return J::null();
        case 1: return J::boolean(r.chance(50));
        case 2: return J::str("");
        case 3: return J::str("v" + std::to_string(unique_++));
        case 4: return r.chance(50) ? J::arr() : J::obj();
        default: return J::integer(unique_++);
    }
    if (k <= 6) {
        J o = J::obj();
        for (int n = (int)r.below(6); n > 0; n--) o.set(name(r), document(r, depth - 1));
        return o;
    }
    J a = J::arr();
    int n = r.chance(90) ? (int)r.below(5) : (int)r.range(9, 130);
    for (; n > 0; n--) a.a.push_back(document(r, n > 8 ? 0 : depth - 1));
    return a;
}
static void locations(const J &j, const std::string &at, std::vector<std::string> &out) {
    out.push_back(at);
    for (size_t n = 0; n < j.a.size(); n++) locations(j.a[n], at + "/" + std::to_string(n), out);
    for (auto &kv : j.o) locations(kv.second, at + "/" + ptrEscape(kv.first), out);
}

struct Case {
    Run &run;
    Lib *lib;
    J doc;
    std::unique_ptr<Native> nat;
    std::string text;
    Case(Run &a, Lib *l, J d) : run(a), lib(l), doc(std::move(d)) { load(); }
    void load() { nat = lib->native(doc); text = dump(doc); }
    bool check(const std::string &ptr, const char *kind) {
        bool undecided;
        std::string why, err;
        const J *want = eval(doc, ptr, undecided, why);
        if (undecided) { run.count("undecided"); return true; }
        J got;
        bool ok = nat->pointer(ptr, true, got, err);
        run.count("pointers");
        run.count(want ? "found" : "not_found");
        run.seen("pairs", hashStr(text + " " + ptr));
        if (!want) run.seen("reasons", hashStr(why));
        auto bad = [&](const std::string &key, const std::string &d) {
            run.violation(key, std::string(lib->name) + " pointer <" + ptr + "> (" + kind + ") in " + dump(doc) + ": " + d);
            return false;
        };
        if (want && !ok) return bad("not-found", "should be " + dump(*want) + ", but " + err);
        if (!want && ok) return bad("found", "should throw (" + why + "), but gives " + dump(got));
        if (!want && err.compare(0, 15, "runtime_error: ") != 0) return bad("exception", err);
        if (want && !jeq(*want, got)) return bad("value", "should be " + dump(*want) + ", but gives " + dump(got));
        // the lenient form differs only in skipping empty tokens
        if (ptr.find("//") == std::string::npos && (ptr.empty() || ptr.back() != '/')) {
            J got2; std::string err2;
            bool ok2 = nat->pointer(ptr, false, got2, err2);
            run.count("lenient");
            if (ok2 != ok || (ok && !jeq(got, got2))) return bad("lenient", std::string("the lenient form gives ") + (ok2 ? dump(got2) : err2));
        }
        return true;
    }
};

static void locate(Run &run, uint64_t idx, Rng &r) {
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    Case c{run, lib, document(r, 4)};
    std::vector<std::string> all;
    locations(c.doc, "", all);
    run.count("locations", all.size());
    for (auto &p : all) {
        std::string raw;                       // only what must be encoded: '%' itself
        for (char ch : p) { if (ch == '%') raw += "%25"; else raw += ch; }
        if (!c.check(raw, "location") || !c.check(fragEncode(p, &r), "location, percent-encoded")) return;
        bool u; std::string w;
        if (!eval(c.doc, raw, u, w)) { fprintf(stderr, "oracle: %s\n", raw.c_str()); abort(); }
        if (all.size() > 60 && r.chance(70)) continue;
        // '~' and the digits of escapes percent-encoded too
        std::string enc;
        for (char ch : raw) { if (ch == '~' && r.chance(50)) enc += r.chance(50) ? "%7E" : "%7e"; else if ((ch == '0' || ch == '1') && r.chance(20) && (enc.size() < 2 || enc[enc.size() - 1] != '%')) enc += std::string("%3") + ch; else enc += ch; }
        // (do not split the "%25" put above)
        bool ok = true;
        for (size_t k = 0; k + 2 < enc.size() + 0; k++) if (enc[k] == '%' && !(isxdigit((unsigned char)enc[k + 1]) && isxdigit((unsigned char)enc[k + 2]))) ok = false;
        if (ok && !c.check(enc, "location, escapes percent-encoded")) return;
    }
}

static void near_(Run &run, uint64_t idx, Rng &r) {
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    Case c{run, lib, document(r, 4)};
    while (c.doc.t != J::Arr && c.doc.t != J::Obj) c.doc = document(r, 4);
    c.load();
    std::vector<std::string> all;
    locations(c.doc, "", all);
    static const std::vector<std::string> odd = {"/", "//", "/-", "/01", "/00", "/+0", "/-0", "/-1", "/1e0", "/0x0", "/0 ", "/ 0", "/0.0", "/1", "/0", "/2", "/18446744073709551615", "/18446744073709551616", "/4294967296", "/9223372036854775807",
        "/9223372036854775808", "/%30", "/%3", "/%", "/%zz", "/%0", "/a%", "/%+1", "/% 1", "/%-1", "/%0x", "/%1g", "/%g1", "/%30%31", "/\xD9\xA3", "/~0", "/~1", "/~01", "/~10", "/~00", "/%25", "/%2541", "/a", "a", "0", "#", "#/a", " ", "/%00", "/0%00", "/length", "/99999999999999999999999999", "/%7E0", "/%7e1", "/~%30", "/~%31", "/%7E%30", "/%257E1"};
    for (int k = 0; k < 12; k++) {
        std::string p;
        for (char ch : r.pick(all)) { if (ch == '%') p += "%25"; else p += ch; }
        const char *kind = "near";
        switch (r.below(7)) {
        case 0: case 1: p += r.pick(odd); break;
        case 2: p = r.pick(odd) + p; break;
        case 3: { size_t q = r.below(p.size() + 1); p.insert(q, 1, "/0~1%-+9a"[r.below(9)]); break; }
        case 4: if (!p.empty()) p.erase(r.below(p.size()), 1); break;
        case 5: { size_t q = p.rfind('/'); if (q != std::string::npos) p = p.substr(0, q) + r.pick(odd); break; }
        default: {   // the last index off by one, or padded
            size_t q = p.rfind('/');
            if (q == std::string::npos || q + 1 == p.size() || p.find_first_not_of("0123456789", q + 1) != std::string::npos) continue;
            uint64_t v = strtoull(p.c_str() + q + 1, nullptr, 10);
            p = p.substr(0, q + 1) + (r.chance(30) ? "0" + std::to_string(v) : r.chance(30) ? std::to_string(v) + "0" : r.chance(50) ? std::to_string(v + 1) : r.chance(50) ? std::to_string(v) + std::string(1 + r.below(3), ' ') : std::to_string(v + (1ull << 32)));
        } }
        if (!c.check(p, kind)) return;
    }
}

int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t i, Rng &r) {
        unique_ = 0;
        if (run.mode == "locate") locate(run, i, r);
        else near_(run, i, r);
    });
}
