// C13: resolution of relative references against RFC 3986 section 5.2, classification and splitting of references,
// and the URIs that populateSchema asks the fetch callback for
#include "sem.hpp"
#include <valijson/internal/json_reference.hpp>
#include <valijson/internal/uri.hpp>
using namespace vh;
namespace vu = valijson::internal::uri;
namespace vr = valijson::internal::json_reference;

// ---------------------------------------------------------------- RFC 3986 (independent of the code under test)
struct Uri {
    bool hasScheme = false, hasAuth = false, hasQuery = false, hasFrag = false;
    std::string scheme, auth, path, query, frag;
    std::string text() const {
        std::string s;
        if (hasScheme) s += scheme + ":";
        if (hasAuth) s += "//" + auth;
        s += path;
        if (hasQuery) s += "?" + query;
        if (hasFrag) s += "#" + frag;
        return s;
    }
};
// RFC 3986 appendix B, by hand; a scheme must be one
static Uri split(const std::string &in) {
    Uri u;
    std::string s = in;
    size_t p = s.find('#');
    if (p != std::string::npos) { u.hasFrag = true; u.frag = s.substr(p + 1); s.resize(p); }
    p = s.find('?');
    if (p != std::string::npos) { u.hasQuery = true; u.query = s.substr(p + 1); s.resize(p); }
    p = s.find_first_of(":/");
    if (p != std::string::npos && p > 0 && s[p] == ':' && ((s[0] | 32) >= 'a' && (s[0] | 32) <= 'z')) {
        bool ok = true;
        for (size_t k = 1; k < p; k++) { char c = s[k]; ok = ok && (((c | 32) >= 'a' && (c | 32) <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.'); }
        if (ok) { u.hasScheme = true; u.scheme = s.substr(0, p); s = s.substr(p + 1); }
    }
    if (s.compare(0, 2, "//") == 0) {
        u.hasAuth = true;
        p = s.find('/', 2);
        if (p == std::string::npos) { u.auth = s.substr(2); s.clear(); }
        else { u.auth = s.substr(2, p - 2); s = s.substr(p); }
    }
    u.path = s;
    return u;
}
// 5.2.4, as written there
static std::string removeDots(std::string in) {
    std::string out;
    auto starts = [&](const char *x) { return in.compare(0, strlen(x), x) == 0; };
    while (!in.empty()) {
        if (starts("../")) in.erase(0, 3);
        else if (starts("./")) in.erase(0, 2);
        else if (starts("/./")) in.erase(0, 2);
        else if (in == "/.") in = "/";
        else if (starts("/../")) { in.erase(0, 3); size_t p = out.rfind('/'); out.erase(p == std::string::npos ? 0 : p); }
        else if (in == "/..") { in = "/"; size_t p = out.rfind('/'); out.erase(p == std::string::npos ? 0 : p); }
        else if (in == "." || in == "..") in.clear();
        else { size_t p = in.find('/', 1); out += in.substr(0, p); in.erase(0, p == std::string::npos ? in.size() : p); }
    }
    return out;
}
static std::string resolve(const Uri &b, const Uri &r) {
    Uri t;
    t.hasScheme = b.hasScheme; t.scheme = b.scheme; t.hasAuth = b.hasAuth; t.auth = b.auth;
    t.hasQuery = r.hasQuery; t.query = r.query;
    t.hasFrag = r.hasFrag; t.frag = r.frag;
    if (r.path.empty()) { t.path = b.path; if (!r.hasQuery) { t.hasQuery = b.hasQuery; t.query = b.query; } }
    else if (r.path[0] == '/') t.path = removeDots(r.path);
    else {
        std::string base = b.hasAuth && b.path.empty() ? "/" : b.path.substr(0, b.path.rfind('/') == std::string::npos ? 0 : b.path.rfind('/') + 1);
        t.path = removeDots(base + r.path);
    }
    return t.text();
}

// ---------------------------------------------------------------- generators
static std::string seg(Rng &r) {
    static const std::vector<std::string> s = {"a", "b", "c", "schema.json", "g", "x-1", "d;p", "g;x=1", "...", ".g", "g.", "..g", "g..", "a.b", "%20", "%2E%2e", "%2F", "a,b", "(x)", "~u", "*", "v1", "draft-07", "a=b", "@me", "\xC3\xA9", "$defs", "a:b", "!", "+", "'"};
    return r.pick(s);
}
static std::string query(Rng &r) {
    static const std::vector<std::string> s = {"q", "", "a=b", "v=1&w=2", "x/../y", "/", "?", "a?b", "u=http://e/f", "u=http://e/../f", "../g", "./", "%23", ";"};
    return r.pick(s);
}
static std::string frag(Rng &r) {
    static const std::vector<std::string> s = {"", "s", "/definitions/a", "/a/../b", "/properties/x~1y", "s?t", "a/./b", "/a:b", "http://e/f", "%23", "/", "/a/../b?t", "../x?y", "./?", "a/b?c/../d", "?/../", "/x/./y?z"};
    return r.pick(s);
}
static Uri base(Rng &r, bool file = false) {
    static const std::vector<std::string> schemes = {"http", "https", "HTTP", "ftp", "file", "x-y.z+1", "a", "schema"};
    static const std::vector<std::string> auths = {"a", "example.com", "example.com:8080", "user@host", "u:p@h:1", "[::1]", "[2001:db8::1]:80", "127.0.0.1", "EXAMPLE.com", "h%20"};
    Uri u;
    u.hasScheme = u.hasAuth = true;
    u.scheme = r.pick(schemes);
    u.auth = u.scheme == "file" && r.chance(60) ? "" : r.pick(auths);
    int n = (int)r.below(5);
    for (int k = 0; k < n; k++) u.path += "/" + seg(r);
    if (n && r.chance(30)) u.path += "/";
    if (file && u.path.empty()) u.path = "/";
    if (!u.path.empty()) {          // an authority followed by a query: listed in uri.md
        if (r.chance(30)) { u.hasQuery = true; u.query = query(r); }
        if (r.chance(30)) { u.hasFrag = true; u.frag = frag(r); }
    }
    return u;
}
// a relative reference that is not among the deviations of uri.md
static Uri reference(Rng &r) {
    Uri u;
    int kind = (int)r.below(10);
    if (kind == 0) { u.hasFrag = true; u.frag = frag(r); return u; }
    if (kind == 1) { u.hasQuery = true; u.query = query(r); if (r.chance(40)) { u.hasFrag = true; u.frag = frag(r); } return u; }
    int n = 1 + (int)r.below(5);
    bool abs = r.chance(30);
    for (int k = 0; k < n; k++) {
        std::string s;
        bool last = k == n - 1;
        if (r.chance(45) && !last) s = r.chance(60) ? ".." : ".";
        else do s = seg(r); while (k == 0 && !abs && s.find(':') != std::string::npos);
        u.path += (k || abs ? "/" : "") + s;
    }
    if (r.chance(25)) u.path += "/";
    else if (r.chance(25)) { u.path = ""; for (int k = (int)r.below(4); k >= 0; k--) u.path += r.chance(70) ? "../" : "./"; if (abs) u.path = "/" + u.path; }
    if (r.chance(30)) { u.hasQuery = true; u.query = query(r); }
    if (r.chance(30)) { u.hasFrag = true; u.frag = frag(r); }
    return u;
}
static bool excluded(const Uri &b, const Uri &r) {
    if (r.path.empty() && b.path.empty()) return true;        // "http://a" + "?q": "http://a/?q" (an equivalent URI) is accepted, see stage table
    return r.path.empty() && !r.hasQuery && b.hasQuery;       // the query of the base is lost: uri.md
}

static void fail(Run &run, const std::string &key, const std::string &d) { run.violation(key, d); }

static void resolveMode(Run &run, uint64_t, Rng &r) {
    for (int k = 0; k < 30; k++) {
        Uri b = base(r), ref = reference(r);
        if (excluded(b, ref)) continue;
        std::string bt = b.text(), rt = ref.text(), want = resolve(b, ref), got = vu::resolveRelativeUri(bt, rt);
        run.count("resolutions");
        run.seen("pairs", hashStr(bt + " " + rt));
        if (ref.path.find("..") != std::string::npos) run.count("with_dots");
        if (r.chance(1)) run.sample("resolution", "<" + bt + "> + <" + rt + "> = <" + want + ">");
        if (got != want) { fail(run, "resolve", "<" + rt + "> against <" + bt + ">: expected <" + want + ">, got <" + got + ">"); return; }
        // the result is absolute, and resolving it again changes nothing
        if (!vu::isUriAbsolute(got)) { fail(run, "absolute", "not taken for absolute: <" + got + ">"); return; }
        Uri b2 = base(r);
        if (vu::resolveRelativeUri(b2.text(), got) != got) { fail(run, "rewritten", "<" + got + "> is absolute, but rewritten against <" + b2.text() + ">"); return; }
        // through a relative scope: the same as step by step
        Uri scope = reference(r);
        if (scope.path.empty() || ref.path.empty() || scope.path[0] == '/') continue;
        std::string st = scope.text(), viaScope = vu::resolveRelativeUri(st, rt);
        std::string merged = scope.path.substr(0, scope.path.rfind('/') == std::string::npos ? 0 : scope.path.rfind('/') + 1) + ref.path;
        // a scope that collapses to nothing: pinned by the tests as "/"
        int depth = 0; bool collapsed = false;
        if (ref.path[0] != '/') {
            std::string s; int segs = 0, ups = 0;
            for (char c : merged + "/") {
                if (c != '/') { s += c; continue; }
                if (s == "..") { if (segs) segs--; else ups++; }
                else if (s != "." && !s.empty()) segs++;
                s.clear();
            }
            depth = segs; collapsed = depth == 0;
            (void)ups;
        }
        if (collapsed) continue;
        std::string two = resolve(split(resolve(b, scope)), ref), one = vu::resolveRelativeUri(bt, viaScope);
        run.count("through_scope");
        if (one != two) { fail(run, "scope", "<" + rt + "> in the scope <" + st + "> in <" + bt + ">: expected <" + two + ">, got <" + one + "> (by way of <" + viaScope + ">)"); return; }
    }
}

static void classify(Run &run, uint64_t idx, Rng &r) {
    (void)idx;
    auto absolute = [&](const std::string &s, bool want) {
        run.count("classified");
        run.seen("texts", hashStr(s));
        if (vu::isUriAbsolute(s) != want) { fail(run, want ? "absolute" : "not-absolute", "<" + s + (want ? "> is absolute, but not taken for it" : "> is not absolute, but taken for it")); return false; }
        Uri b = base(r);
        if (want && vu::resolveRelativeUri(b.text(), s) != s) { fail(run, "rewritten", "<" + s + "> rewritten against <" + b.text() + ">: <" + vu::resolveRelativeUri(b.text(), s) + ">"); return false; }
        return true;
    };
    for (int k = 0; k < 20; k++) {
        if (!absolute(base(r).text(), true)) return;
        Uri abs = base(r); abs.path += r.chance(30) ? "/../x" : r.chance(30) ? "/./" : "";
        if (!absolute(abs.text(), true)) return;
        if (!absolute(reference(r).text(), false)) return;
        static const std::vector<std::string> no = {"", "://", "://a/b", "1http://a", "-x://a", "+://", "ht tp://a/", "a/b://c", "x?u=http://a/", "#http://a/", "/x://y", "./http://a", "?http://a", "h\xC3\xA9://a", ":", "http:", "http:/", "http", "a_b://c", "urn", "//a/b"};
        if (!absolute(r.pick(no), false)) return;
        // URNs are never rewritten
        static const std::vector<std::string> nid = {"isbn", "ietf", "oid", "uuid", "example", "a1", "x-y", "1a", "ISBN", "abcdefghijklmnopqrstuvwxyz012345"};
        static const std::vector<std::string> nss = {"a", "0-486-27557-4", "rfc:2648", "1.2.3", "a:b:c", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "a/b/c", "a%2Fb", "(x)", "a,b;c=d", "*", "x:y/z", "!'"};
        std::string urn = std::string(r.chance(70) ? "urn" : "URN") + ":" + r.pick(nid) + ":" + r.pick(nss);
        if (r.chance(20)) urn += r.chance(50) ? "?+res" : "?=q=1";
        if (r.chance(30)) urn += r.chance(50) ? "#frag" : "#/definitions/a";
        run.count("urns");
        run.seen("texts", hashStr(urn));
        Uri b = base(r);
        if (!vu::isUrn(urn)) { fail(run, "urn", "not taken for a URN: <" + urn + ">"); return; }
        if (vu::resolveRelativeUri(b.text(), urn) != urn) { fail(run, "urn-rewritten", "<" + urn + "> rewritten to <" + vu::resolveRelativeUri(b.text(), urn) + ">"); return; }
        Uri rel = reference(r);
        for (const std::string &s : {rel.text(), b.text(), std::string("urn"), std::string("urn:"), std::string("urn:isbn"), std::string("urn:isbn:"), std::string("urns:isbn:1"), std::string("a/urn:isbn:1"), std::string("urn:x y:1"), std::string("#urn:isbn:1")})
            if (vu::isUrn(s)) { fail(run, "not-urn", "taken for a URN: <" + s + ">"); return; }
        // a reference splits at its first '#'
        std::string doc = r.chance(20) ? "" : r.chance(50) ? base(r).text() : reference(r).text(), text = doc;
        if (r.chance(70)) text += "#" + frag(r);
        if (r.chance(20)) text += "#" + frag(r);
        size_t p = 0;
        while (p < text.size() && text[p] != '#') p++;
        auto u = vr::getJsonReferenceUri(text);
        auto f = vr::getJsonReferencePointer(text);
        bool hasU = !(p == 0 && p < text.size()), hasF = p < text.size();
        run.count("splits");
        if (u.has_value() != hasU || (u && *u != text.substr(0, p))) { fail(run, "split-uri", "document of <" + text + ">: " + (u ? "<" + *u + ">" : "none")); return; }
        if (f.has_value() != hasF || (f && *f != text.substr(p + 1))) { fail(run, "split-pointer", "fragment of <" + text + ">: " + (f ? "<" + *f + ">" : "none")); return; }
    }
}

// The URIs requested by populateSchema, with identifiers at the root and on the way
static void fetchMode(Run &run, uint64_t idx, Rng &r) {
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    Opt opt;
    opt.draft = r.chance(60) ? 7 : r.chance(60) ? 4 : 3;
    const char *id = opt.draft == 7 ? "$id" : "id";
    // base: the identifier of the root (absolute), then relative or absolute identifiers of enclosing subschemas
    Uri root = base(r, true);
    root.hasFrag = false;
    J schema = J::obj();
    schema.set(id, J::str(root.text()));
    Uri scope = root;
    struct Level { std::string name, id; };
    std::vector<Level> levels;
    for (int n = (int)r.below(3); n > 0; n--) {
        Level l{"p" + std::to_string(n), ""};
        if (r.chance(70)) {
            Uri rel = r.chance(20) ? base(r, true) : reference(r);
            rel.hasFrag = false;
            if (!rel.hasScheme && (rel.path.empty())) { rel.path = "x"; }
            l.id = rel.text();
            scope = rel.hasScheme ? rel : split(resolve(scope, rel));
        }
        levels.push_back(l);
    }
    std::set<std::string> ids = {root.text()};
    Uri target = r.chance(15) ? base(r, true) : reference(r);
    bool urn = r.chance(10);
    static const std::vector<std::string> urns = {"urn:example:a", "urn:isbn:0-486-27557-4", "urn:oid:1.2.3"};
    static const std::vector<std::string> frags = {"", "/definitions/a", "/properties/x"};
    target.hasFrag = r.chance(50);
    target.frag = r.pick(frags);
    if (target.path.empty() && !target.hasScheme) target.path = "y";
    std::string ref = urn ? r.pick(urns) + (target.hasFrag ? "#" + target.frag : "") : target.text();
    std::string want;
    if (urn) want = ref.substr(0, ref.find('#'));
    else if (target.hasScheme) { Uri t = target; t.hasFrag = false; want = t.text(); }
    else { Uri t = target; t.hasFrag = false; want = resolve(scope, t); }
    {   // a reference that names an enclosing schema is not fetched
        Uri s = root;
        if (want == s.text()) return;
        for (auto &l : levels) if (!l.id.empty()) { Uri x = split(l.id); s = x.hasScheme ? x : split(resolve(s, x)); if (want == s.text()) return; }
    }
    J inner = J::obj();
    inner.set("$ref", J::str(ref));
    for (size_t n = levels.size(); n-- > 0;) {
        J props = J::obj(), o = J::obj();
        props.set(levels[n].name + "x", inner);
        if (!levels[n].id.empty()) o.set(id, J::str(levels[n].id));
        o.set("properties", props);
        inner = o;
    }
    J props = J::obj();
    props.set("v", inner);
    schema.set("properties", props);
    J type = J::obj(); type.set("type", J::str("integer"));
    J doc = parse(R"({"type":"object","definitions":{"a":{"type":"integer"}},"properties":{"x":{"type":"integer"}}})");
    bool toRoot = !target.hasFrag || target.frag.empty();
    FetchEnv e;
    e.docs[want] = doc;
    CompileResult cr = lib->compile(schema, opt, &e);
    run.count("fetch_cases");
    run.seen("pairs", hashStr(dump(schema)));
    auto bad = [&](const std::string &key, const std::string &d) {
        std::string f;
        for (auto &x : e.fetched) f += " <" + x + ">";
        run.violation(key, std::string(lib->name) + " " + optText(opt) + " schema " + dump(schema) + ": " + d + "; expected a fetch of <" + want + ">, fetched:" + f);
    };
    if (e.fetched != std::vector<std::string>{want}) { bad("fetched", "other document fetched"); return; }
    if (!cr.c) { bad("populate", "populateSchema: " + cr.what); return; }
    for (int k = 0; k < 2; k++) {
        J v = k ? J::str("s") : toRoot ? J::obj() : J::integer(1);
        for (size_t n = levels.size(); n-- > 0;) { J o = J::obj(); o.set(levels[n].name + "x", v); v = o; }
        J inst = J::obj(); inst.set("v", v);
        Outcome o = cr.c->validate(inst, opt, r.chance(50));
        run.count("evaluations");
        if (o.threw || o.valid != !k) { bad("verdict", "instance " + dump(inst) + (o.threw ? " threw " + o.what : o.valid ? " accepted" : " rejected")); return; }
    }
    if (e.badFrees || !e.live.empty()) bad("ledger", "documents not freed exactly once");
}

// The table of uri.md: the result of RFC 3986, or the one stated there
static void table(Run &run, uint64_t idx, Rng &) {
    static const char *t[][3] = {
        {"http://a/b/c/d;p?q", "g:h", "http://a/b/c/g:h"}, {"http://a/b/c/d;p?q", "//g", "http://a/g"}, {"http://a/b/c/d;p?q", "#s", "http://a/b/c/d;p#s"},
        {"http://a/b/c/d;p?q", ".", "http://a/b/c"}, {"http://a/b/c/d;p?q", "..", "http://a/b"}, {"http://a/b/c/d;p?q", "./g/.", "http://a/b/c/g"},
        {"http://a/b/c/d;p?q", "g//h", "http://a/b/c/g/h"}, {"http://a/b/c/d;p?q#old", "", "http://a/b/c/d;p?q#old"},
        {"http://example.com?version=1", "schema.json", "http://example.com?version=1/schema.json"},
        {"http://a/b/c/d;p?q", "mailto:user@example.com", "http://a/b/c/mailto:user@example.com"}, {"urn:example:a", "b", "b"},
        {"http://a/b/c/d;p?q", "../..", "http://a/"}, {"http://a/b/c/d;p?q", "../../", "http://a/"}, {"http://a/b/c/d;p?q", "/./g", "http://a/g"},
        {"http://a/b/c/d;p?q", "/../g", "http://a/g"}, {"http://a/b/c/d;p?q", "g;x=1/../y", "http://a/b/c/y"}, {"http://a/b/c/d;p?q", "g?y/../x", "http://a/b/c/g?y/../x"},
        {"http://a/b/c/d;p?q", "g#s/../x", "http://a/b/c/g#s/../x"}, {"http://a", "b", "http://a/b"}, {"http://a", "#x", "http://a/#x"}, {"http://a", "?x", "http://a/?x"},
    };
    if (idx >= sizeof t / sizeof *t) return;
    std::string b = t[idx][0], ref = t[idx][1], got = vu::resolveRelativeUri(b, ref), rfc = ref.compare(0, 7, "mailto:") == 0 ? ref : resolve(split(b), split(ref));
    if (split(ref).hasScheme) rfc = ref;
    run.count("rows");
    if (got != t[idx][2] && got != rfc) fail(run, "table", "<" + ref + "> against <" + b + ">: <" + got + ">, neither <" + rfc + "> nor <" + t[idx][2] + ">");
}

int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t i, Rng &r) {
        if (run.mode == "resolve") resolveMode(run, i, r);
        else if (run.mode == "classify") classify(run, i, r);
        else if (run.mode == "fetch") fetchMode(run, i, r);
        else table(run, i, r);
    });
}
