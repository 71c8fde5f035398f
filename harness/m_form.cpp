// C18: which schemas are accepted
#include "sem.hpp"
using namespace vh;

enum Form { Ok, Bad, Either };
static const std::vector<std::string> &keywords(int draft) {
    static const std::vector<std::string> d7 = {"type", "enum", "const", "multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum", "maxLength", "minLength", "pattern", "items", "additionalItems", "maxItems", "minItems",
        "uniqueItems", "contains", "maxProperties", "minProperties", "required", "properties", "patternProperties", "additionalProperties", "dependencies", "propertyNames", "if", "then", "else", "allOf", "anyOf", "oneOf", "not", "format", "title", "description", "$ref"};
    static const std::vector<std::string> d4 = {"type", "enum", "multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum", "maxLength", "minLength", "pattern", "items", "additionalItems", "maxItems", "minItems", "uniqueItems",
        "maxProperties", "minProperties", "required", "properties", "patternProperties", "additionalProperties", "dependencies", "allOf", "anyOf", "oneOf", "not", "format", "title", "description", "$ref"};
    static const std::vector<std::string> d3 = {"type", "enum", "divisibleBy", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum", "maxLength", "minLength", "pattern", "items", "additionalItems", "maxItems", "minItems", "uniqueItems",
        "required", "properties", "patternProperties", "additionalProperties", "dependencies", "extends", "format", "title", "description", "$ref"};
    return draft == 7 ? d7 : draft == 4 ? d4 : d3;
}
static bool empty(const J &v) { return v.t == J::Null || (v.t == J::Str && v.s.empty()) || ((v.t == J::Arr || v.t == J::Obj) && !v.size()); }
static Form worst(Form a, Form b) { return a == Bad || b == Bad ? Bad : a == Either || b == Either ? Either : Ok; }
// What the draft says about the value of a keyword. Either: not judged, because the library's documented
// conversions (numbers written as strings, empty values for each other) may apply, or the drafts leave it open.
static Form schemaForm(int draft, const J &v) {
    if (v.t == J::Obj) {
        if (v.find("$ref") || v.find("id") || v.find("$id")) return Either;
        for (int d : {3, 4, 7}) for (auto &k : keywords(d)) if (v.find(k)) return Either;
        return Ok;
    }
    if (v.t == J::Bool) return draft == 7 ? Ok : Bad;
    if (empty(v)) return Either;
    if (v.t == J::Str && (v.s == "true" || v.s == "false")) return draft == 7 ? Either : Bad;
    return Bad;
}
static Form stringForm(const J &v) { return v.t == J::Str ? Ok : (v.t == J::Arr || v.t == J::Obj) && v.size() ? Bad : Either; }
static Form numberForm(const J &v, double *x) {
    if (v.isNum()) { *x = v.num(); return Ok; }
    char *end;
    if (v.t == J::Str && !v.s.empty() && (isdigit((unsigned char)v.s[0]) || v.s[0] == '-') && (*x = strtod(v.s.c_str(), &end), *end == 0)) return Either;
    return Bad;
}
static Form strings(const J &v) {
    if (empty(v)) return Either;
    if (v.t != J::Arr) return Bad;
    Form f = Ok;
    for (size_t n = 0; n < v.a.size(); n++) { f = worst(f, stringForm(v.a[n])); for (size_t m = 0; m < n; m++) if (jeq(v.a[n], v.a[m])) f = worst(f, Either); }
    return f;
}
static Form schemas(int draft, const J &v) {
    if (empty(v)) return Either;
    if (v.t != J::Arr) return Bad;
    Form f = Ok;
    for (auto &e : v.a) f = worst(f, schemaForm(draft, e));
    return f;
}
static Form boolean(const J &v) { return v.t == J::Bool ? Ok : v.t == J::Str && (v.s == "true" || v.s == "false") ? Either : Bad; }
static Form typeForm(int draft, const J &v, bool inArray) {
    static const std::set<std::string> names = {"null", "boolean", "integer", "number", "string", "array", "object"};
    if (v.t == J::Str && names.count(v.s)) return Ok;
    if (draft == 3) { if (v.t == J::Obj) return schemaForm(3, v); if ((v.t == J::Str && v.s == "any")) return Ok; if (v.t != J::Arr || inArray || !v.size()) return v.t == J::Arr && v.size() ? Bad : Either; }
    if (v.t == J::Arr && !inArray) {
        if (!v.size()) return Either;
        Form f = Ok;
        for (size_t n = 0; n < v.a.size(); n++) { f = worst(f, typeForm(draft, v.a[n], true)); for (size_t m = 0; m < n; m++) if (jeq(v.a[n], v.a[m])) f = worst(f, Either); }
        return f;
    }
    return v.t != J::Str && empty(v) ? Either : Bad;
}
static Form form(int draft, const std::string &k, const J &v) {
    double x = 0;
    if (k == "type") return typeForm(draft, v, false);
    if (k == "enum") { if (empty(v)) return Either; if (v.t != J::Arr) return Bad; for (size_t n = 0; n < v.a.size(); n++) for (size_t m = 0; m < n; m++) if (jeq(v.a[n], v.a[m])) return Either; return Ok; }
    if (k == "const") return Ok;
    if (k == "multipleOf" || k == "divisibleBy") { Form f = numberForm(v, &x); return f != Bad && !(x > 0) ? Bad : f; }
    if (k == "maximum" || k == "minimum" || ((k == "exclusiveMaximum" || k == "exclusiveMinimum") && draft == 7)) return numberForm(v, &x);
    if (k == "exclusiveMaximum" || k == "exclusiveMinimum") return boolean(v);
    if (k.substr(0, 3) == "max" || k.substr(0, 3) == "min") {
        Form f = numberForm(v, &x);
        if (f == Bad || x < 0 || x != std::floor(x)) return Bad;
        if (v.t == J::Dbl && (draft < 7 || x > 9e18)) return Either;
        return f;
    }
    if (k == "pattern" || k == "title" || k == "description") return stringForm(v);
    if (k == "format") return v.t == J::Str && v.s.empty() ? Either : stringForm(v);
    if (k == "items") return v.t == J::Arr && v.size() ? schemas(draft, v) : v.t == J::Arr ? Ok : schemaForm(draft, v);
    if (k == "additionalItems" || k == "additionalProperties") return schemaForm(7, v);
    if (k == "uniqueItems") return boolean(v);
    if (k == "required") return draft == 3 ? boolean(v) : draft == 7 && v.t == J::Arr && !v.size() ? Ok : strings(v);
    if (k == "properties" || k == "patternProperties") {
        if (v.t != J::Obj) return empty(v) ? Either : Bad;
        Form f = Ok;
        for (auto &kv : v.o) f = worst(f, schemaForm(draft, kv.second));
        return f;
    }
    if (k == "dependencies") {
        if (v.t != J::Obj) return empty(v) ? Either : Bad;
        Form f = Ok;
        for (auto &kv : v.o) {
            const J &d = kv.second;
            if (d.t == J::Arr) f = worst(f, draft == 7 && !d.size() ? Ok : strings(d));
            else if (draft == 3 && d.t == J::Str) f = worst(f, d.s.empty() ? Either : Ok);
            else f = worst(f, schemaForm(draft, d));
        }
        return f;
    }
    if (k == "allOf" || k == "anyOf" || k == "oneOf") return schemas(draft, v);
    if (k == "extends") return v.t == J::Arr ? schemas(draft, v) : schemaForm(draft, v);
    if (k == "$ref") return v.t == J::Str ? (v.s == "#/definitions/ok" || v.s == "#" ? Ok : v.s.empty() || v.s == "#/definitions" ? Either : Bad) : Bad;
    return schemaForm(draft, v);     // contains, propertyNames, if, then, else, not
}

static const std::vector<J> &values() {
    static const std::vector<J> v = [] {
        std::vector<J> o;
        for (const char *t : {"null", "true", "false", "0", "-1", "1.5", "1", "2.0", "-0.5", "1e300", "9223372036854775807", "-9223372036854775808", "\"\"", "\"x\"", "\"3\"", "\"-3\"", "\"true\"", "\"string\"", "\"any\"", "\"number\"", "\"Integer\"",
                "\"#/definitions/ok\"", "\"#\"", "\"#/definitions/nowhere\"", "\"#/definitions/ok/0\"", "\"#name\"", "\"http://nowhere.example/x\"", "\"#/definitions\"", "\"other.json#/x\"", "\"#/definitions/number\"", "\"#/definitions/list/2\"", "\"#/definitions/list/-\"", "\"#definitions/ok\"",
                "[]", "[1]", "[\"a\"]", "[null]", "[{}]", "[{},{}]", "[{\"a\":1},{\"b\":2}]", "[\"a\",\"a\"]", "[\"a\",1]", "[\"a\",{\"b\":1}]", "[\"string\",\"null\"]", "[\"string\",\"strin\"]", "[\"string\",7.5]", "[{},5]", "[true,false]", "[{},\"x\"]", "[[1]]",
                "{}", "{\"a\":1}", "{\"a\":{}}", "{\"a\":[\"b\"]}", "{\"a\":[1]}", "{\"a\":\"b\"}", "{\"a\":null}", "{\"a\":true}", "{\"a\":{},\"b\":5}", "{\"b\":[\"c\"],\"a\":[{\"x\":1}]}", "{\"a\":[]}", "{\"a\":{\"b\":1},\"b\":\"x\"}", "{\"x\":7.5}", "{\"a\":[\"b\",\"c\"],\"d\":{}}", "{\"a\":[\"b\",[1]]}"})
            o.push_back(parse(t));
        return o;
    }();
    return v;
}

struct Place {
    int draft;
    Rng &r;
    SchemaGen &g;
    FetchEnv env;
    J defs = J::obj();
    int n = 0;
    J good(bool object = false) { for (;;) { J s = r.chance(50) ? J::obj() : g.schema(1); if ((draft < 7 || object) && s.t != J::Obj) continue; if (s.t == J::Obj && s.find("$ref")) continue; return s; } }
    J list(const J &x) {
        J a = J::arr();
        for (int64_t k = r.below(3); k > 0; k--) a.a.push_back(good());
        a.a.insert(a.a.begin() + (long)r.below(a.a.size() + 1), x);
        return a;
    }
    J map(const J &x) {
        J o = J::obj();
        for (int64_t k = r.below(3); k > 0; k--) o.set(g.name(), good());
        std::string name;
        do name = g.name() + std::to_string(r.below(3)); while (o.find(name));
        o.o.insert(o.o.begin() + (long)r.below(o.o.size() + 1), {name, x});
        return o;
    }
    J ref(const std::string &to) { J o = J::obj(); o.set("$ref", J::str(to)); return o; }
    // a well-formed schema around x (which is at a place that is parsed); `kind` tells where
    J around(const J &x, int kind, std::string &where) {
        J s = good(true);
        auto put = [&](const char *k, J v) { where += std::string("/") + k; s.set(k, std::move(v)); return s; };
        for (const char *k : {"additionalItems", "if", "then", "else", "required"}) s.erase(k);
        switch (kind) {
        case 0: return put("properties", map(x));
        case 1: { J o = J::obj(); static const std::vector<std::string> p = {"^a", "b$", "[0-9]+", ".", "^(foo|bar)$", ""}; o.set(r.pick(p), x); if (r.chance(30)) o.set("zz", good()); return put("patternProperties", o); }
        case 2: return put("additionalProperties", x);
        case 3: return put("items", x);
        case 4: return put("items", list(x));
        case 5: put("items", list(good())); return put("additionalItems", x);
        case 6: { J o = J::obj(); if (r.chance(50)) o.set("q", J::arr({J::str("a")})); o.set("p", x); if (r.chance(50)) o.set("w", J::arr({J::str("a")})); return put("dependencies", o); }
        case 7: if (draft == 3) return put("extends", list(x)); return put("allOf", list(x));
        case 8: if (draft == 3) return put("extends", x); return put("anyOf", list(x));
        case 9: if (draft == 3) { J a = list(x); if (r.chance(50)) a.a.insert(a.a.begin(), J::str("null")); return put("type", a); } return put("oneOf", list(x));
        case 10: if (draft == 3) return put("type", x); return put("not", x);
        case 11: { std::string k = "x" + std::to_string(n++); defs.set(k, x); where += "/$ref"; return ref("#/definitions/" + k); }
        case 12: {
            std::string u = "http://h.example/" + std::to_string(n++) + ".json";
            where += "/remote";
            if (r.chance(50)) { env.docs[u] = x; return ref(u); }
            J d = J::obj(); J ds = J::obj(); ds.set("y", x); ds.set("ok", J::obj()); d.set("definitions", ds);
            env.docs[u] = d;
            return ref(u + "#/definitions/y");
        }
        case 13: put("if", x); if (r.chance(50)) s.set("then", good()); return s;
        case 14: s.set("if", good()); return put("then", x);
        case 15: s.set("if", good()); return put("else", x);
        case 16: return put("contains", x);
        default: return put("propertyNames", x);
        }
    }
    static int kinds(int draft) { return draft == 7 ? 18 : 13; }
};

// expected == Ok: accepted; Bad: a runtime_error
static bool judge(Run &run, Lib *lib, int draft, const J &doc, Place &p, Form expected, const std::string &what) {
    Opt opt; opt.draft = draft;
    FetchEnv env = p.env;
    CompileResult c = lib->compile(doc, opt, env.docs.empty() && p.r.chance(50) ? nullptr : &env);
    run.count("evaluations");
    run.count(expected == Ok ? "well_formed" : "malformed");
    run.seen("documents", hashStr(dump(doc)) + (uint64_t)draft);
    auto text = [&]() { std::string s = fmt("%s draft%d %s: ", lib->name, draft, what.c_str()) + dump(doc); for (auto &d : p.env.docs) s += " | " + d.first + " = " + dump(d.second); return s; };
    if (expected == Ok && !c.c) { run.violation("rejected", text() + ": rejected: " + c.kind + " " + c.what); return false; }
    if (expected == Bad && c.c) { run.violation("accepted", text() + ": accepted"); return false; }
    if (expected == Bad && c.kind != "runtime_error") { run.violation("kind", text() + ": " + c.kind + " instead of std::runtime_error: " + c.what); return false; }
    if (!env.live.empty() || env.badFrees) { run.violation("documents", text() + ": fetched documents are left behind or freed twice"); return false; }
    return true;
}
static J withDefs(J doc, Place &p) {
    if (doc.t != J::Obj || doc.find("$ref")) { J d = J::obj(); d.set("properties", J::obj()); d.find("properties")->set("root", doc); doc = d; }
    J defs = p.defs;
    defs.set("ok", J::obj());
    defs.set("number", J::integer(5));
    defs.set("list", J::arr({J::obj(), J::obj()}));
    doc.set("definitions", defs);
    return doc;
}

// every keyword of every draft, with every value above (and random ones), in every kind of place
static void forms(Run &run, uint64_t idx, Rng &r) {
    static const std::vector<int> drafts = {7, 4, 3};
    int draft = drafts[idx % 3];
    uint64_t q = idx / 3;
    const auto &kws = keywords(draft);
    const std::string k = kws[q % kws.size()];
    q /= kws.size();
    const auto &vals = values();
    GenCfg cfg; cfg.draft = draft; cfg.integralDbl = false;
    SchemaGen g(cfg, r);
    J v = q < 2 * vals.size() ? vals[q % vals.size()] : g.value(2);
    if (q >= 2 * vals.size() && r.chance(15)) { static const std::vector<const char *> some = {"[\"x\",\"y\"]", "{\"k\":[\"l\",\"m\"]}", "[{\"type\":\"null\"}]", "{\"k\":{\"type\":\"null\"}}", "7", "0.25"}; v = parse(r.pick(some)); }
    Form f = form(draft, k, v);
    run.count(f == Ok ? "ok_forms" : f == Bad ? "bad_forms" : "either");
    if (f == Either) return;
    Place p{draft, r, g, {}, J::obj()};
    // the schema with the keyword, among others
    J s = k == "$ref" || r.chance(40) ? J::obj() : p.good(true);
    for (const char *x : {"additionalItems", "if", "then", "else", "required"}) if (r.chance(80) || !strcmp(x, "required")) s.erase(x);
    if (k == "additionalItems") { s.set("items", p.list(p.good())); }
    if (k == "then" || k == "else") s.set("if", p.good());
    if (draft < 7 && k == "exclusiveMaximum") s.set("maximum", J::integer(3));
    if (draft < 7 && k == "exclusiveMinimum") s.set("minimum", J::integer(3));
    if (draft < 7 && (k == "maximum" || k == "minimum")) s.erase(k == "maximum" ? "exclusiveMaximum" : "exclusiveMinimum");
    s.erase(k);
    s.o.insert(s.o.begin() + (long)r.below(s.o.size() + 1), {k, v});
    // (what else in a schema 'items' that is no array makes of additionalItems is not judged)
    if (k == "items" && v.t != J::Arr) s.erase("additionalItems");
    bool siblings = k == "$ref" && r.chance(40);
    if (siblings) s.set("description", J::str("d"));
    std::string where;
    J doc = s;
    // 'required' of draft 3 belongs to a member of 'properties'
    if (draft == 3 && k == "required") doc = p.around(doc, 0, where);
    bool local = false;      // (a '#/definitions/...' inside must stay in the document with the definitions)
    for (int d = (int)r.range(k == "$ref" ? 1 : 0, run.thorough ? 4 : 3); d > 0; d--) {
        int kind;
        do kind = (int)r.below((uint64_t)Place::kinds(draft)); while (kind == 12 && (local || k == "$ref"));
        local = local || kind == 11;
        doc = p.around(doc, kind, where);
    }
    // references mean a place in the document they stand in
    if (k == "$ref" && !p.env.docs.empty()) return;
    doc = withDefs(doc, p);
    if (k == "$ref" && f == Ok && v.s == "#" ) { /* a cycle that consumes nothing is still a well-formed schema */ }
    run.seen("forms", hashStr(k + "/" + dump(v)) + (uint64_t)draft);
    run.seen("places", hashStr(where));
    Lib *lib = r.pick(typedLibs());
    while (v.t == J::Int && std::abs((double)v.i) > 9e15 && !strcmp(lib->name, "json11")) lib = r.pick(typedLibs());
    judge(run, lib, draft, doc, p, f, "'" + k + "' " + dump(v) + " at " + where);
}

// references that lead nowhere, or round in circles
static void references(Run &run, uint64_t, Rng &r) {
    static const std::vector<int> drafts = {7, 4, 3};
    int draft = r.pick(drafts);
    GenCfg cfg; cfg.draft = draft; cfg.integralDbl = false;
    SchemaGen g(cfg, r);
    Place p{draft, r, g, {}, J::obj()};
    const char *id = draft == 7 ? "$id" : "id";
    std::string where;
    Form want = Bad;
    J s;
    auto wrap = [&](J x, int lo) { for (int d = (int)r.range(lo, 3); d > 0; d--) { int k; do k = (int)r.below((uint64_t)Place::kinds(draft)); while (k == 12); x = p.around(x, k, where); } return x; };
    std::string what;
    switch (r.below(6)) {
    case 0: {     // a cycle of n references in one document
        int n = (int)r.range(1, 6);
        bool closed = r.chance(70);      // or a chain that ends
        for (int k = 0; k < n; k++) p.defs.set("c" + std::to_string(k), p.ref(closed || k + 1 < n ? "#/definitions/c" + std::to_string((k + 1) % n) : "#/definitions/ok"));
        what = fmt("%s of %d references", closed ? "cycle" : "chain", n);
        want = closed ? Bad : Ok;
        s = wrap(p.ref("#/definitions/c" + std::to_string(r.below((uint64_t)n))), 1);
        break;
    }
    case 1: {     // a cycle over several documents
        int n = (int)r.range(1, 4);
        bool closed = r.chance(70);
        for (int k = 0; k < n; k++) {
            J d;
            std::string next = closed || k + 1 < n ? "http://h.example/c" + std::to_string((k + 1) % n) : "http://h.example/end";
            if (r.chance(50)) d = p.ref(next + (r.chance(30) ? "#" : ""));
            else { d = J::obj(); J ds = J::obj(); ds.set("z", p.ref(next)); d.set("definitions", ds); d.set("$ref", J::str("#/definitions/z")); }
            p.env.docs["http://h.example/c" + std::to_string(k)] = d;
        }
        p.env.docs["http://h.example/end"] = p.good(true);
        what = fmt("%s of %d documents", closed ? "cycle" : "chain", n);
        want = closed ? Bad : Ok;
        s = wrap(p.ref("http://h.example/c" + std::to_string(closed ? r.below((uint64_t)n) : 0)), 1);
        break;
    }
    case 2: {     // a remote document that is not there, or not a schema, or lacks the place
        static const std::vector<std::string> to = {"http://h.example/gone", "http://h.example/d#/definitions/gone", "http://h.example/d#/definitions/ok/gone", "http://h.example/five", "http://h.example/text", "http://h.example/d#/definitions/list", "http://h.example/d#gone", "http://h.example/d#/definitions/list/2", "urn:gone:x", "http://h.example/d#/definitions/five"};
        std::string t = r.pick(to);
        p.env.docs["http://h.example/d"] = parse(R"({"definitions":{"ok":{},"list":[{},{}],"five":5}})");
        p.env.docs["http://h.example/five"] = J::integer(5);
        p.env.docs["http://h.example/text"] = J::str("x");
        if (r.chance(30)) { want = Ok; t = r.chance(50) ? "http://h.example/d#/definitions/ok" : "http://h.example/d#/definitions/list/1"; }
        what = "reference to " + t;
        s = wrap(p.ref(t), 0);
        break;
    }
    case 3: {     // remote references without callbacks
        what = "remote reference, fetching not enabled";
        p.env.enabled = false;
        s = wrap(p.ref(r.chance(50) ? "http://h.example/d" : "other.json#/x"), 0);
        if (s.find("$ref") && r.chance(50)) { }
        break;
    }
    case 4: {     // references at the root
        switch (r.below(5)) {
        case 0: s = parse(R"({"$ref":"#"})"); what = "root that refers to itself"; break;
        case 1: s = parse(R"({"$ref":"#/definitions/a","definitions":{"a":{"$ref":"#"}}})"); what = "root that refers to itself by way of another reference"; break;
        case 2: s = parse(R"({"$ref":"#/definitions/gone","definitions":{"a":{}}})"); what = "root that refers to nowhere"; break;
        case 3: s = parse(R"({"$ref":"#/definitions/a","definitions":{"a":{"$ref":"#/definitions/b"},"b":{"type":"string"}}})"); want = Ok; what = "root that refers to a reference"; break;
        default: s = parse(R"({"$ref":"#/definitions/a","definitions":{"a":5}})"); what = "root that refers to a number"; break;
        }
        Lib *lib = r.pick(typedLibs());
        judge(run, lib, draft, s, p, want, what);
        run.count("references");
        return;
    }
    default: {    // an identifier that is there, or not
        J x = p.good(true);
        x.set(id, J::str("#here"));
        p.defs.set("named", x);
        bool there = r.chance(50);
        want = there ? Ok : Bad;
        static const std::vector<std::string> gone = {"#her", "#heree", "#Here", "#here2", "#gone"};
        std::string t = there ? "#here" : r.pick(gone);
        what = "reference to " + t;
        s = wrap(p.ref(t), 1);
    }
    }
    run.count("references");
    judge(run, r.pick(typedLibs()), draft, withDefs(s, p), p, want, what + " at " + where);
}

// whole well-formed schemas with everything that does not matter
static void wellFormed(Run &run, uint64_t, Rng &r) {
    static const std::vector<int> drafts = {7, 4, 3};
    int draft = r.pick(drafts);
    GenCfg cfg; cfg.draft = draft; cfg.oddPct = 40; cfg.maxDepth = 3;
    SchemaGen g(cfg, r);
    J s = g.schema(3);
    if (draft < 7 && s.t != J::Obj) return;
    Place p{draft, r, g, {}, J::obj()};
    // what is not a subschema may contain anything, also what looks like one; what stands beside a $ref is ignored
    static const std::vector<const char *> odd = {"{\"$ref\":5}", "{\"$ref\":\"#/nowhere\"}", "{\"type\":5}", "[{\"minLength\":-1}]", "{\"$ref\":\"#\"}", "null", "{\"properties\":5}"};
    std::function<void(J &, int)> sprinkle = [&](J &x, int depth) {
        if (x.t != J::Obj || depth > 3) return;
        if (r.chance(30)) x.set(r.pick(std::vector<std::string>{"default", "examples", "$comment", "$schema", "definitionz", "x-note", "readOnly", "contentEncoding", "Type", "typ", "minlength"}), parse(r.pick(odd)));
        if (draft == 7 && r.chance(8)) x.set("const", parse(r.pick(odd)));
        if (r.chance(8)) x.set("enum", J::arr({parse(r.pick(odd)), J::str("unlike the others")}));
        if (r.chance(8)) x.set("title", J::str(g.str()));
        if (r.chance(8)) x.set("format", J::str(r.pick(std::vector<std::string>{"email", "date", "no-such-format", "uri", "regex"})));
        if (J *ps = x.find("properties")) for (auto &kv : ps->o) sprinkle(kv.second, depth + 1);
        if (J *ps = x.find("items")) if (ps->t == J::Obj) sprinkle(*ps, depth + 1);
    };
    sprinkle(s, 0);
    std::string where;
    if (r.chance(30)) {
        J x = p.ref("#/definitions/ok");
        static const std::vector<std::pair<const char *, const char *>> ignored = {{"minLength", "-1"}, {"type", "5"}, {"properties", "{\"a\":1}"}, {"enum", "5"}, {"allOf", "1"}, {"required", "5"}};
        for (int64_t n = r.range(1, 2); n > 0; n--) { auto &q = r.pick(ignored); x.set(q.first, parse(q.second)); }
        s = p.around(x, (int)r.below(11), where);
        run.count("beside_ref");
    } else if (r.chance(50)) s = p.around(s, (int)r.below((uint64_t)Place::kinds(draft)), where);
    if (draft == 7 && r.chance(5)) s = J::boolean(r.chance(50)); else s = withDefs(s, p);
    if (s.t == J::Obj && r.chance(20)) s.set(draft == 7 ? "$id" : "id", J::str(r.pick(std::vector<std::string>{"http://h.example/self.json", "urn:x:self", "http://h.example/self.json#"})));
    judge(run, r.pick(typedLibs()), draft, s, p, Ok, "well-formed");
}

// known finding: issue 200 (tests/test_json_pointer.cpp expects the crash)
static void rootCycle(Run &run, uint64_t, Rng &r) {
    GenCfg cfg; SchemaGen g(cfg, r);
    Place p{7, r, g, {}, J::obj()};
    judge(run, libRapidJson(), 7, parse(R"({"$ref":"#/foo","foo":{"$ref":"#/bar"},"bar":{"$ref":"#/foo"}})"), p, Bad, "cycle entered from the root");
}

static void one(Run &run, uint64_t idx, Rng &r) {
    if (run.mode == "forms") forms(run, idx, r);
    else if (run.mode == "references") references(run, idx, r);
    else if (run.mode == "rootcycle") rootCycle(run, idx, r);
    else wellFormed(run, idx, r);
}
int main(int argc, char **argv) { return harnessMain(argc, argv, one); }
