// Generators: schemas (internal form, see ref.hpp), instances guided by a schema, and rendering
// of internal form into schema documents.
#pragma once
#include "ref.hpp"

namespace vh {

inline const std::vector<std::string> &plainNames() {
    static const std::vector<std::string> v = {"a", "b", "foo", "bar", "c1", "x"};
    return v;
}
// names that need escaping somewhere, or that look like something else
inline const std::vector<std::string> &oddNames() {
    static const std::vector<std::string> v = {
        "", "a/b", "a~b", "~0", "~1", "~01", "a%2Fb", "%25", "a b", "\xC3\xA9", "0", "1", "-1", "#", "$ref", "$id", "id", "type",
        "properties", "items", "definitions", "/", "//", "a\"b", "a\\b", "\xF0\x9F\x98\x80", "a.b", "?q", "a#b", "%7E1", "00", "-",
        "additionalProperties", "enum", "not", "patternProperties", "a/", "/a", "~", "%", std::string("a\0b", 3), std::string("a\0c", 3), std::string("\0", 1)};
    return v;
}

struct GenCfg {
    int draft = 7;
    int maxDepth = 3;
    int refPct = 0;            // probability of a $ref where a subschema may stand
    int oddPct = 15;           // probability of odd names
    bool boolSchemas = true;
    bool integralDbl = true;   // numbers such as 1.0
    bool noRefNames = false;   // never use names that read as keywords (in name positions)
    bool keywordNames = true;
    int64_t nextLabel = 1;
};

struct SchemaGen {
    GenCfg cfg;
    Rng &r;
    // references: labels that may be used; rank[label]
    std::vector<std::pair<int64_t, int>> targets;     // label, rank
    int curRank = 0;
    int consumed = 0;     // >0: below a keyword that consumes a level of the instance
    bool inNot = false;

    SchemaGen(GenCfg c, Rng &rng) : cfg(c), r(rng) {}

    std::string name() {
        if (r.chance(cfg.oddPct)) {
            for (;;) {
                const std::string &n = r.pick(oddNames());
                if (!cfg.keywordNames && (n == "$ref" || n == "$id" || n == "id")) continue;
                return n;
            }
        }
        return r.pick(plainNames());
    }
    J number() {
        switch (r.below(cfg.integralDbl ? 8 : 7)) {
        case 0: case 1: case 2: case 3: return J::integer(r.range(-3, 7));
        case 4: return J::dbl((double)r.range(-12, 28) / 4 + 0.125);
        case 5: return J::dbl((double)r.range(-7, 13) + 0.5);
        case 6: { static const std::vector<int64_t> v = {0, 1, -1, 100, 1000000, 2147483647, 2147483648LL, -2147483648LL, 4294967296LL, 1LL << 52, -(1LL << 52)}; return J::integer(r.pick(v)); }
        default: return J::dbl((double)r.range(-3, 7));
        }
    }
    J posNumber() {
        static const std::vector<J> v = {J::integer(1), J::integer(2), J::integer(3), J::integer(5), J::dbl(0.5), J::dbl(1.5), J::dbl(0.25), J::integer(10), J::dbl(2.0)};
        for (;;) { const J &j = r.pick(v); if (!cfg.integralDbl && j.t == J::Dbl && j.d == 2.0) continue; return j; }
    }
    std::string str() {
        static const std::vector<std::string> v = {"", "a", "b", "ab", "foo", "bar", "foob", "a1", "12", "x-y", "\xC3\xA9", "a\xF0\x9F\x98\x80" "b",
            "hello world", "true", "null", "1", "1.5", "a/b", "fo", "f", "e\xCC\x81", "aaaaaaaa", "-3", "{}", "[]"};
        return r.pick(v);
    }
    J scalar() {
        switch (r.below(9)) {
        case 0: return J();
        case 1: return J::boolean(r.chance(50));
        case 2: case 3: case 4: case 5: return number();
        default: return J::str(str());
        }
    }
    J value(int depth) {
        uint64_t k = r.below(10);
        if (depth <= 0 || k < 5) return scalar();
        if (k < 8) { J j = J::obj(); for (uint64_t n = r.below(4); n > 0; n--) j.set(name(), value(depth - 1)); return j; }
        J j = J::arr(); for (uint64_t n = r.below(4); n > 0; n--) j.a.push_back(value(depth - 1)); return j;
    }
    // values that are equal or nearly equal to each other, for enum / uniqueItems
    std::string typeName() {
        static const std::vector<std::string> v = {"null", "boolean", "integer", "number", "string", "array", "object"};
        return r.pick(v);
    }
    J sizeBound() {
        if (cfg.integralDbl && r.chance(10)) return J::integer(r.range(0, 3));
        return J::integer(r.range(0, 4));
    }
    J names(int lo, int hi) {
        J j = J::arr();
        for (int64_t n = r.range(lo, hi); n > 0; n--) {
            std::string s = name();
            bool dup = false;
            for (auto &e : j.a) if (e.s == s) dup = true;
            if (!dup) j.a.push_back(J::str(s));
        }
        return j;
    }
    J sub(int depth, bool consumes) {
        if (consumes) consumed++;
        J j = schema(depth);
        if (consumes) consumed--;
        return j;
    }
    J list(int depth, int lo, int hi, bool consumes) {
        J j = J::arr();
        for (int64_t n = r.range(lo, hi); n > 0; n--) j.a.push_back(sub(depth, consumes));
        return j;
    }
    bool pickRef(J &out) {
        std::vector<int64_t> ok;
        for (auto &t : targets) if (consumed > 0 || t.second > curRank) ok.push_back(t.first);
        if (ok.empty()) return false;
        out = J::obj();
        out.set("$ref", J::integer(r.pick(ok)));
        return true;
    }
    std::string pattern() { const Pat &p = r.pick(patterns()); return p.re; }

    J schema(int depth) {
        if (cfg.refPct && r.chance(cfg.refPct)) { J j; if (pickRef(j)) return j; }
        if (cfg.draft >= 7 && cfg.boolSchemas && r.chance(depth <= 0 ? 15 : 7)) return J::boolean(r.chance(65));
        J s = J::obj();
        if (r.chance(4)) return s;
        int n = (int)r.range(1, depth <= 0 ? 2 : 4);
        for (int k = 0; k < n; k++) keyword(s, depth);
        return s;
    }
    void keyword(J &s, int depth) {
        bool deep = depth > 0;
        uint64_t pickMax = deep ? 34 : 15;
        uint64_t k = r.below(pickMax);
        int d = cfg.draft;
        switch (k) {
        case 0: case 1: {
            if (d == 3 && deep && r.chance(25)) {
                J t = J::arr();
                for (int64_t n = r.range(1, 3); n > 0; n--) t.a.push_back(r.chance(50) ? J::str(typeName()) : typeSub(depth - 1));
                s.set("type", t);
            } else if (d == 3 && r.chance(10)) s.set("type", J::str("any"));
            else if (r.chance(60)) s.set("type", J::str(typeName()));
            else {
                J t = J::arr();
                for (int64_t n = r.range(1, 3); n > 0; n--) { std::string x = typeName(); bool dup = false; for (auto &e : t.a) if (e.s == x) dup = true; if (!dup) t.a.push_back(J::str(x)); }
                s.set("type", t);
            }
            break; }
        case 2: { J e = J::arr(); for (int64_t n = r.range(1, 4); n > 0; n--) { J v = value(2); bool dup = false; for (auto &x : e.a) if (jeq(x, v)) dup = true; if (!dup) e.a.push_back(v); } s.set("enum", e); break; }
        case 3: if (d >= 7) s.set("const", value(2)); break;
        case 4: s.set("minimum", number()); if (d < 7 && r.chance(50)) s.set("exclusiveMinimum", J::boolean(r.chance(60))); break;
        case 5: s.set("maximum", number()); if (d < 7 && r.chance(50)) s.set("exclusiveMaximum", J::boolean(r.chance(60))); break;
        case 6: if (d >= 7) s.set("exclusiveMinimum", number()); break;
        case 7: if (d >= 7) s.set("exclusiveMaximum", number()); break;
        case 8: s.set(d == 3 ? "divisibleBy" : "multipleOf", posNumber()); break;
        case 9: s.set(r.chance(50) ? "minLength" : "maxLength", sizeBound()); break;
        case 10: s.set("pattern", J::str(pattern())); break;
        case 11: s.set(r.chance(50) ? "minItems" : "maxItems", sizeBound()); break;
        case 12: s.set("uniqueItems", J::boolean(r.chance(85))); break;
        case 13: if (d >= 4) s.set(r.chance(50) ? "minProperties" : "maxProperties", sizeBound()); break;
        case 14:
            if (d >= 4) { J rq = names(d >= 7 ? 0 : 1, 2); if (d == 4 && rq.a.empty()) rq.a.push_back(J::str("a")); s.set("required", rq); }
            break;
        case 15: case 16: case 17: case 18: case 19: {
            J p = J::obj();
            for (int64_t n = r.range(1, 3); n > 0; n--) {
                std::string nm = name();
                J x = sub(depth - 1, true);
                if (d == 3 && x.t == J::Obj && !x.find("$ref") && r.chance(30)) x.set("required", J::boolean(r.chance(80)));
                p.set(nm, x);
            }
            s.set("properties", p);
            break; }
        case 20: { J p = J::obj(); for (int64_t n = r.range(1, 2); n > 0; n--) p.set(pattern(), sub(depth - 1, true)); s.set("patternProperties", p); break; }
        case 21: case 22: s.set("additionalProperties", r.chance(45) ? J::boolean(r.chance(25)) : sub(depth - 1, true)); break;
        case 23: case 24: s.set("items", sub(depth - 1, true)); break;
        case 25: {
            s.set("items", list(depth - 1, 1, 3, true));
            if (r.chance(60)) s.set("additionalItems", r.chance(40) ? J::boolean(r.chance(30)) : sub(depth - 1, true));
            break; }
        case 26: if (d >= 7) s.set("contains", sub(depth - 1, true)); break;
        case 27: if (d >= 7) s.set("propertyNames", sub(0, true)); break;
        case 28: {
            J dp = J::obj();
            for (int64_t n = r.range(1, 2); n > 0; n--) {
                std::string nm = name();
                if (d == 3 && r.chance(40)) dp.set(nm, J::str(name()));
                else if (r.chance(50)) { J l = names(d >= 7 ? 0 : 1, 2); dp.set(nm, l); }
                else dp.set(nm, sub(depth - 1, false));
            }
            s.set("dependencies", dp);
            break; }
        case 29: if (d >= 4) s.set("allOf", list(depth - 1, 1, 3, false)); else s.set("extends", r.chance(50) ? sub(depth - 1, false) : list(depth - 1, 1, 2, false)); break;
        case 30: if (d >= 4) s.set("anyOf", list(depth - 1, 1, 3, false)); break;
        case 31: if (d >= 4) s.set("oneOf", list(depth - 1, 1, 3, false)); break;
        case 32: if (d >= 4) s.set("not", sub(depth - 1, false)); break;
        case 33:
            if (d >= 7) {
                s.set("if", sub(depth - 1, false));
                if (r.chance(75)) s.set("then", sub(depth - 1, false));
                if (r.chance(75)) s.set("else", sub(depth - 1, false));
            }
            break;
        }
    }
    J typeSub(int depth) { J j = sub(depth, false); return j; }
    // keywords that must not have any effect
    void decorate(J &s) {
        if (s.t != J::Obj || s.find("$ref")) return;
        static const std::vector<std::string> unknown = {"$comment", "x-unknown", "minimun", "examples", "default", "readOnly", "unevaluatedItems", "$anchor", "prefixItems", "Type", "REQUIRED"};
        if (r.chance(10)) s.set(r.pick(unknown), value(1));
        if (r.chance(5)) s.set("title", J::str(str()));
        if (r.chance(5)) s.set("description", J::str(str()));
    }
};

// Instance generator: builds values that tend to satisfy or narrowly miss a schema
struct InstGen {
    SchemaGen &g;
    Rng &r;
    Ref *ref;    // to follow references
    InstGen(SchemaGen &sg, Ref *rf) : g(sg), r(sg.r), ref(rf) {}

    static void collect(const J &s, std::vector<std::string> &names) {
        if (const J *p = s.find("properties")) if (p->t == J::Obj) for (auto &kv : p->o) names.push_back(kv.first);
        if (const J *p = s.find("required")) if (p->t == J::Arr) for (auto &e : p->a) names.push_back(e.s);
        if (const J *p = s.find("dependencies")) if (p->t == J::Obj) for (auto &kv : p->o) { names.push_back(kv.first); if (kv.second.t == J::Arr) for (auto &e : kv.second.a) names.push_back(e.s); if (kv.second.t == J::Str) names.push_back(kv.second.s); }
    }
    std::string forType(const J &s) {
        if (const J *t = s.find("type")) {
            if (t->t == J::Str) return t->s;
            if (t->t == J::Arr && !t->a.empty()) { const J &x = r.pick(t->a); if (x.t == J::Str) return x.s; }
        }
        static const char *numk[] = {"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "divisibleBy"};
        static const char *strk[] = {"minLength", "maxLength", "pattern"};
        static const char *arrk[] = {"items", "minItems", "maxItems", "uniqueItems", "contains", "additionalItems"};
        static const char *objk[] = {"properties", "patternProperties", "additionalProperties", "required", "minProperties", "maxProperties", "propertyNames", "dependencies"};
        std::vector<std::string> c;
        for (auto k : numk) if (s.find(k)) c.push_back("number");
        for (auto k : strk) if (s.find(k)) c.push_back("string");
        for (auto k : arrk) if (s.find(k)) c.push_back("array");
        for (auto k : objk) if (s.find(k)) { c.push_back("object"); c.push_back("object"); }
        return c.empty() ? "any" : r.pick(c);
    }
    J near(const J &n) {
        static const std::vector<double> d = {0, 0, 1, -1, 0.5, -0.5};
        double x = r.pick(d);
        if (n.t == J::Int) { if (x == std::floor(x)) { int64_t y; if (!__builtin_add_overflow(n.i, (int64_t)x, &y)) return J::integer(y); return n; } if (std::fabs((double)n.i) < 1e12) return J::dbl((double)n.i + x); return n; }
        J y = J::dbl(n.d + x);
        if (integralDouble(y.d) && !g.cfg.integralDbl) return J::integer((int64_t)y.d);
        return y;
    }
    J make(const J &s0, int depth) {
        const J *s = &s0;
        for (int hop = 0; hop < 8 && s->t == J::Obj && s->find("$ref"); hop++) {
            if (!ref) break;
            auto it = ref->labels.find(s->find("$ref")->i);
            if (it == ref->labels.end()) break;
            s = it->second;
        }
        if (s->t != J::Obj || depth < -3 || s->find(LBOOL) || r.chance(7)) return g.value(depth > 2 ? 2 : depth);
        if (const J *c = s->find("const")) if (r.chance(70)) return *c;
        if (const J *e = s->find("enum")) if (e->t == J::Arr && !e->a.empty() && r.chance(70)) return r.pick(e->a);
        // descend into combinators
        if (depth > 0) {
            std::vector<const J *> c;
            for (const char *k : {"allOf", "anyOf", "oneOf", "extends", "type"}) if (const J *l = s->find(k)) { if (l->t == J::Arr) { for (auto &e : l->a) if (e.t == J::Obj) c.push_back(&e); } else if (l->t == J::Obj) c.push_back(l); }
            for (const char *k : {"if", "then", "else", "not"}) if (const J *l = s->find(k)) c.push_back(l);
            if (const J *dp = s->find("dependencies")) if (dp->t == J::Obj) for (auto &kv : dp->o) if (kv.second.t == J::Obj) c.push_back(&kv.second);
            if (!c.empty() && r.chance(55)) {
                J base = make(*r.pick(c), depth - 1);
                if (base.t == J::Obj && r.chance(60)) fillObject(base, *s, depth);
                return base;
            }
        }
        std::string t = forType(*s);
        if (t == "any") return g.value(depth > 2 ? 2 : depth);
        if (t == "null") return J();
        if (t == "boolean") return J::boolean(r.chance(50));
        if (t == "integer" || t == "number") {
            std::vector<const J *> b;
            for (const char *k : {"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "divisibleBy"}) if (const J *x = s->find(k)) if (x->isNum()) b.push_back(x);
            if (!b.empty() && r.chance(75)) return near(*r.pick(b));
            return g.number();
        }
        if (t == "string") return J::str(r.chance(80) ? g.str() : g.name());
        if (t == "array") {
            J j = J::arr();
            const J *items = s->find("items"), *add = s->find("additionalItems"), *con = s->find("contains");
            int64_t n = depth < 0 ? 0 : r.range(0, depth > 1 ? 4 : 2);
            if (const J *m = s->find("minItems")) if (m->t == J::Int && m->i < 8 && r.chance(70)) n = std::max(n, m->i);
            if (const J *m = s->find("maxItems")) if (m->t == J::Int && m->i < 8 && r.chance(50)) n = std::min(n, m->i + (int64_t)r.chance(20));
            bool uniq = s->find("uniqueItems") != nullptr;
            for (int64_t x = 0; x < n; x++) {
                const J *is = nullptr;
                if (items && items->t == J::Arr) is = (size_t)x < items->a.size() ? &items->a[(size_t)x] : add;
                else is = items;
                J e = con && r.chance(40) ? make(*con, depth - 1) : is && is->t == J::Obj ? make(*is, depth - 1) : g.value(depth > 1 ? 1 : 0);
                if (uniq && !j.a.empty() && r.chance(35)) e = twist(r.pick(j.a));
                j.a.push_back(e);
            }
            return j;
        }
        J j = J::obj();
        if (depth >= 0 || r.chance(30)) fillObject(j, *s, depth);
        return j;
    }
    // a value equal to v in another spelling, or nearly equal
    J twist(const J &v) {
        J w = v;
        switch (v.t) {
        case J::Int: if (r.chance(40) && g.cfg.integralDbl && v.i > -(1LL << 53) && v.i < (1LL << 53)) return J::dbl((double)v.i); if (r.chance(30)) return near(v); return v;
        case J::Dbl: if (integralDouble(v.d) && r.chance(50)) return J::integer((int64_t)v.d); return v;
        case J::Str: if (r.chance(30)) w.s += "x"; return w;
        case J::Arr: if (!w.a.empty() && r.chance(40)) { size_t k = r.below(w.a.size()); w.a[k] = twist(w.a[k]); } else if (w.a.size() > 1 && r.chance(30)) std::swap(w.a[0], w.a[1]); return w;
        case J::Obj:
            if (w.o.size() > 1 && r.chance(60)) std::swap(w.o[0], w.o[w.o.size() - 1]);
            if (!w.o.empty() && r.chance(40)) { size_t k = r.below(w.o.size()); w.o[k].second = twist(w.o[k].second); }
            return w;
        case J::Bool: if (r.chance(30)) return J::integer(v.b); return v;
        case J::Null: if (r.chance(30)) return J::str("null"); return v;
        }
        return w;
    }
    void fillObject(J &j, const J &s, int depth) {
        const J *props = s.find("properties"), *pats = s.find("patternProperties"), *add = s.find("additionalProperties");
        std::vector<std::string> nm;
        collect(s, nm);
        bool full = r.chance(40);
        for (auto &n : nm) {
            if (!full && r.chance(40)) continue;
            const J *p = props ? props->find(n) : nullptr;
            if (!p && add && add->t == J::Obj) p = add;
            j.set(n, p ? make(*p, depth - 1) : g.value(depth > 1 ? 1 : 0));
        }
        if (pats && r.chance(60)) {
            const J *p = nullptr;
            static const std::vector<std::string> c = {"a", "ab", "foo", "a1", "12", "bar", "b", "fo", "x", "", "a/b", "\xC3\xA9", "a%2Fb", "~0"};
            std::string n = r.pick(c);
            for (auto &kv : pats->o) if (patMatch(kv.first, n)) p = &kv.second;
            j.set(n, p ? make(*p, depth - 1) : g.value(depth > 1 ? 1 : 0));
        }
        if (r.chance(add ? 50 : 25)) j.set(g.name(), add && add->t == J::Obj ? make(*add, depth - 1) : g.value(depth > 1 ? 1 : 0));
        if (const J *m = s.find("minProperties")) if (m->t == J::Int && m->i < 8) for (int k = 0; k < 6 && (int64_t)j.o.size() < m->i; k++) j.set(g.name(), g.scalar());
    }
    // small random change
    J mutate(const J &v, int depth) {
        J w = v;
        if (depth <= 0 || w.size() == 0) return r.chance(50) ? twist(v) : g.value(1);
        if (r.chance(25)) return g.value(1);
        if (w.t == J::Arr) {
            size_t k = r.below(w.a.size());
            switch (r.below(4)) {
            case 0: w.a.erase(w.a.begin() + (long)k); break;
            case 1: w.a.push_back(twist(w.a[k])); break;
            default: w.a[k] = mutate(w.a[k], depth - 1);
            }
        } else {
            size_t k = r.below(w.o.size());
            switch (r.below(4)) {
            case 0: w.o.erase(w.o.begin() + (long)k); break;
            case 1: w.set(g.name(), g.value(1)); break;
            default: w.o[k].second = mutate(w.o[k].second, depth - 1);
            }
        }
        return w;
    }
};

inline J shuffled(const J &j, Rng &r) {
    J w = j;
    if (w.t == J::Obj) { for (size_t n = w.o.size(); n > 1; n--) std::swap(w.o[n - 1], w.o[r.below(n)]); for (auto &kv : w.o) kv.second = shuffled(kv.second, r); }
    else if (w.t == J::Arr) for (auto &e : w.a) e = shuffled(e, r);
    return w;
}
inline bool hasIntegralDbl(const J &j) {
    if (j.t == J::Dbl) return std::floor(j.d) == j.d;
    for (auto &e : j.a) if (hasIntegralDbl(e)) return true;
    for (auto &kv : j.o) if (hasIntegralDbl(kv.second)) return true;
    return false;
}
inline int jdepth(const J &j) {
    int d = 0;
    for (auto &e : j.a) d = std::max(d, jdepth(e));
    for (auto &kv : j.o) d = std::max(d, jdepth(kv.second));
    return d + 1;
}

// ------------------------------------------------------------------ rendering
inline std::string ptrEscape(const std::string &t) {
    std::string o;
    for (char c : t) { if (c == '~') o += "~0"; else if (c == '/') o += "~1"; else o += c; }
    return o;
}
// as a URI fragment: everything that may not stand in a fragment, and %, is percent-encoded
inline std::string fragEncode(const std::string &t, Rng *r = nullptr) {
    std::string o;
    char b[8];
    for (unsigned char c : t) {
        bool plain = isalnum(c) || strchr("-._~/$&'()*+,;=:@!?", (char)c);
        if (c == 0) plain = false;
        // spelling variants: a character may be percent-encoded without need (but never '/' or '~')
        bool extra = r && isalnum(c) && r->chance(10);
        if (plain && !extra) o += (char)c;
        else { snprintf(b, sizeof b, r && r->chance(30) ? "%%%02x" : "%%%02X", c); o += b; }
    }
    return o;
}

}  // namespace vh
