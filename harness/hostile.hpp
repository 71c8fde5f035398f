// Hostile documents: schemas and instances that are legal, half-legal or nonsense
#pragma once
#include "refs.hpp"

namespace vh {

struct Hostile {
    Rng &r;
    SchemaGen &g;
    bool nan = true, badUtf8 = true;
    Hostile(SchemaGen &sg) : r(sg.r), g(sg) {}

    std::string str() {
        static const std::vector<std::string> v = {
            "", " ", "0", "-0", "1e999", "-1e999", "99999999999999999999", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
            "0x10", " 1", "1 ", "+1", "nan", "NaN", "inf", "-inf", "infinity", "-", ".", "1.", ".5", "1e", "1e5", "TRUE", "true ", "false", "null", "~",
            "2024-02-29", "0000-00-00", "9999-12-31T23:59:60Z", "2016-12-31T23:59:60Z", "99999999999999999999-01-01", "24:00:00Z", "23:59:60+99:99", "T", "Z", "2024-01-01T00:00:00.99999999999999999999999Z",
            "255.255.255.255", "256.1.1.1", "1.1.1", "1.1.1.1.1", "99999999999999999999.1.1.1", "....", "1...1",
            "\xff", "\xc3", "\xc3\x28", "\xed\xa0\x80", "\xf0\x9f", "\xf0\x9f\x98\x80", "\xfe\xff", "a\x80", "\xc0\x80", "\xf8\x88\x80\x80\x80",
            std::string("\0", 1), std::string("a\0b", 3), std::string("12\0", 3), std::string("true\0x", 6), "date", "date-time", "time", "ipv4", "string", "object", "any", "integer"};
        for (;;) {
            if (r.chance(6)) return std::string((size_t)r.range(1, 300), r.chance(50) ? 'a' : '9');
            const std::string &s = r.pick(v);
            if (!badUtf8) { bool bad = false; for (unsigned char c : s) if (c >= 0x80) bad = true; if (bad) continue; }
            return s;
        }
    }
    J num() {
        static const std::vector<int64_t> iv = {INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, (1LL << 53) + 1, -(1LL << 53) - 1, 1LL << 31, -(1LL << 31) - 1, 1LL << 32, 0, 1, -1, UINT32_MAX, 1LL << 62};
        static const std::vector<double> dv = {1e308, -1e308, 1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308, 9.2233720368547758e18, -9.2233720368547758e18, 1.8446744073709552e19, 1e19, -1e19, 0.1, -0.0, 0.0, 1e15, 4503599627370497.5, 1e-300, 0.3};
        if (nan && r.chance(5)) { double x = r.chance(50) ? NAN : INFINITY; return J::dbl(r.chance(50) ? x : -x); }
        return r.chance(50) ? J::integer(r.pick(iv)) : J::dbl(r.pick(dv));
    }
    J value(int depth) {
        switch (r.below(depth > 0 ? 8 : 5)) {
        case 0: return J();
        case 1: return J::boolean(r.chance(50));
        case 2: case 3: return num();
        case 4: return J::str(str());
        case 5: { J a = J::arr(); for (int64_t n = r.range(0, 3); n > 0; n--) a.a.push_back(value(depth - 1)); return a; }
        case 6: { J o = J::obj(); for (int64_t n = r.range(0, 3); n > 0; n--) o.set(r.chance(50) ? g.name() : key(), value(depth - 1)); return o; }
        default: { J x = r.chance(50) ? J::arr() : J::obj(); int64_t d = r.range(1, 40); J v = num(); for (; d > 0; d--) { J y = r.chance(60) ? J::arr() : J::obj(); if (y.t == J::Arr) y.a.push_back(v); else y.set("a", v); v = y; } return v; }
        }
    }
    std::string key() {
        static const std::vector<std::string> v = {
            "type", "enum", "const", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "divisibleBy", "minLength", "maxLength", "pattern", "format",
            "items", "additionalItems", "minItems", "maxItems", "uniqueItems", "contains", "properties", "patternProperties", "additionalProperties", "required", "minProperties",
            "maxProperties", "propertyNames", "dependencies", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "extends", "disallow", "title", "description", "definitions", "default"};
        return r.pick(v);
    }
    void nodes(J &j, std::vector<J *> &out) {
        out.push_back(&j);
        for (auto &kv : j.o) nodes(kv.second, out);
        for (auto &e : j.a) nodes(e, out);
    }
    void mutate(J &j, int times, bool schemaLike) {
        for (; times > 0; times--) {
            std::vector<J *> all;
            nodes(j, all);
            J *p = r.pick(all), *q = r.pick(all);
            switch (r.below(9)) {
            case 0: case 1: *p = value(2); break;
            case 2: { J c = *q; if (dump(c).size() < 4000 && all.size() < 300) *p = c; break; }
            case 3: { J w = r.chance(50) ? J::arr() : J::obj(); if (w.t == J::Arr) w.a.push_back(*p); else w.set(schemaLike ? key() : g.name(), *p); *p = w; break; }
            case 4: if (p->t == J::Obj && !p->o.empty()) p->o.erase(p->o.begin() + (long)r.below(p->o.size())); else if (p->t == J::Arr && !p->a.empty()) p->a.pop_back(); break;
            case 5: if (p->t == J::Obj && !p->o.empty()) { std::string k = schemaLike ? key() : g.name(); if (!p->find(k)) p->o[r.below(p->o.size())].first = k; } break;
            case 6: if (p->t == J::Obj) p->set(schemaLike ? key() : g.name(), value(1)); else if (p->t == J::Arr) p->a.push_back(value(1)); break;
            case 7: if (p->t == J::Obj && schemaLike) { J s = g.schema(1); std::string k = key(); p->set(k, s); } break;
            default: if (p->isNum()) *p = num(); else if (p->t == J::Str) p->s = str(); else if (p->t == J::Arr && !p->a.empty() && p->a.size() < 20) p->a.push_back(p->a[0]); break;
            }
        }
    }
    // all places that are schemas when the document is read as one, with the pointers to them; a place is marked when it
    // stands directly below a keyword that consumes a level of the instance
    struct Place { J *j; std::string ptr; bool consumed; };
    void places(J &s, const std::string &ptr, bool consumed, std::vector<Place> &out) {
        if (s.t != J::Obj) { if (s.t == J::Bool) out.push_back({&s, ptr, consumed}); return; }
        out.push_back({&s, ptr, consumed});
        auto esc = [](const std::string &t) { return fragEncode(ptrEscape(t)); };
        for (auto &kv : s.o) {
            const std::string &k = kv.first;
            std::string p = ptr + "/" + esc(k);
            bool map = k == "properties" || k == "patternProperties";
            if (map && kv.second.t == J::Obj) { for (auto &m : kv.second.o) places(m.second, p + "/" + esc(m.first), true, out); }
            else if ((k == "dependencies" || k == "definitions") && kv.second.t == J::Obj) { for (auto &m : kv.second.o) if (m.second.t == J::Obj) places(m.second, p + "/" + esc(m.first), false, out); }
            else if (k == "items" || k == "additionalItems" || k == "additionalProperties" || k == "contains" || k == "propertyNames") {
                if (kv.second.t == J::Arr) for (size_t n = 0; n < kv.second.a.size(); n++) places(kv.second.a[n], p + "/" + std::to_string(n), true, out);
                else places(kv.second, p, true, out);
            } else if (k == "allOf" || k == "anyOf" || k == "oneOf" || k == "extends" || k == "type" || k == "not" || k == "if" || k == "then" || k == "else") {
                if (kv.second.t == J::Arr) { for (size_t n = 0; n < kv.second.a.size(); n++) if (kv.second.a[n].t == J::Obj) places(kv.second.a[n], p + "/" + std::to_string(n), false, out); }
                else if (kv.second.t == J::Obj) places(kv.second, p, false, out);
            }
        }
    }
    // pointers that lead just past the end of an array, or beyond a scalar
    void ends(const J &j, const std::string &ptr, std::vector<std::string> &out) {
        if (j.t == J::Arr) {
            out.push_back(ptr + "/" + std::to_string(j.a.size()));
            out.push_back(ptr + "/" + std::to_string(j.a.size()) + "/type");
            out.push_back(ptr + "/" + std::to_string(j.a.size() + 1));
            for (size_t n = 0; n < j.a.size(); n++) ends(j.a[n], ptr + "/" + std::to_string(n), out);
        } else if (j.t == J::Obj) {
            for (auto &kv : j.o) ends(kv.second, ptr + "/" + fragEncode(ptrEscape(kv.first)), out);
        } else out.push_back(ptr + (r.chance(50) ? "/0" : "/a"));
    }
    // References only at consuming places, to schema places: any cycle through them consumes the instance.
    void refs(J &doc, int n) {
        static const std::vector<std::string> odd = {"", "#", "#/", "##", "#%", "#/%zz", "#/~", "#/definitions", "#/-", "#name", "doc.json", "http://", "http://x", "http://example.org/s.json#/a", "urn:", "urn:example:a",
            "urn:example:a#b", "?q", "//x/y", "../..", "./.", "#/properties/none", "#/0", "\xff", "#\xff", "a b", ":", "mailto:x@y", "#/items/99999999999999999999", "#/items/-1", std::string("#\0a", 3)};
        for (; n > 0; n--) {
            std::vector<Place> pl;
            places(doc, "", false, pl);
            std::vector<Place *> where;
            for (auto &p : pl) if (p.consumed) where.push_back(&p);
            if (where.empty()) return;
            Place *w = r.pick(where);
            J ref = J::obj();
            if (r.chance(4)) ref.set("$ref", value(1));
            else {
                std::string t;
                std::vector<std::string> e;
                if (r.chance(12)) ends(doc, "", e);
                if (!e.empty()) {
                    t = r.pick(e);
                    if (t.compare(0, w->ptr.size(), w->ptr) == 0) continue;
                    t = "#" + t;
                } else if (r.chance(75)) {
                    t = r.pick(pl).ptr;
                    // the text of a pointer must not lie inside what is replaced, unless it is the place itself
                    if (t.compare(0, w->ptr.size(), w->ptr) == 0 && t != w->ptr) continue;
                    t = "#" + t;
                } else t = r.pick(odd);
                ref.set("$ref", J::str(t));
            }
            *w->j = ref;
        }
    }
    void ids(J &doc, int n) {
        static const std::vector<std::string> odd = {"", "#", "#a", "http://example.org/r.json", "http://example.org/r.json#", "a.json", "../x", "urn:example:a", "urn:", "?", "//h/p", "http://", "#/definitions/a", "\xff", "a b", std::string("a\0b", 3)};
        for (; n > 0; n--) {
            std::vector<Place> pl;
            places(doc, "", false, pl);
            if (pl.empty()) return;
            J *p = r.pick(pl).j;
            if (p->t == J::Obj) p->set(r.chance(50) ? "$id" : "id", r.chance(85) ? J::str(r.pick(odd)) : value(0));
        }
    }
    J schema(bool withRefs) {
        J s = g.schema((int)r.range(1, 3));
        if (s.t != J::Obj) s = J::obj();
        if (r.chance(30)) s.set("format", J::str(r.chance(70) ? r.pick(std::vector<std::string>{"date", "time", "date-time", "ipv4"}) : str()));
        if (r.chance(40)) { J d = J::obj(); for (int64_t n = r.range(1, 2); n > 0; n--) d.set(g.name(), g.schema(1)); s.set("definitions", d); }
        mutate(s, (int)r.range(0, 4), true);
        if (s.t == J::Obj) { if (withRefs) refs(s, (int)r.range(1, 4)); else if (r.chance(30)) ids(s, (int)r.range(1, 3)); }
        return s;
    }
};

}  // namespace vh
