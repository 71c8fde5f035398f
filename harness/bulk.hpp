// Schemas and instances with many parts: sizes around powers of two, and what is wrong at any place among them
#pragma once
#include "gen.hpp"

namespace vh {

struct Bulk {
    Rng &r;
    int draft;
    int top;                       // largest number of parts
    J schema;
    std::vector<J> insts;
    std::string kind;
    Bulk(Rng &rng, int d, int t) : r(rng), draft(d), top(t) {}

    static J one(const char *k, J v) { J s = J::obj(); s.set(k, std::move(v)); return s; }
    int count() {
        static const std::vector<int> v = {1, 2, 3, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1025};
        for (;;) { int n = r.pick(v); if (n <= top) return n; }
    }
    // names with a long common beginning, in no particular order
    std::string nm(int k) { return (k % 3 ? "p_with_a_long_common_beginning_" : "p") + std::to_string(k) + (k % 5 ? "" : "/~") + (k % 7 ? "" : "\xC3\xA9") + "_"; }
    std::string plain(int k) { return (k % 3 ? "p_with_a_long_common_beginning_" : "p") + std::to_string(k) + "_"; }
    J ival(int k) { return J::integer(k); }
    J distinct(int k) {
        switch (k % 6) {
        case 0: return J::integer(k);
        case 1: return J::str("s" + std::to_string(k));
        case 2: { J a = J::arr(); a.a.push_back(J::integer(k)); return a; }
        case 3: return one("k", J::integer(k));
        case 4: return J::dbl(k + 0.5);
        default: return J::str(std::to_string(k));
        }
    }
    int place(int n) { return r.chance(40) ? n - 1 : r.chance(30) ? 0 : (int)r.range(0, n - 1); }
    J typ(const char *t) { return one("type", J::str(t)); }
    J always(bool b) {
        if (draft >= 7 && r.chance(50)) return J::boolean(b);
        return b ? J::obj() : draft == 3 ? one("enum", J::arr({J::str("never this")})) : one("not", J::obj());
    }
    J objOf(int n) { J o = J::obj(); for (int k = 0; k < n; k++) o.set(nm(k), ival(k)); return o; }
    J arrOf(int n) { J o = J::arr(); for (int k = 0; k < n; k++) o.a.push_back(ival(k)); return o; }
    void make() {
        for (;;) {
            int n = count();
            insts.clear();
            if (kindOf((int)r.below(23), n)) break;
        }
        // the same below something else
        if (r.chance(30)) {
            if (r.chance(50)) { J a = J::arr(); a.a.push_back(schema); schema = one("items", a); for (auto &i : insts) { J b = J::arr(); b.a.push_back(i); i = b; } }
            else { J p = J::obj(); p.set("q/~", schema); schema = one("properties", p); for (auto &i : insts) i = one("q/~", i); }
        }
    }
    bool kindOf(int k, int n) {
        switch (k) {
        case 0: {
            kind = "uniqueItems"; schema = one("uniqueItems", J::boolean(true));
            J a = J::arr(); for (int x = 0; x < n; x++) a.a.push_back(distinct(x));
            insts.push_back(a);
            if (n > 1) for (int t = 0; t < 3; t++) { J b = a; int x = place(n), y = place(n); if (x == y) y = (x + 1) % n; b.a[(size_t)x] = b.a[(size_t)y]; insts.push_back(b); }
            return true;
        }
        case 1: {
            kind = "items list"; J s = J::arr(); for (int x = 0; x < n; x++) s.a.push_back(typ(x % 2 ? "integer" : "string"));
            schema = one("items", s);
            if (r.chance(60)) schema.set("additionalItems", r.chance(50) ? J::boolean(false) : typ("boolean"));
            J good = J::arr(); for (int x = 0; x < n; x++) good.a.push_back(x % 2 ? J::integer(x) : J::str("s"));
            insts.push_back(good);
            for (int t = 0; t < 2; t++) { J b = good; b.a[(size_t)place(n)] = J(); insts.push_back(b); }
            J m = good; m.a.pop_back(); insts.push_back(m);
            m = good; m.a.push_back(J::boolean(true)); insts.push_back(m); m.a.push_back(J::integer(1)); insts.push_back(m);
            return true;
        }
        case 2: {
            kind = "additionalItems"; schema = one("items", J::arr({typ("integer")})); schema.set("additionalItems", typ("integer"));
            J a = arrOf(n); insts.push_back(a); a.a[(size_t)place(n)] = J::str("x"); insts.push_back(a);
            return true;
        }
        case 3: {
            kind = "items"; schema = one("items", typ("integer"));
            J a = arrOf(n); insts.push_back(a); a.a[(size_t)place(n)] = J::str("x"); insts.push_back(a); a.a[(size_t)place(n)] = J::str("y"); insts.push_back(a);
            return true;
        }
        case 4: {
            kind = "enum"; J e = J::arr(); for (int x = 0; x < n; x++) e.a.push_back(distinct(x));
            schema = one("enum", e);
            for (int t = 0; t < 3; t++) insts.push_back(e.a[(size_t)place(n)]);
            insts.push_back(distinct(n)); insts.push_back(distinct(n + 6)); insts.push_back(J());
            return true;
        }
        case 5: {
            kind = "required";
            if (draft == 3) { J p = J::obj(); for (int x = 0; x < n; x++) p.set(nm(x), one("required", J::boolean(true))); schema = one("properties", p); }
            else { J q = J::arr(); for (int x = 0; x < n; x++) q.a.push_back(J::str(nm(x))); schema = one("required", q); }
            J o = objOf(n); insts.push_back(o);
            for (int t = 0; t < 3; t++) { J b = o; b.erase(nm(place(n))); insts.push_back(b); }
            insts.push_back(J::obj());
            return true;
        }
        case 6: {
            kind = "properties"; J p = J::obj(); for (int x = 0; x < n; x++) p.set(nm(x), typ("integer"));
            schema = one("properties", p);
            if (r.chance(60)) schema.set("additionalProperties", r.chance(50) ? J::boolean(false) : typ("boolean"));
            J o = objOf(n); insts.push_back(o);
            for (int t = 0; t < 2; t++) { J b = o; b.set(nm(place(n)), J::str("x")); insts.push_back(b); }
            J b = o; b.set(nm(n), J::boolean(true)); insts.push_back(b); b.set(nm(n + 1), ival(1)); insts.push_back(b);
            return true;
        }
        case 7: {
            kind = "patternProperties"; n = std::min(n, 65);
            J p = J::obj(); for (int x = 0; x < n; x++) p.set((r.chance(50) ? "^" : "") + plain(x), x % 2 ? typ("integer") : typ("number"));
            schema = one("patternProperties", p);
            if (r.chance(60)) schema.set("additionalProperties", J::boolean(false));
            J o = J::obj(); for (int x = 0; x < n; x++) o.set(plain(x), ival(x));
            insts.push_back(o);
            for (int t = 0; t < 2; t++) { J b = o; int x = place(n); b.set(plain(x) + (r.chance(50) ? "" : "more"), J::str("x")); insts.push_back(b); }
            J b = o; b.set(plain(n), ival(1)); insts.push_back(b);
            return true;
        }
        case 8: case 9: case 10: {
            const char *kw = k == 8 ? draft == 3 ? "extends" : "allOf" : k == 9 ? "anyOf" : "oneOf";
            if (k > 8 && draft == 3) return false;
            kind = kw; n = std::min(n, 129);
            int a = place(n), b = r.chance(50) ? a : place(n);
            J s = J::arr();
            for (int x = 0; x < n; x++) {
                J q = one("minimum", J::integer(10 * x)); q.set("maximum", J::integer(k == 8 ? 10 * x + 2000 : 10 * x + (x == b ? 10 : 9)));
                s.a.push_back(x == a && r.chance(30) ? always(r.chance(50)) : q);
            }
            schema = one(kw, s);
            for (int t = 0; t < 4; t++) insts.push_back(J::integer(10 * place(n) + r.range(0, 10)));
            insts.push_back(J::integer(10 * (n - 1))); insts.push_back(J::integer(-1)); insts.push_back(J::str("x"));
            return true;
        }
        case 11: {
            kind = "dependencies"; J p = J::obj();
            for (int x = 0; x < n; x++) { J d = J::arr(); for (int64_t m = r.range(0, 3); m > 0; m--) { J e = J::str(nm((int)r.range(0, n))); bool dup = false; for (auto &f : d.a) dup |= f.s == e.s; if (!dup) d.a.push_back(e); } p.set(nm(x), r.chance(80) ? d : draft == 3 ? one("additionalProperties", typ("integer")) : one("minProperties", J::integer(r.range(0, n)))); }
            schema = one("dependencies", p);
            for (int t = 0; t < 5; t++) { J o = objOf(n + 1); for (int64_t m = r.range(0, 2 + t); m > 0; m--) o.erase(nm((int)r.range(0, n))); insts.push_back(o); }
            J o = J::obj(); o.set(nm(place(n)), J()); insts.push_back(o);
            return true;
        }
        case 12: {
            if (draft < 7) return false;
            kind = "contains"; schema = one("contains", typ("string"));
            J a = arrOf(n); insts.push_back(a); a.a[(size_t)place(n)] = J::str("x"); insts.push_back(a);
            return true;
        }
        case 13: case 14: {
            bool obj = k == 14, mx = r.chance(50);
            if (obj && draft == 3) return false;
            kind = obj ? "minProperties" : "minItems";
            schema = one(obj ? mx ? "maxProperties" : "minProperties" : mx ? "maxItems" : "minItems", J::integer(n));
            for (int x = n - 1; x <= n + 1; x++) insts.push_back(obj ? objOf(x) : arrOf(x));
            insts.push_back(obj ? J::obj() : J::arr());
            return true;
        }
        case 15: {
            bool mx = r.chance(50);
            static const std::vector<int> big = {1023, 1024, 4095, 4096, 65535, 65536, 65537, 70000};
            if (r.chance(50)) n = r.pick(big);
            kind = "minLength"; schema = one(mx ? "maxLength" : "minLength", J::integer(n));
            static const std::vector<std::string> ch = {"a", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"};
            std::string c = r.pick(ch), s;
            for (int x = 0; x < n - 1; x++) s += r.chance(90) ? c : r.pick(ch);
            for (int x = 0; x < 3; x++) { insts.push_back(J::str(s)); s += r.pick(ch); }
            return true;
        }
        case 16: {
            if (draft < 7) return false;
            kind = "propertyNames"; schema = one("propertyNames", one(r.chance(50) ? "maxLength" : "minLength", J::integer(r.range(3, 40))));
            insts.push_back(objOf(n));
            J o = J::obj(); for (int x = 0; x < n; x++) o.set("n" + std::to_string(1000 + x), ival(x)); insts.push_back(o);
            o.set(std::string((size_t)r.range(1, 50), 'z'), ival(0)); insts.push_back(o);
            return true;
        }
        case 17: {
            // deep instead of wide
            n = std::min(n, 65);
            kind = "deep"; J s = typ("integer"), v = J::integer(1), w = J::str("x");
            for (int x = 0; x < n; x++) {
                switch (r.below(4)) {
                case 0: { J p = J::obj(); p.set("k", s); s = one("properties", p); v = one("k", v); w = one("k", w); break; }
                case 1: s = one("items", s); v = J::arr({ival(1), v}); if (r.chance(50)) std::swap(v.a[0], v.a[1]); v.a.erase(v.a.begin() + (v.a[0].t == J::Int && v.a[1].t != J::Int ? 0 : 1)); w = J::arr({w}); break;
                case 2: s = one("additionalProperties", s); v = one("other", v); w = one("other", w); break;
                default: if (draft == 3) s = one("extends", s); else s = one("not", one("not", s)); break;
                }
            }
            schema = s; insts = {v, w, J::integer(1), J::str("x"), J::obj(), J::arr()};
            return true;
        }
        case 18: {
            if (draft < 7) return false;
            kind = "else"; n = std::min(n, 33);
            J s = always(r.chance(50));
            for (int x = n - 1; x >= 0; x--) {
                J c = one("if", one("const", J::integer(x)));
                if (r.chance(80)) c.set("then", r.chance(50) ? always(r.chance(60)) : one("multipleOf", J::integer(2)));
                c.set("else", s); s = c;
            }
            schema = s;
            for (int x = 0; x < 6; x++) insts.push_back(J::integer(r.range(-1, n)));
            return true;
        }
        case 19: {
            kind = "long names"; std::string a((size_t)n, 'n'), b = a; b[(size_t)place(n)] = 'm';
            J p = J::obj(); p.set(a, typ("integer")); p.set(b, typ("string")); p.set(a + "n", typ("boolean"));
            schema = one("properties", p); if (r.chance(50)) schema.set("additionalProperties", J::boolean(false));
            J o = J::obj(); o.set(a, ival(1)); o.set(b, J::str("x")); o.set(a + "n", J::boolean(true));
            if (a != b) { insts.push_back(o); J q = o; q.set(b, ival(1)); insts.push_back(q); q = o; q.set(a, J::str("x")); insts.push_back(q); q = o; q.set(a + "n", ival(1)); insts.push_back(q); q = o; q.set(a + "m", ival(1)); insts.push_back(q); }
            else insts.push_back(J::obj());
            return true;
        }
        case 20: {
            kind = "long strings"; std::string a((size_t)n, 'n'), b = a; b[(size_t)place(n)] = 'm';
            schema = draft >= 7 && r.chance(50) ? one("const", J::str(a)) : one("enum", J::arr({J::str(a), J::str(a + "x")}));
            insts = {J::str(a), J::str(b), J::str(a + "n"), J::str(a + "x"), J::str(a.substr(1))};
            return true;
        }
        case 21: {
            kind = "pattern"; n = std::min(n, 65);
            J s = J::arr(), v = J::arr();
            for (int x = 0; x < n; x++) { s.a.push_back(one("pattern", J::str((r.chance(50) ? "^" : "") + plain(x)))); v.a.push_back(J::str(plain(x) + (r.chance(50) ? "" : "x"))); }
            schema = one("items", s);
            insts.push_back(v);
            for (int t = 0; t < 4; t++) { J b = v; int x = place(n); b.a[(size_t)x] = J::str(r.chance(50) ? plain(x + 3) : r.chance(50) ? "x" + plain(x) : plain(x).substr(0, plain(x).size() - 1)); insts.push_back(b); }
            return true;
        }
        default: {
            // large values compared as a whole
            kind = "large values"; J o = J::obj(); o.set("list", J::arr()); for (int x = 0; x < n; x++) o.o[0].second.a.push_back(distinct(x)); o.set("map", objOf(n));
            schema = draft >= 7 && r.chance(50) ? one("const", o) : one("enum", J::arr({o}));
            insts.push_back(o); insts.push_back(shuffled(o, r));
            J b = o; b.o[0].second.a[(size_t)place(n)] = J(); insts.push_back(b);
            b = o; b.o[1].second.set(nm(place(n)), J()); insts.push_back(b);
            b = o; int x = place(n); b.o[1].second.erase(nm(x)); b.o[1].second.set(nm(n + 1), ival(x)); insts.push_back(b);
            return true;
        }
        }
    }
};

}  // namespace vh
