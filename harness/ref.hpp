// Reference evaluator: what the JSON Schema drafts say, for the schemas the generators make.
// Written from the specifications, independent of valijson. Schemas are J trees in "internal
// form": a subschema object may carry a label ("\x01": n), a reference is {"$ref": <label>},
// and a boolean schema that is the target of references is {"\x01": n, "\x01bool": b}.
#pragma once
#include "core.hpp"

namespace vh {

static const char *const LABEL = "\x01";
static const char *const LBOOL = "\x01" "bool";

// Patterns with independently written predicates
struct Pat { const char *re; bool (*m)(const std::string &); };
inline bool isDig(char c) { return c >= '0' && c <= '9'; }
inline bool isLow(char c) { return c >= 'a' && c <= 'z'; }
inline const std::vector<Pat> &patterns() {
    static const std::vector<Pat> v = {
        {"^a", [](const std::string &s) { return !s.empty() && s[0] == 'a'; }},
        {"b$", [](const std::string &s) { return !s.empty() && s.back() == 'b'; }},
        {"o", [](const std::string &s) { return s.find('o') != std::string::npos; }},
        {"[0-9]", [](const std::string &s) { for (char c : s) if (isDig(c)) return true; return false; }},
        {"^[a-z]+$", [](const std::string &s) { if (s.empty()) return false; for (char c : s) if (!isLow(c)) return false; return true; }},
        {"^$", [](const std::string &s) { return s.empty(); }},
        {"^(foo|bar)$", [](const std::string &s) { return s == "foo" || s == "bar"; }},
        {"", [](const std::string &) { return true; }},
        {"\\d\\d", [](const std::string &s) { for (size_t n = 0; n + 1 < s.size(); n++) if (isDig(s[n]) && isDig(s[n + 1])) return true; return false; }},
        {"a/b", [](const std::string &s) { return s.find("a/b") != std::string::npos; }},
        {"~", [](const std::string &s) { return s.find('~') != std::string::npos; }},
        {"%2", [](const std::string &s) { return s.find("%2") != std::string::npos; }},
        {"^fo*$", [](const std::string &s) { if (s.empty() || s[0] != 'f') return false; for (size_t n = 1; n < s.size(); n++) if (s[n] != 'o') return false; return true; }},
        {"^[^a]", [](const std::string &s) { return !s.empty() && s[0] != 'a'; }},
        {"\xC3\xA9", [](const std::string &s) { return s.find("\xC3\xA9") != std::string::npos; }},
    };
    return v;
}
// what decides patterns when it is not the default engine
using PatHook = bool (*)(const std::string &, const std::string &);
inline PatHook &patHook() { static PatHook h = nullptr; return h; }
inline bool patMatch(const std::string &re, const std::string &s) {
    if (patHook()) return patHook()(re, s);
    for (auto &p : patterns()) if (re == p.re) return p.m(s);
    // plain text, with or without an anchor at its start
    size_t from = !re.empty() && re[0] == '^';
    for (size_t n = from; n < re.size(); n++) if (!isalnum((unsigned char)re[n]) && re[n] != '_') throw std::logic_error("pattern without predicate: " + re);
    return from ? s.compare(0, re.size() - 1, re, 1, std::string::npos) == 0 : s.find(re) != std::string::npos;
}
inline size_t codePoints(const std::string &s) {
    size_t n = 0;
    for (unsigned char c : s) if ((c & 0xC0) != 0x80) n++;
    return n;
}
// decided == false: double precision does not settle it, do not judge
inline bool multipleOfExact(const J &v, const J &d, bool &decided) {
    decided = true;
    if (v.t == J::Int && d.t == J::Int) return v.i % d.i == 0;      // divisor > 0 and never -1
    long double a = v.t == J::Int ? (long double)v.i : (long double)v.d;
    long double b = d.t == J::Int ? (long double)d.i : (long double)d.d;
    return fmodl(a, b) == 0.0L;
}

// ---- weak types: what converts to what
// 1: s is the decimal spelling of an int64_t, 0: it is not, -1: not judged (leading white space or plus sign)
inline int weakInt(const std::string &s, int64_t &v) {
    size_t n = 0;
    bool neg = false, lead = false;
    while (n < s.size() && strchr(" \t\n\v\f\r", s[n]) && s[n]) { n++; lead = true; }
    if (n < s.size() && (s[n] == '-' || s[n] == '+')) { neg = s[n] == '-'; if (!neg) lead = true; n++; }
    if (n >= s.size()) return 0;
    __int128 a = 0;
    for (; n < s.size(); n++) { if (!isDig(s[n])) return 0; a = a * 10 + (s[n] - '0'); if (a > ((__int128)1 << 64)) a = (__int128)1 << 64; }
    if (neg) a = -a;
    if (a > INT64_MAX || a < INT64_MIN) return 0;
    v = (int64_t)a;
    return lead ? -1 : 1;
}
inline int weakDbl(const std::string &s, double &v) {
    size_t n = 0, b;
    if (n < s.size() && s[n] == '-') n++;
    std::string low;
    for (size_t k = n; k < s.size(); k++) low += (char)tolower((unsigned char)s[k]);
    if (low == "inf" || low == "infinity" || low.compare(0, 3, "nan") == 0) return -1;
    b = n;
    int digits = 0;
    bool nonzero = false;
    while (n < s.size() && isDig(s[n])) { nonzero |= s[n] != '0'; digits++; n++; }
    if (n < s.size() && s[n] == '.') { n++; while (n < s.size() && isDig(s[n])) { nonzero |= s[n] != '0'; digits++; n++; } }
    if (!digits) return 0;
    if (n < s.size() && (s[n] == 'e' || s[n] == 'E')) { n++; if (n < s.size() && (s[n] == '+' || s[n] == '-')) n++; if (n >= s.size() || !isDig(s[n])) return 0; while (n < s.size() && isDig(s[n])) n++; }
    if (n != s.size()) return 0;
    (void)b;
    v = strtod(s.c_str(), nullptr);
    if (!std::isfinite(v)) return 0;
    if (v == 0 && nonzero) return -1;
    return 1;
}

struct Ref {
    int draft = 7;
    bool weak = false;
    std::map<int64_t, const J *> labels;
    uint64_t steps = 0, maxSteps = 4000;
    int depth = 0, maxDepth = 60;
    bool gaveUp = false;

    explicit Ref(int d) : draft(d) {}
    void index(const J &j) {
        if (j.t == J::Obj) {
            if (const J *l = j.find(LABEL)) if (l->t == J::Int) labels[l->i] = &j;
            for (auto &kv : j.o) index(kv.second);
        } else if (j.t == J::Arr) for (auto &e : j.a) index(e);
    }
    static bool isType(const std::string &t, const J &v, int draft) {
        switch (v.t) {
        case J::Null: return t == "null" || (draft == 3 && t == "any");
        case J::Bool: return t == "boolean" || (draft == 3 && t == "any");
        case J::Int: return t == "integer" || t == "number" || (draft == 3 && t == "any");
        case J::Dbl: return t == "number" || (t == "integer" && std::isfinite(v.d) && std::floor(v.d) == v.d) || (draft == 3 && t == "any");
        case J::Str: return t == "string" || (draft == 3 && t == "any");
        case J::Arr: return t == "array" || (draft == 3 && t == "any");
        case J::Obj: return t == "object" || (draft == 3 && t == "any");
        }
        return false;
    }
    bool ok(const J &schema, const J &v) {
        if (++steps > maxSteps || depth > maxDepth) { gaveUp = true; return true; }
        depth++;
        bool r = eval(schema, v);
        depth--;
        return r;
    }
    // v as a value of the type that a keyword constrains, or nullptr
    const J *asNum(const J &v, J &tmp) {
        if (v.isNum()) return &v;
        if (!weak || v.t != J::Str) return nullptr;
        int64_t i; double d;
        int k = weakDbl(v.s, d), ki = weakInt(v.s, i);
        if (k < 0 || ki < 0) gaveUp = true;
        if (k <= 0) return nullptr;
        tmp = ki > 0 ? J::integer(i) : J::dbl(d);
        return &tmp;
    }
    const J *asStr(const J &v, J &tmp) {
        if (v.t == J::Str) return &v;
        if (!weak || v.t == J::Null || v.size()) return nullptr;
        if (v.t == J::Bool) tmp = J::str(v.b ? "true" : "false");
        else if (v.t == J::Int) tmp = J::str(std::to_string(v.i));
        else if (v.t == J::Dbl) { char b[400]; snprintf(b, sizeof b, "%f", v.d); tmp = J::str(b); }
        else tmp = J::str("");
        return &tmp;
    }
    const J *asArr(const J &v, J &tmp) {
        if (v.t == J::Arr) return &v;
        if (!weak || !(v.t == J::Obj && v.o.empty())) return nullptr;
        tmp = J::arr();
        return &tmp;
    }
    const J *asObj(const J &v, J &tmp) {
        if (v.t == J::Obj) return &v;
        if (!weak || !(v.t == J::Arr && v.a.empty())) return nullptr;
        tmp = J::obj();
        return &tmp;
    }
    // weak equality: 1, 0, or -1 where the documentation does not say
    int weq(const J &x, const J &y) {
        if (jeq(x, y)) return 1;
        auto empty = [](const J &j) { return j.t == J::Null || (j.t == J::Str && j.s.empty()) || ((j.t == J::Arr || j.t == J::Obj) && !j.size()); };
        if (empty(x) && empty(y)) return -1;
        if (empty(x) || empty(y)) return 0;
        if (x.t == J::Arr || y.t == J::Arr) {
            if (x.t != y.t || x.a.size() != y.a.size()) return 0;
            int w = 1;
            for (size_t n = 0; n < x.a.size(); n++) { int k = weq(x.a[n], y.a[n]); if (k == 0) return 0; if (k < 0) w = -1; }
            return w;
        }
        if (x.t == J::Obj || y.t == J::Obj) {
            if (x.t != y.t || x.o.size() != y.o.size()) return 0;
            int w = 1;
            for (auto &kv : x.o) { const J *p = y.find(kv.first); int k = p ? weq(kv.second, *p) : 0; if (k == 0) return 0; if (k < 0) w = -1; }
            return w;
        }
        auto boolean = [](const J &j, bool &b) { if (j.t == J::Bool) b = j.b; else if (j.t == J::Str && (j.s == "true" || j.s == "false")) b = j.s == "true"; else return false; return true; };
        bool a, b;
        bool ba = boolean(x, a), bb = boolean(y, b);
        if (ba && bb) return a == b;
        if (ba || bb) return 0;
        J t1, t2;
        const J *n1 = asNum(x, t1), *n2 = asNum(y, t2);
        if (n1 && n2) { if (std::fabs(n1->num()) > 9e15 || std::fabs(n2->num()) > 9e15) return -1; return numCmp(*n1, *n2) == 0; }
        return 0;
    }
    bool equal(const J &x, const J &y) {
        if (!weak) return jeq(x, y);
        int k = weq(x, y);
        if (k < 0) { gaveUp = true; return true; }
        return k == 1;
    }
    bool typed(const std::string &t, const J &v) {
        if (isType(t, v, draft)) return true;
        if (!weak || v.t != J::Str) return false;
        int64_t i; double d;
        int k = 0;
        if (t == "boolean") return v.s == "true" || v.s == "false";
        if (t == "null") return v.s.empty();
        if (t == "integer") k = weakInt(v.s, i);
        if (t == "number") { k = weakDbl(v.s, d); if (weakInt(v.s, i) < 0) k = -1; }
        if (k < 0) gaveUp = true;
        return k > 0;
    }
    bool eval(const J &s, const J &v0) {
        const J &v = v0;
        J tn, ts, ta, to;
        if (s.t == J::Bool) return s.b;
        if (const J *b = s.find(LBOOL)) return b->b;
        if (const J *r = s.find("$ref")) {
            auto it = labels.find(r->i);
            if (it == labels.end()) throw std::logic_error("reference model: unknown label");
            return ok(*it->second, v);
        }
        const J *k, *k2;
        // any type
        if ((k = s.find("type"))) {
            bool any = false;
            auto one = [&](const J &t) { return t.t == J::Str ? typed(t.s, v) : ok(t, v); };
            if (k->t == J::Arr) { for (auto &t : k->a) if (one(t)) { any = true; break; } }
            else any = one(*k);
            if (!any) return false;
        }
        if ((k = s.find("enum"))) {
            bool any = false;
            for (auto &e : k->a) if (equal(e, v)) any = true;
            if (!any) return false;
        }
        if (draft >= 7 && (k = s.find("const")) && !equal(*k, v)) return false;
        if (draft >= 4) {
            if ((k = s.find("allOf"))) for (auto &e : k->a) if (!ok(e, v)) return false;
            if ((k = s.find("anyOf"))) { bool any = false; for (auto &e : k->a) if (ok(e, v)) { any = true; break; } if (!any) return false; }
            if ((k = s.find("oneOf"))) { int n = 0; for (auto &e : k->a) n += ok(e, v); if (n != 1) return false; }
            if ((k = s.find("not")) && ok(*k, v)) return false;
        }
        if (draft >= 7 && (k = s.find("if"))) {
            if (ok(*k, v)) { if ((k2 = s.find("then")) && !ok(*k2, v)) return false; }
            else if ((k2 = s.find("else")) && !ok(*k2, v)) return false;
        }
        if (draft == 3 && (k = s.find("extends"))) {
            if (k->t == J::Arr) { for (auto &e : k->a) if (!ok(e, v)) return false; }
            else if (!ok(*k, v)) return false;
        }
        // numbers
        if (const J *conv = asNum(v0, tn)) {
            const J &v = *conv;
            if ((k = s.find("minimum"))) {
                int c = numCmp(v, *k);
                k2 = s.find("exclusiveMinimum");
                bool ex = draft < 7 && k2 && k2->b;
                if (c < 0 || (ex && c == 0)) return false;
            }
            if ((k = s.find("maximum"))) {
                int c = numCmp(v, *k);
                k2 = s.find("exclusiveMaximum");
                bool ex = draft < 7 && k2 && k2->b;
                if (c > 0 || (ex && c == 0)) return false;
            }
            if (draft >= 7) {
                if ((k = s.find("exclusiveMinimum")) && numCmp(v, *k) <= 0) return false;
                if ((k = s.find("exclusiveMaximum")) && numCmp(v, *k) >= 0) return false;
            }
            if ((k = s.find(draft == 3 ? "divisibleBy" : "multipleOf"))) {
                bool dec;
                // beyond what a comparison of remainders in double precision settles
                if ((v.t == J::Dbl || k->t == J::Dbl) && std::fabs(v.num()) > 1e9) { gaveUp = true; return true; }
                if (!multipleOfExact(v, *k, dec)) return false;
            }
        }
        if (const J *conv = asStr(v0, ts)) {
            const J &v = *conv;
            size_t n = codePoints(v.s);
            if ((k = s.find("minLength")) && numCmp(J::integer((int64_t)n), *k) < 0) return false;
            if ((k = s.find("maxLength")) && numCmp(J::integer((int64_t)n), *k) > 0) return false;
            if ((k = s.find("pattern")) && !patMatch(k->s, v.s)) return false;
        }
        if (const J *conv = asArr(v0, ta)) {
            const J &v = *conv;
            J n = J::integer((int64_t)v.a.size());
            if ((k = s.find("minItems")) && numCmp(n, *k) < 0) return false;
            if ((k = s.find("maxItems")) && numCmp(n, *k) > 0) return false;
            if ((k = s.find("uniqueItems")) && k->b)
                for (size_t x = 0; x < v.a.size(); x++) for (size_t y = x + 1; y < v.a.size(); y++) if (jeq(v.a[x], v.a[y])) return false;
            if ((k = s.find("items"))) {
                if (k->t == J::Arr) {
                    for (size_t x = 0; x < v.a.size() && x < k->a.size(); x++) if (!ok(k->a[x], v.a[x])) return false;
                    if ((k2 = s.find("additionalItems")))
                        for (size_t x = k->a.size(); x < v.a.size(); x++) {
                            if (k2->t == J::Bool ? !k2->b : !ok(*k2, v.a[x])) return false;
                        }
                } else for (auto &e : v.a) if (!ok(*k, e)) return false;
            }
            if (draft >= 7 && (k = s.find("contains"))) {
                bool any = false;
                for (auto &e : v.a) if (ok(*k, e)) { any = true; break; }
                if (!any) return false;
            }
        }
        if (const J *conv = asObj(v0, to)) {
            const J &v = *conv;
            J n = J::integer((int64_t)v.o.size());
            if (draft >= 4) {
                if ((k = s.find("minProperties")) && numCmp(n, *k) < 0) return false;
                if ((k = s.find("maxProperties")) && numCmp(n, *k) > 0) return false;
                if ((k = s.find("required"))) for (auto &e : k->a) if (!v.find(e.s)) return false;
            }
            const J *props = s.find("properties"), *pats = s.find("patternProperties"), *add = s.find("additionalProperties");
            if (draft == 3 && props)
                for (auto &p : props->o) if (const J *rq = p.second.find("required")) if (rq->b && !p.second.find("$ref") && !v.find(p.first)) return false;
            for (auto &m : v.o) {
                bool covered = false;
                if (props) if (const J *p = props->find(m.first)) { covered = true; if (!ok(*p, m.second)) return false; }
                if (pats) for (auto &p : pats->o) if (patMatch(p.first, m.first)) { covered = true; if (!ok(p.second, m.second)) return false; }
                if (!covered && add && (add->t == J::Bool ? !add->b : !ok(*add, m.second))) return false;
            }
            if (draft >= 7 && (k = s.find("propertyNames"))) for (auto &m : v.o) { if (weak && m.first.empty()) gaveUp = true; if (!ok(*k, J::str(m.first))) return false; }
            if ((k = s.find("dependencies")))
                for (auto &dp : k->o) {
                    if (!v.find(dp.first)) continue;
                    if (dp.second.t == J::Arr) { for (auto &e : dp.second.a) if (!v.find(e.s)) return false; }
                    else if (dp.second.t == J::Str) { if (!v.find(dp.second.s)) return false; }
                    else if (!ok(dp.second, v)) return false;
                }
        }
        return true;
    }
};

}  // namespace vh
