// Where a schema fails in an instance: the places an error may name, and the places some error has to name
#pragma once
#include "ref.hpp"
#include "gen.hpp"

namespace vh {

struct Failures {
    Ref &ref;
    std::set<std::string> may;                     // places at which some applied subschema fails
    std::vector<std::set<std::string>> must;       // for each failing keyword reached through conjunctions: one of these
    std::vector<std::string> mustKw;
    explicit Failures(Ref &r) : ref(r) {}

    void leaf(bool conj, const std::string &kw, std::set<std::string> where) { if (conj) { must.push_back(std::move(where)); mustKw.push_back(kw); } }
    void collect(const J &s, const J &v, const std::string &loc, bool conj) {
        if (ref.ok(s, v)) return;
        may.insert(loc);
        if (s.t == J::Bool) { leaf(conj, "false", {loc}); return; }
        for (auto &kv : s.o) {
            const std::string &k = kv.first;
            const J &x = kv.second;
            if (k == "then" || k == "else" || k == "if") continue;
            J one = J::obj();
            one.set(k, x);
            auto with = [&](const char *c) { if (const J *p = s.find(c)) one.set(c, *p); };
            if (k == "minimum") with("exclusiveMinimum");
            else if (k == "maximum") with("exclusiveMaximum");
            else if ((k == "exclusiveMinimum" || k == "exclusiveMaximum") && ref.draft < 7) continue;
            if (ref.draft >= 7 && k == "minimum") one.erase("exclusiveMinimum");
            if (ref.draft >= 7 && k == "maximum") one.erase("exclusiveMaximum");
            if (k == "additionalItems") continue;
            if (k == "additionalProperties") {
                if (v.t != J::Obj) continue;
                const J *props = s.find("properties"), *pats = s.find("patternProperties");
                for (auto &m : v.o) {
                    bool covered = props && props->find(m.first);
                    if (pats) for (auto &p : pats->o) if (patMatch(p.first, m.first)) covered = true;
                    if (covered) continue;
                    std::string at = loc + "/" + ptrEscape(m.first);
                    if (x.t == J::Bool) { if (!x.b) { may.insert(at); leaf(conj, k, {loc, at}); } }
                    else collect(x, m.second, at, conj);
                }
                continue;
            }
            if (ref.ok(one, v)) { if (k != "items") continue; }
            if (k == "allOf" || k == "extends") {
                // not all of several failing children have to be reported
                int bad = 0;
                if (x.t == J::Arr) { for (auto &e : x.a) bad += !ref.ok(e, v); for (auto &e : x.a) collect(e, v, loc, conj && bad == 1); }
                else collect(x, v, loc, conj);
                if (bad > 1) leaf(conj, k, {loc});
            }
            else if (k == "anyOf" || k == "oneOf" || k == "type") { leaf(conj, k, {loc}); if (x.t == J::Arr) for (auto &e : x.a) if (e.t == J::Obj || e.t == J::Bool) collect(e, v, loc, false); }
            else if (k == "properties") {
                for (auto &p : x.o) {
                    if (const J *m = v.find(p.first)) collect(p.second, *m, loc + "/" + ptrEscape(p.first), conj);
                    else if (const J *rq = ref.draft == 3 ? p.second.find("required") : nullptr) if (rq->b) leaf(conj, "required", {loc});
                }
            } else if (k == "patternProperties") {
                for (auto &p : x.o) for (auto &m : v.o) if (patMatch(p.first, m.first)) collect(p.second, m.second, loc + "/" + ptrEscape(m.first), conj);
            } else if (k == "items") {
                if (v.t != J::Arr) continue;
                const J *add = s.find("additionalItems");
                for (size_t n = 0; n < v.a.size(); n++) {
                    std::string at = loc + "/" + std::to_string(n);
                    if (x.t != J::Arr) collect(x, v.a[n], at, conj);
                    else if (n < x.a.size()) collect(x.a[n], v.a[n], at, conj);
                    else if (add) {
                        if (add->t == J::Bool) { if (!add->b) { may.insert(at); leaf(conj && n == x.a.size(), "additionalItems", {loc, at}); } }
                        else collect(*add, v.a[n], at, conj);
                    }
                }
            } else if (k == "dependencies") {
                for (auto &dp : x.o) {
                    if (!v.find(dp.first)) continue;
                    if (dp.second.t == J::Obj || dp.second.t == J::Bool) collect(dp.second, v, loc, conj);
                    else { J d = J::obj(), w = J::obj(); d.set(dp.first, dp.second); w.set("dependencies", d); if (!ref.ok(w, v)) leaf(conj, k, {loc}); }
                }
            } else if (k == "required" && ref.draft == 3) {}
            else leaf(conj, k, {loc});
        }
        if (const J *c = ref.draft >= 7 ? s.find("if") : nullptr) {
            const J *b = s.find(ref.ok(*c, v) ? "then" : "else");
            if (b) collect(*b, v, loc, conj);
        }
    }
};

// Decodes an RFC 6901 pointer / a context path and walks it in the instance
inline bool ptrTokens(const std::string &p, std::vector<std::string> &out) {
    if (p.empty()) return true;
    if (p[0] != '/') return false;
    out.emplace_back();
    for (size_t n = 1; n < p.size(); n++) {
        if (p[n] == '/') out.emplace_back();
        else if (p[n] == '~') { if (n + 1 >= p.size() || (p[n + 1] != '0' && p[n + 1] != '1')) return false; out.back() += p[++n] == '0' ? '~' : '/'; }
        else out.back() += p[n];
    }
    return true;
}
inline const J *walkTokens(const J &root, const std::vector<std::string> &t) {
    const J *j = &root;
    for (auto &s : t) {
        if (j->t == J::Obj) { j = j->find(s); if (!j) return nullptr; }
        else if (j->t == J::Arr) {
            if (s.empty() || s.size() > 9 || (s.size() > 1 && s[0] == '0')) return nullptr;
            for (char c : s) if (c < '0' || c > '9') return nullptr;
            size_t n = (size_t)std::stoul(s);
            if (n >= j->a.size()) return nullptr;
            j = &j->a[n];
        } else return nullptr;
    }
    return j;
}
inline const J *walkContext(const J &root, const std::vector<std::string> &ctx) {
    if (ctx.empty() || ctx[0] != "<root>") return nullptr;
    const J *j = &root;
    for (size_t n = 1; n < ctx.size(); n++) {
        const std::string &c = ctx[n];
        if (c.size() >= 4 && c.compare(0, 2, "[\"") == 0 && c.compare(c.size() - 2, 2, "\"]") == 0) {
            if (j->t != J::Obj) return nullptr;
            j = j->find(c.substr(2, c.size() - 4));
        } else if (c.size() >= 3 && c[0] == '[' && c.back() == ']') {
            if (j->t != J::Arr) return nullptr;
            j = walkTokens(*j, {c.substr(1, c.size() - 2)});
        } else return nullptr;
        if (!j) return nullptr;
    }
    return j;
}
// "" or what is wrong with the errors of one validation
inline std::string errorsConsistent(const J &inst, const std::vector<Err> &errs) {
    for (auto &e : errs) {
        std::vector<std::string> t;
        if (!ptrTokens(e.ptr, t)) return "the pointer '" + e.ptr + "' is not an RFC 6901 pointer";
        const J *a = walkTokens(inst, t), *b = walkContext(inst, e.ctx);
        std::string c;
        for (auto &x : e.ctx) c += x;
        if (!a) return "the pointer '" + e.ptr + "' does not resolve in the instance (" + e.desc + ")";
        if (!b) return "the context '" + c + "' does not resolve in the instance (" + e.desc + ")";
        if (a != b) return "the pointer '" + e.ptr + "' and the context '" + c + "' name different places";
    }
    return "";
}

}  // namespace vh
