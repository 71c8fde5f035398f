// C22: what a ConstraintVisitor and the accessors of a parsed Schema show is what its document says
#include "sem.hpp"
#include "bulk.hpp"
#include <valijson/constraints/concrete_constraints.hpp>
#include <valijson/constraints/constraint_visitor.hpp>
#include <valijson/schema.hpp>
using namespace vh;
namespace vj = valijson;
namespace vc = valijson::constraints;
using Sub = vj::Subschema;

static const J EMPTY = J::obj();

// One constraint, as it is or as the document says it has to be
struct Part {
    std::string kind;
    J data;                                                       // scalar contents
    std::vector<std::pair<std::string, const Sub *>> subs;        // as it is
    std::vector<std::pair<std::string, const J *>> nodes;         // as it should be (null: no subschema)
    std::vector<const vj::adapters::FrozenValue *> values;
    std::vector<const J *> wanted;
    std::string key() const {
        std::string s = kind + " " + dump(data);
        for (auto &x : subs) s += "\n" + x.first;
        for (auto &x : nodes) s += "\n" + x.first;
        return s;
    }
};
static void sortParts(std::vector<Part> &p) { std::stable_sort(p.begin(), p.end(), [](const Part &a, const Part &b) { return a.key() < b.key(); }); }
static J bound(double d, bool excl) { J o = J::obj(); o.set("bound", J::dbl(d)); o.set("exclusive", J::boolean(excl)); return o; }
static J strs(std::vector<std::string> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); J a = J::arr(); for (auto &s : v) a.a.push_back(J::str(s)); return a; }
static J u64(uint64_t v) { return v <= INT64_MAX ? J::integer((int64_t)v) : J::str(std::to_string(v)); }
template<class S> static std::string toStr(const S &s) { return std::string(s.data(), s.size()); }

// Collects the parts of one constraint; whatever is wrong with the calls goes to bad
struct Reader : vc::ConstraintVisitor {
    std::vector<Part> parts;
    std::string bad;
    size_t stops = 0;
    bool answer = true;
    Part &add(const char *k) { parts.push_back(Part()); parts.back().kind = k; return parts.back(); }
    // calls f with a functor that answers false at the n-th call, for every n
    template<class F> void stopping(const char *what, size_t calls, const F &f) {
        for (size_t n = 1; n <= calls + 1; n++) {
            size_t seen = 0;
            f(n, seen);
            stops++;
            if (seen != std::min(n, calls)) bad = fmt("%s: the functor answered false at call %d of %d and was called %d times", what, (int)n, (int)calls, (int)seen);
        }
    }
    template<class C> void indexed(const C &c, Part &p, const char *what) {
        unsigned want = 0;
        c.applyToSubschemas([&](unsigned i, const Sub *s) { if (i != want++) bad = std::string(what) + ": index out of order"; p.subs.push_back({std::to_string(i), s}); return true; });
        stopping(what, p.subs.size(), [&](size_t n, size_t &seen) { c.applyToSubschemas([&](unsigned, const Sub *) { return ++seen < n; }); });
    }
    bool visit(const vc::AllOfConstraint &c) override { indexed(c, add("allOf"), "allOf"); return answer; }
    bool visit(const vc::AnyOfConstraint &c) override { indexed(c, add("anyOf"), "anyOf"); return answer; }
    bool visit(const vc::OneOfConstraint &c) override { indexed(c, add("oneOf"), "oneOf"); return answer; }
    bool visit(const vc::ConditionalConstraint &c) override { Part &p = add("if"); p.subs = {{"if", c.getIfSubschema()}, {"then", c.getThenSubschema()}, {"else", c.getElseSubschema()}}; return answer; }
    bool visit(const vc::ConstConstraint &c) override { add("const").values.push_back(c.getValue()); return answer; }
    bool visit(const vc::ContainsConstraint &c) override { add("contains").subs = {{"contains", c.getSubschema()}}; return answer; }
    bool visit(const vc::DependenciesConstraint &c) override {
        Part &p = add("dependencies"); p.data = J::obj();
        size_t a = 0;
        c.applyToPropertyDependencies([&](const auto &name, const auto &names) { std::vector<std::string> v; for (auto &n : names) v.push_back(toStr(n)); if (p.data.find(toStr(name))) bad = "dependencies: name twice"; p.data.set(toStr(name), strs(v)); a++; return true; });
        c.applyToSchemaDependencies([&](const auto &name, const Sub *s) { p.subs.push_back({toStr(name), s}); return true; });
        stopping("property dependencies", a, [&](size_t n, size_t &seen) { c.applyToPropertyDependencies([&](const auto &, const auto &) { return ++seen < n; }); });
        stopping("schema dependencies", p.subs.size(), [&](size_t n, size_t &seen) { c.applyToSchemaDependencies([&](const auto &, const Sub *) { return ++seen < n; }); });
        return answer;
    }
    bool visit(const vc::EnumConstraint &c) override {
        Part &p = add("enum");
        c.applyToValues([&](const vj::adapters::FrozenValue &v) { p.values.push_back(&v); return true; });
        stopping("enum", p.values.size(), [&](size_t n, size_t &seen) { c.applyToValues([&](const vj::adapters::FrozenValue &) { return ++seen < n; }); });
        return answer;
    }
    bool visit(const vc::FormatConstraint &c) override { add("format").data = J::str(c.getFormat()); return answer; }
    bool visit(const vc::LinearItemsConstraint &c) override {
        Part &p = add("items list");
        c.applyToItemSubschemas([&](unsigned i, const Sub *s) { if (i != p.subs.size()) bad = "items: index out of order"; p.subs.push_back({std::to_string(i), s}); return true; });
        if (c.getItemSubschemaCount() != p.subs.size()) bad = "items: wrong count";
        size_t n0 = p.subs.size();
        stopping("items", n0, [&](size_t n, size_t &seen) { c.applyToItemSubschemas([&](unsigned, const Sub *) { return ++seen < n; }); });
        p.subs.push_back({"additional", c.getAdditionalItemsSubschema()});
        return answer;
    }
    bool visit(const vc::MaximumConstraint &c) override { add("maximum").data = bound(c.getMaximum(), c.getExclusiveMaximum()); return answer; }
    bool visit(const vc::MinimumConstraint &c) override { add("minimum").data = bound(c.getMinimum(), c.getExclusiveMinimum()); return answer; }
    bool visit(const vc::MaxItemsConstraint &c) override { add("maxItems").data = u64(c.getMaxItems()); return answer; }
    bool visit(const vc::MaxLengthConstraint &c) override { add("maxLength").data = u64(c.getMaxLength()); return answer; }
    bool visit(const vc::MaxPropertiesConstraint &c) override { add("maxProperties").data = u64(c.getMaxProperties()); return answer; }
    bool visit(const vc::MinItemsConstraint &c) override { add("minItems").data = u64(c.getMinItems()); return answer; }
    bool visit(const vc::MinLengthConstraint &c) override { add("minLength").data = u64(c.getMinLength()); return answer; }
    bool visit(const vc::MinPropertiesConstraint &c) override { add("minProperties").data = u64(c.getMinProperties()); return answer; }
    bool visit(const vc::MultipleOfDoubleConstraint &c) override { add("multipleOf").data = J::dbl(c.getDivisor()); return answer; }
    bool visit(const vc::MultipleOfIntConstraint &c) override { add("multipleOf").data = J::integer(c.getDivisor()); return answer; }
    bool visit(const vc::NotConstraint &c) override { add("not").subs = {{"not", c.getSubschema()}}; return answer; }
    bool visit(const vc::PatternConstraint &c) override {
        std::string s = c.getPattern<std::string::allocator_type>(), t;
        if (!c.getPattern(t)) bad = "getPattern answers false";
        if (s != t) bad = "getPattern: two answers";
        add("pattern").data = J::str(s); return answer;
    }
    bool visit(const vc::PolyConstraint &) override { bad = "a custom constraint"; return answer; }
    bool visit(const vc::PropertiesConstraint &c) override {
        Part &p = add("properties"); size_t a = 0, b = 0;
        c.applyToProperties([&](const auto &n, const Sub *s) { p.subs.push_back({"p " + toStr(n), s}); a++; return true; });
        c.applyToPatternProperties([&](const auto &n, const Sub *s) { p.subs.push_back({"r " + toStr(n), s}); b++; return true; });
        p.subs.push_back({"additional", c.getAdditionalPropertiesSubschema()});
        stopping("properties", a, [&](size_t n, size_t &seen) { c.applyToProperties([&](const auto &, const Sub *) { return ++seen < n; }); });
        stopping("patternProperties", b, [&](size_t n, size_t &seen) { c.applyToPatternProperties([&](const auto &, const Sub *) { return ++seen < n; }); });
        return answer;
    }
    bool visit(const vc::PropertyNamesConstraint &c) override { add("propertyNames").subs = {{"propertyNames", c.getSubschema()}}; return answer; }
    bool visit(const vc::RequiredConstraint &c) override {
        std::vector<std::string> v;
        c.applyToRequiredProperties([&](const auto &n) { v.push_back(toStr(n)); return true; });
        Part &p = add("required"); p.data = strs(v);
        if (p.data.a.size() != v.size()) bad = "required: name twice";
        stopping("required", v.size(), [&](size_t n, size_t &seen) { c.applyToRequiredProperties([&](const auto &) { return ++seen < n; }); });
        return answer;
    }
    bool visit(const vc::SingularItemsConstraint &c) override { add("items").subs = {{"items", c.getItemsSubschema()}}; return answer; }
    bool visit(const vc::TypeConstraint &c) override {
        static const char *names[] = {"any", "array", "boolean", "integer", "null", "number", "object", "string"};
        std::vector<std::string> v;
        Part &p = add("type");
        c.applyToNamedTypes([&](vc::TypeConstraint::JsonType t) { v.push_back((unsigned)t < 8 ? names[t] : "?"); return true; });
        c.applyToSchemaTypes([&](unsigned i, const Sub *s) { if (i != p.subs.size()) bad = "type: index out of order"; p.subs.push_back({std::to_string(i), s}); return true; });
        p.data = strs(v);
        if (p.data.a.size() != v.size()) bad = "type: name twice";
        stopping("types", v.size(), [&](size_t n, size_t &seen) { c.applyToNamedTypes([&](vc::TypeConstraint::JsonType) { return ++seen < n; }); });
        stopping("schema types", p.subs.size(), [&](size_t n, size_t &seen) { c.applyToSchemaTypes([&](unsigned, const Sub *) { return ++seen < n; }); });
        return answer;
    }
    bool visit(const vc::UniqueItemsConstraint &) override { add("uniqueItems"); return answer; }
};

// What the document says
static std::vector<Part> expected(int draft, const J &s) {
    std::vector<Part> out;
    auto add = [&](const char *k) -> Part & { out.push_back(Part()); out.back().kind = k; return out.back(); };
    auto typesOf = [&](const J &t) {
        Part &p = add("type");
        std::vector<std::string> v;
        auto one = [&](const J &x) { if (x.t == J::Str) v.push_back(x.s); else p.nodes.push_back({std::to_string(p.nodes.size()), &x}); };
        if (t.t == J::Arr) for (auto &x : t.a) one(x); else one(t);
        p.data = strs(v);
    };
    const J *k;
    if ((k = s.find("type"))) typesOf(*k);
    for (const char *w : {"allOf", "anyOf", "oneOf"}) if ((k = s.find(w))) { Part &p = add(w); for (auto &x : k->a) p.nodes.push_back({std::to_string(p.nodes.size()), &x}); }
    if ((k = s.find("extends"))) { Part &p = add("allOf"); if (k->t == J::Arr) for (auto &x : k->a) p.nodes.push_back({std::to_string(p.nodes.size()), &x}); else p.nodes.push_back({"0", k}); }
    if ((k = s.find("if"))) { Part &p = add("if"); p.nodes = {{"if", k}, {"then", s.find("then")}, {"else", s.find("else")}}; }
    if ((k = s.find("const"))) add("const").wanted.push_back(k);
    if ((k = s.find("enum"))) { Part &p = add("enum"); for (auto &x : k->a) p.wanted.push_back(&x); }
    for (const char *w : {"contains", "not", "propertyNames"}) if ((k = s.find(w))) add(w).nodes = {{w, k}};
    if ((k = s.find("dependencies"))) {
        Part &p = add("dependencies"); p.data = J::obj();
        std::map<std::string, const J *> m; for (auto &x : k->o) m[x.first] = &x.second;
        for (auto &x : m) {
            if (x.second->t == J::Arr) { std::vector<std::string> v; for (auto &e : x.second->a) v.push_back(e.s); p.data.set(x.first, strs(v)); }
            else if (x.second->t == J::Str) p.data.set(x.first, strs({x.second->s}));
            else p.nodes.push_back({x.first, x.second});
        }
    }
    if ((k = s.find("format"))) add("format").data = *k;
    if ((k = s.find("items"))) {
        if (k->t == J::Arr) {
            Part &p = add("items list");
            for (auto &x : k->a) p.nodes.push_back({std::to_string(p.nodes.size()), &x});
            const J *a = s.find("additionalItems");
            p.nodes.push_back({"additional", !a || (a->t == J::Bool && a->b) ? &EMPTY : a->t == J::Bool ? nullptr : a});
        } else add("items").nodes = {{"items", k}};
    }
    for (const char *w : {"maximum", "minimum"}) {
        const J *e = s.find(w[1] == 'a' ? "exclusiveMaximum" : "exclusiveMinimum");
        if ((k = s.find(w))) add(w).data = bound(k->num(), draft < 7 && e && e->b);
        if (draft >= 7 && e) add(w).data = bound(e->num(), true);
    }
    for (const char *w : {"maxItems", "maxLength", "maxProperties", "minItems", "minLength", "minProperties"}) if ((k = s.find(w))) add(w).data = J::integer(k->t == J::Int ? k->i : (int64_t)k->d);
    for (const char *w : {"multipleOf", "divisibleBy"}) if ((k = s.find(w))) add("multipleOf").data = k->t == J::Dbl && integralDouble(k->d) ? J::integer((int64_t)k->d) : *k;
    if ((k = s.find("pattern"))) add("pattern").data = *k;
    const J *pr = s.find("properties"), *pp = s.find("patternProperties"), *ap = s.find("additionalProperties");
    if (pr || pp || ap) {
        std::map<std::string, const J *> m;
        Part &p = add("properties");
        if (pr) for (auto &x : pr->o) m["p " + x.first] = &x.second;
        if (pp) for (auto &x : pp->o) m["r " + x.first] = &x.second;
        for (auto &x : m) p.nodes.push_back({x.first, x.second});
        p.nodes.push_back({"additional", !ap || (ap->t == J::Bool && ap->b) ? &EMPTY : ap->t == J::Bool ? nullptr : ap});
    }
    if (draft == 3) { if (pr) for (auto &x : pr->o) if (x.second.t == J::Obj && !x.second.find("$ref")) if (const J *q = x.second.find("required")) if (q->b) add("required").data = strs({x.first}); }
    else if ((k = s.find("required"))) { std::vector<std::string> v; for (auto &e : k->a) v.push_back(e.s); add("required").data = strs(v); }
    if ((k = s.find("uniqueItems")) && k->b) add("uniqueItems");
    return out;
}

struct Comparer {
    Run &run;
    int draft;
    const J &doc;
    Lib *values;                 // library in which expected values are held
    std::set<std::pair<const Sub *, const J *>> seen;
    std::string bad;
    std::map<const J *, std::unique_ptr<Native>> held;

    const J *resolve(const J *n) {
        for (int hop = 0; n && n->t == J::Obj && hop < 64; hop++) {
            const J *r = n->find("$ref");
            if (!r) return n;
            std::string p = r->s;
            if (p.empty() || p[0] != '#') { auto at = p.find('#'); p = at == std::string::npos ? "" : p.substr(at); }
            n = p.size() < 2 ? &doc : locate(p.substr(1));
        }
        return n;
    }
    const J *locate(std::string p) {
        std::string d;
        for (size_t n = 0; n < p.size(); n++) if (p[n] == '%') { d += (char)std::stoi(p.substr(n + 1, 2), nullptr, 16); n += 2; } else d += p[n];
        const J *j = &doc;
        for (size_t at = 0; at < d.size();) {
            size_t to = d.find('/', at + 1); if (to == std::string::npos) to = d.size();
            std::string t;
            for (size_t n = at + 1; n < to; n++) if (d[n] == '~') { t += d[n + 1] == '1' ? '/' : '~'; n++; } else t += d[n];
            j = j->t == J::Arr ? &j->a.at(std::stoul(t)) : j->find(t);
            if (!j) throw std::logic_error("harness: reference to nothing: " + p);
            at = to;
        }
        return j;
    }
    bool eq(const vj::adapters::FrozenValue *v, const J *w) {
        auto &n = held[w];
        if (!n) n = values->native(*w);
        return v && v->equalTo(n->adapter(), true);
    }
    bool fail(const std::string &at, const std::string &what) { if (bad.empty()) bad = at + ": " + what; return false; }
    bool meta(const Sub &s, const J &n, const std::string &at) {
        struct M { const char *key; bool has; std::string (Sub::*get)() const; };
        for (const M &m : {M{"title", s.hasTitle(), &Sub::getTitle}, M{"description", s.hasDescription(), &Sub::getDescription}, M{draft >= 7 ? "$id" : "id", s.hasId(), &Sub::getId}}) {
            const J *k = n.t == J::Obj ? n.find(m.key) : nullptr;
            if (m.has != (k != nullptr)) return fail(at, std::string(m.key) + (m.has ? " present" : " missing"));
            std::string got; bool threw = false;
            try { got = (s.*m.get)(); } catch (const std::runtime_error &) { threw = true; }
            run.count(k ? "metadata" : "no_metadata");
            if (threw == (k != nullptr)) return fail(at, std::string("get of ") + m.key + (threw ? " throws" : " does not throw"));
            if (k && got != k->s) return fail(at, std::string(m.key) + " is " + dump(J::str(got)));
        }
        return true;
    }
    bool compare(const Sub *s, const J *n0, const std::string &at, bool root = false) {
        if (!s) return fail(at, "no subschema");
        const J *n = resolve(n0);
        if (!seen.insert({s, n}).second) return true;
        run.count("subschemas");
        bool never = n->t == J::Bool && !n->b;
        if (s->getAlwaysInvalid() != never) return fail(at, "getAlwaysInvalid");
        if (!meta(*s, *n, at)) return false;
        std::vector<Part> want = n->t == J::Obj ? expected(draft, *n) : std::vector<Part>();
        Reader r;
        size_t calls = 0;
        Sub::ApplyFunction f([&](const vc::Constraint &c) {
            calls++;
            size_t before = r.parts.size();
            r.answer = calls % 3 != 0;
            bool a = c.accept(r);
            if (a != r.answer || r.parts.size() != before + 1) r.bad = "accept: not one visit, or not its answer";
            // a copy shows the same
            auto copy = c.clone([](size_t z) { return ::operator new(z, std::nothrow); }, ::operator delete);
            Reader q; copy->accept(q);
            r.stops += q.stops;
            if (!q.bad.empty()) r.bad = "clone: " + q.bad;
            if (q.parts.size() != 1) r.bad = "clone: not one visit";
            else {
                const Part &x = q.parts[0], &y = r.parts.back();
                if (x.key() != y.key() || x.subs != y.subs || x.values.size() != y.values.size()) r.bad = "clone: differs";
                for (size_t k = 0; k < x.values.size(); k++) if (n->t == J::Obj) { const J *w = y.kind == "enum" ? n->find("enum") : nullptr; if (w && k < w->a.size() && !eq(x.values[k], &w->a[k])) r.bad = "clone: value differs"; if (y.kind == "const" && !eq(x.values[k], n->find("const"))) r.bad = "clone: value differs"; }
            }
            return a;
        });
        bool all = s->apply(f);
        run.count("constraints", calls);
        run.count("evaluations");
        if (calls != want.size()) return fail(at, fmt("%d constraints, expected %d", (int)calls, (int)want.size()));
        if (all != (calls < 3)) return fail(at, "apply: wrong result");
        if (!r.bad.empty()) return fail(at, r.bad);
        for (size_t stop = 1; stop <= calls + 1; stop++) {
            size_t c2 = 0, c3 = 0;
            Sub::ApplyFunction g([&](const vc::Constraint &) { return ++c2 != stop; }), h([&](const vc::Constraint &) { return ++c3 != stop; });
            bool a = s->applyStrict(g), b = s->apply(h);
            r.stops++;
            if (c2 != std::min(stop, calls) || c3 != calls || a != (stop > calls) || b != (stop > calls)) return fail(at, fmt("apply, applyStrict: false at call %d of %d: %d and %d calls", (int)stop, (int)calls, (int)c3, (int)c2));
        }
        run.count("stops", r.stops);
        sortParts(r.parts); sortParts(want);
        for (size_t k = 0; k < want.size(); k++) {
            Part &g = r.parts[k], &w = want[k];
            run.count("part:" + w.kind);
            if (g.key() != w.key()) return fail(at, "constraint " + g.key() + ", expected " + w.key());
            if (g.values.size() != w.wanted.size()) return fail(at, w.kind + ": number of values");
            for (size_t x = 0; x < g.values.size(); x++) if (!eq(g.values[x], w.wanted[x])) return fail(at, w.kind + ": value " + std::to_string(x));
            for (size_t x = 0; x < g.subs.size(); x++) {
                std::string to = at + "/" + w.kind + ":" + w.nodes[x].first;
                if (!w.nodes[x].second) { if (g.subs[x].second) return fail(to, "a subschema where there is none"); continue; }
                if (!compare(g.subs[x].second, w.nodes[x].second, to)) return false;
            }
        }
        return true;
    }
};

// places of subschemas
struct Places {
    int draft;
    std::vector<std::pair<std::vector<std::string>, J *>> all;
    std::function<void(J &)> note;      // called once everything below was visited (the places are not valid then)
    void walk(J &s, const std::vector<std::string> &path) {
        if (s.t != J::Obj) return;
        auto go = [&](J &x, std::vector<std::string> p) { all.push_back({p, &x}); walk(x, p); if (note) note(x); };
        auto at = [&](std::initializer_list<std::string> m) { auto p = path; p.insert(p.end(), m); return p; };
        for (auto &kv : s.o) {
            const std::string &k = kv.first; J &v = kv.second;
            bool one = k == "additionalProperties" || k == "additionalItems" || k == "items" || k == "not" || k == "contains" || k == "propertyNames" || k == "if" || k == "then" || k == "else" || k == "extends" || (k == "type" && draft == 3);
            bool list = k == "items" || k == "allOf" || k == "anyOf" || k == "oneOf" || k == "extends" || (k == "type" && draft == 3);
            bool map = k == "properties" || k == "patternProperties" || k == "dependencies" || k == "definitions";
            if (one && (v.t == J::Obj || (v.t == J::Bool && draft >= 7))) go(v, at({k}));
            if (list && v.t == J::Arr) for (size_t n = 0; n < v.a.size(); n++) if (v.a[n].t == J::Obj || v.a[n].t == J::Bool) go(v.a[n], at({k, std::to_string(n)}));
            if (map && v.t == J::Obj) for (auto &m : v.o) if (m.second.t == J::Obj || (m.second.t == J::Bool && draft >= 7)) go(m.second, at({k, m.first}));
        }
    }
};

// (an empty object counts as an empty list of names or schemas, which means the same)
static void noEmpty(J &j) {
    for (auto &kv : j.o) {
        if (kv.first == "extends" && kv.second.t == J::Obj && !kv.second.size()) kv.second.set("title", J::str("t"));
        if (kv.first == "dependencies") for (auto &m : kv.second.o) if (m.second.t == J::Obj && !m.second.size()) m.second.set("title", J::str("t"));
        noEmpty(kv.second);
    }
    for (auto &e : j.a) noEmpty(e);
}

static void model(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg;
    cfg.draft = r.chance(50) ? 7 : r.chance(50) ? 4 : 3;
    cfg.oddPct = r.chance(50) ? 15 : 45;
    cfg.keywordNames = false;
    SchemaGen g(cfg, r);
    J doc;
    if (r.chance(12)) {
        Bulk b(r, cfg.draft, run.thorough ? 300 : 70);
        do b.make(); while (b.schema.t != J::Obj);
        doc = b.schema;
        run.count("bulk");
    } else {
        doc = g.schema(run.thorough ? 4 : 3);
        if (doc.t == J::Obj) {
            J defs = J::obj();
            for (int64_t n = r.range(0, 3); n > 0; n--) { J x = g.schema(2); if (x.t == J::Obj || cfg.draft >= 7) defs.set(g.name() + std::to_string(n), x); }
            if (defs.size()) doc.set("definitions", defs);
        }
    }
    bool idRoot = false;
    if (doc.t == J::Obj && !doc.find("$ref")) {
        idRoot = r.chance(30);
        if (idRoot) doc.set(cfg.draft >= 7 ? "$id" : "id", J::str("http://h.example/root.json"));
        // references: the places are collected first, and chains lead to a place that is not a reference
        int tags = 0;
        Places marks{cfg.draft, {}, [&](J &s) {
            if (s.t != J::Obj) return;
            if (r.chance(25)) s.set("title", J::str(g.str()));
            if (r.chance(20)) s.set("description", J::str(g.name()));
            if (r.chance(12)) s.set(cfg.draft >= 7 ? "$id" : "id", J::str("#tag" + std::to_string(tags++)));
            if (r.chance(12)) s.set("format", J::str(r.pick(std::vector<std::string>{"date", "uuid", "x", "ipv4 "})));
        }};
        marks.walk(doc, {});
        if (r.chance(40)) doc.set("title", J::str("root"));
        if (r.chance(30)) doc.set("description", J::str("the root"));
        Places pl{cfg.draft, {}, nullptr};
        pl.walk(doc, {});
        size_t n = pl.all.size();
        // replaced places: leaves of the choice (nothing below them is a target)
        std::vector<size_t> repl;
        for (size_t k = 0; k < n; k++) if (r.chance(12) && pl.all[k].first[0] != "definitions" && !(cfg.draft == 3 && pl.all[k].second->t == J::Obj && pl.all[k].second->find("required"))) repl.push_back(k);
        auto prefix = [&](size_t a, size_t b) { auto &x = pl.all[a].first, &y = pl.all[b].first; return x.size() <= y.size() && std::equal(x.begin(), x.end(), y.begin()); };
        std::vector<size_t> ok;
        for (size_t k = 0; k < n; k++) { bool in = false; for (size_t q : repl) in |= prefix(q, k); if (!in && !(cfg.draft == 3 && pl.all[k].second->t == J::Obj && pl.all[k].second->find("required"))) ok.push_back(k); }
        std::vector<std::pair<size_t, J>> put;
        for (size_t q : repl) {
            bool inside = false; for (size_t o : repl) inside |= o != q && prefix(o, q);
            if (inside) continue;
            std::string t = "#";
            if (!ok.empty() && r.chance(85)) for (auto &x : pl.all[r.pick(ok)].first) t += "/" + fragEncode(ptrEscape(x), r.chance(20) ? &r : nullptr);
            if (idRoot && r.chance(25)) t = (r.chance(50) ? "http://h.example/root.json" : "root.json") + (t == "#" && r.chance(50) ? "" : t);
            J x = J::obj(); x.set("$ref", J::str(t));
            if (r.chance(15)) x.set("title", J::str("beside a reference"));
            put.push_back({q, x});
        }
        for (auto &p : put) { *pl.all[p.first].second = p.second; run.count("references"); }
    }
    Opt opt; opt.draft = cfg.draft;
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    noEmpty(doc);
    std::string ds = dump(doc);
    CompileResult c = lib->compile(doc, opt);
    run.count("schemas");
    run.seen("documents", hashStr(ds));
    if (!c.c) { run.violation("rejected-schema", fmt("%s draft%d: well-formed schema rejected (%s): ", lib->name, cfg.draft, c.what.c_str()) + ds); return; }
    vj::Schema *s = static_cast<vj::Schema *>(c.c->schemaPtr());
    Lib *values = r.chance(50) ? lib : r.pick(typedLibs());
    // (a library that has no 3.0 of its own)
    Comparer a{run, cfg.draft, doc, values, {}, "", {}};
    if (!a.compare(s->root(), &doc, "#", true)) { run.violation("model", fmt("%s draft%d: ", lib->name, cfg.draft) + a.bad + ": schema " + ds); return; }
    // an empty subschema has no constraints and cannot be changed
    size_t calls = 0;
    Sub::ApplyFunction f([&](const vc::Constraint &) { calls++; return false; });
    bool none = s->emptySubschema()->apply(f) && s->emptySubschema()->applyStrict(f) && !calls && !s->emptySubschema()->getAlwaysInvalid();
    if (!none) { run.violation("empty", fmt("%s: the empty subschema has constraints: schema ", lib->name) + ds); return; }
    // the same after it was moved, twice
    vj::Schema moved(std::move(*s));
    Comparer b{run, cfg.draft, doc, values, {}, "", {}};
    if (!b.compare(moved.root(), &doc, "#", true)) { run.violation("model-moved", fmt("%s draft%d, moved: ", lib->name, cfg.draft) + b.bad + ": schema " + ds); return; }
    *s = std::move(moved);
    Comparer d{run, cfg.draft, doc, values, {}, "", {}};
    if (!d.compare(s->root(), &doc, "#", true)) { run.violation("model-moved", fmt("%s draft%d, moved back: ", lib->name, cfg.draft) + d.bad + ": schema " + ds); return; }
    run.count("moved", 2);
}
int main(int argc, char **argv) { return harnessMain(argc, argv, [](Run &run, uint64_t idx, Rng &r) { model(run, idx, r); }); }
