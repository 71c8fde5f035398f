// C19: custom constraints, custom regular expression engines, schemas assembled through the public classes
#include "sem.hpp"
#include "errs.hpp"
#include "libt.hpp"
#include "lib_rapidjson.cpp"
#include "lib_nlohmann.cpp"
#include "lib_picojson.cpp"
#include <valijson/constraints/concrete_constraints.hpp>
#include <set>
#include <algorithm>
using namespace vh;
namespace vj = valijson;
namespace vc = valijson::constraints;
using RTr = vh::RapidTr<rapidjson::Value>;

static bool scalarJ(const vj::adapters::Adapter &e, J &out) {
    if (e.isNull()) out = J();
    else if (e.isBool()) out = J::boolean(e.getBool());
    else if (e.isInteger()) out = J::integer(e.getInteger());
    else if (e.isDouble()) out = J::dbl(e.getDouble());
    else if (e.isString()) out = J::str(e.getString());
    else return false;
    return true;
}
static J read(const vj::adapters::Adapter &a) {
    J j;
    if (scalarJ(a, j)) return j;
    if (a.isArray()) { j = J::arr(); a.applyToArray([&](const vj::adapters::Adapter &e) { j.a.push_back(read(e)); return true; }); return j; }
    j = J::obj();
    a.applyToObject([&](const std::string &k, const vj::adapters::Adapter &e) { j.o.emplace_back(k, read(e)); return true; });
    return j;
}

// (libraries keep members in different orders)
static J sorted(J j) {
    for (auto &e : j.a) e = sorted(e);
    for (auto &kv : j.o) kv.second = sorted(kv.second);
    std::stable_sort(j.o.begin(), j.o.end(), [](auto &x, auto &y) { return x.first < y.first; });
    return j;
}
static std::string canon(const J &j) { return dump(sorted(j)); }
// ---------------------------------------------------------------- custom constraints
// The value of a custom keyword is {"id": n, "kw": keyword, "v": operand}: the instance must satisfy {keyword: operand}.
struct Call { int64_t id; std::string ptr; std::string text; bool answer; bool results; };
static std::string pathPtr(const vj::ValidationResults::Path &p) {
    std::string o;
    for (auto &s : p) o += "/" + ptrEscape(s.name);
    return o;
}
static struct Log {
    std::vector<Call> calls;
    std::vector<std::pair<int, std::string>> made;      // builder, value
    int constraints = 0, builders = 0;                  // alive
    int makeThrows = -1, copyThrows = -1;               // n-th from now
    int throwIn = -1;                                   // validate call that throws
    int draft = 7;
} lg;
struct Injected : std::runtime_error { Injected() : std::runtime_error("injected") {} };

struct Custom : vc::PolyConstraint {
    int builder; J operand;
    std::vector<int64_t> ballast;       // something that must be copied and destroyed properly
    Custom(int b, J o) : builder(b), operand(std::move(o)), ballast(20, b) { lg.constraints++; }
    Custom(const Custom &c) : vc::PolyConstraint(), builder(c.builder), operand(c.operand), ballast(c.ballast) { lg.constraints++; }
    ~Custom() override { lg.constraints--; }
    Constraint *cloneInto(void *p) const override { if (lg.copyThrows >= 0 && lg.copyThrows-- == 0) throw Injected(); return new (p) Custom(*this); }
    size_t sizeOf() const override { return sizeof(Custom); }
    bool validate(const vj::adapters::Adapter &target, const vj::ValidationResults::Path &path, vj::ValidationResults *results) const override {
        if (lg.throwIn >= 0 && lg.throwIn-- == 0) throw Injected();
        J v = read(target);
        const J *id = operand.find("id");
        J one = J::obj();
        one.set(operand.find("kw")->s, *operand.find("v"));
        Ref ref(lg.draft);
        bool ok = ref.ok(one, v);
        lg.calls.push_back({id->i, pathPtr(path), canon(v), ok, results != nullptr});
        if (!ok && results) results->pushError(path, "custom " + std::to_string(id->i));
        return ok;
    }
};
struct Builder : vj::ConstraintBuilder {
    int id;
    explicit Builder(int n) : id(n) { lg.builders++; }
    ~Builder() override { lg.builders--; }
    vc::Constraint *make(const vj::adapters::Adapter &a) const override {
        J v = read(a);
        lg.made.emplace_back(id, canon(v));
        if (lg.makeThrows >= 0 && lg.makeThrows-- == 0) throw Injected();
        return new Custom(id, v);
    }
};

static J model(const J &s, const std::set<std::string> &keys, int draft) {
    // rewrites custom keywords to the standard keyword they stand for
    if (s.t != J::Obj) return s;
    J o = J::obj(), extra = J::arr();
    auto list = [&](const J &x) { J y = J::arr(); for (auto &e : x.a) y.a.push_back(model(e, keys, draft)); return y; };
    auto map = [&](const J &x) { J y = J::obj(); for (auto &kv : x.o) y.o.emplace_back(kv.first, kv.second.t == J::Arr || kv.second.t == J::Str ? kv.second : model(kv.second, keys, draft)); return y; };
    for (auto &kv : s.o) {
        const std::string &k = kv.first;
        if (keys.count(k)) { J e = J::obj(); e.set(kv.second.find("kw")->s, *kv.second.find("v")); extra.a.push_back(e); continue; }
        static const std::set<std::string> lists = {"allOf", "anyOf", "oneOf"}, maps = {"properties", "patternProperties", "dependencies"},
            subs = {"additionalProperties", "additionalItems", "contains", "propertyNames", "not", "if", "then", "else"};
        if (lists.count(k)) o.set(k, list(kv.second));
        else if (maps.count(k)) o.set(k, map(kv.second));
        else if (subs.count(k)) o.set(k, model(kv.second, keys, draft));
        else if (k == "items" || k == "extends" || (k == "type" && draft == 3)) o.set(k, kv.second.t == J::Arr ? list(kv.second) : model(kv.second, keys, draft));
        else o.set(k, kv.second);
    }
    if (extra.a.empty()) return o;
    const char *conj = draft == 3 ? "extends" : "allOf";
    if (J *p = o.find(conj)) { J old = *p; if (old.t == J::Arr) { for (auto &e : old.a) extra.a.push_back(e); } else extra.a.push_back(old); o.erase(conj); }
    o.set(conj, extra);
    return o;
}

// where each custom keyword may be consulted, and where it must be if the instance is valid
struct Spots {
    Ref &ref;
    const std::set<std::string> &keys;
    std::set<std::string> may;                  // "id|ptr|value"
    std::set<std::string> must;
    std::set<int64_t> names;                    // ids below propertyNames: their path is not judged
    std::function<J(const J &)> mod;
    int draft;
    bool forks = false;                         // allOf with several children: only one need be looked at
    void walk(const J &s, const J &v, const std::string &loc, bool conj, bool inNames) {
        if (s.t != J::Obj) return;
        for (auto &kv : s.o) {
            const std::string &k = kv.first;
            const J &x = kv.second;
            if (keys.count(k)) {
                int64_t id = x.find("id")->i;
                std::string e = std::to_string(id) + "|" + (inNames ? "" : loc) + "|" + canon(v);
                if (inNames) names.insert(id);
                may.insert(e);
                if (conj) must.insert(e);
                continue;
            }
            if (k == "properties") { if (v.t == J::Obj) for (auto &p : x.o) if (const J *m = v.find(p.first)) walk(p.second, *m, loc + "/" + ptrEscape(p.first), conj, inNames); }
            else if (k == "patternProperties") { if (v.t == J::Obj) for (auto &p : x.o) for (auto &m : v.o) if (patMatch(p.first, m.first)) walk(p.second, m.second, loc + "/" + ptrEscape(m.first), conj, inNames); }
            else if (k == "additionalProperties") {
                const J *props = s.find("properties"), *pats = s.find("patternProperties");
                if (v.t == J::Obj) for (auto &m : v.o) {
                    bool covered = props && props->find(m.first);
                    if (pats) for (auto &p : pats->o) covered = covered || patMatch(p.first, m.first);
                    if (!covered) walk(x, m.second, loc + "/" + ptrEscape(m.first), conj, inNames);
                }
            } else if (k == "items") {
                if (v.t == J::Arr) for (size_t n = 0; n < v.a.size(); n++) {
                    std::string at = loc + "/" + std::to_string(n);
                    if (x.t != J::Arr) walk(x, v.a[n], at, conj, inNames);
                    else if (n < x.a.size()) walk(x.a[n], v.a[n], at, conj, inNames);
                    else if (const J *a = s.find("additionalItems")) walk(*a, v.a[n], at, conj, inNames);
                }
            } else if (k == "contains") { if (v.t == J::Arr) for (size_t n = 0; n < v.a.size(); n++) walk(x, v.a[n], loc + "/" + std::to_string(n), false, inNames); }
            else if (k == "propertyNames") { if (v.t == J::Obj) for (auto &m : v.o) walk(x, J::str(m.first), loc, conj, true); }
            else if (k == "allOf") { for (auto &e : x.a) walk(e, v, loc, conj, inNames); forks |= x.a.size() > 1; }
            else if (k == "extends") { if (x.t == J::Arr) { for (auto &e : x.a) walk(e, v, loc, conj, inNames); forks |= x.a.size() > 1; } else walk(x, v, loc, conj, inNames); }
            else if (k == "anyOf" || k == "oneOf") for (auto &e : x.a) walk(e, v, loc, k == "oneOf" && false, inNames);
            else if (k == "not") walk(x, v, loc, false, inNames);
            else if (k == "type" && draft == 3 && x.t == J::Arr) for (auto &e : x.a) walk(e, v, loc, false, inNames);
            else if (k == "dependencies") { if (v.t == J::Obj) for (auto &d : x.o) if (v.find(d.first)) walk(d.second, v, loc, conj, inNames); }
            else if (k == "if") {
                walk(x, v, loc, false, inNames);
                const J *b = s.find(ref.ok(mod(x), v) ? "then" : "else");
                if (b) walk(*b, v, loc, conj, inNames);
            }
        }
    }
};
static void subschemas(J &s, int draft, const std::function<void(J &)> &fn) {
    if (s.t != J::Obj) return;
    for (auto &kv : s.o) {
        const std::string &k = kv.first;
        J &x = kv.second;
        static const std::set<std::string> lists = {"allOf", "anyOf", "oneOf"}, maps = {"properties", "patternProperties", "dependencies"},
            subs = {"additionalProperties", "additionalItems", "contains", "propertyNames", "not", "if", "then", "else"};
        if (maps.count(k)) { for (auto &m : x.o) if (m.second.t == J::Obj) subschemas(m.second, draft, fn); }
        else if (lists.count(k) || ((k == "items" || k == "extends" || (k == "type" && draft == 3)) && x.t == J::Arr)) { for (auto &e : x.a) if (e.t == J::Obj) subschemas(e, draft, fn); }
        else if (subs.count(k) || k == "items" || k == "extends") { if (x.t == J::Obj) subschemas(x, draft, fn); }
    }
    fn(s);
}

template <class Tr> struct Pack {
    using Doc = typename Tr::Doc;
    static void populate(vj::SchemaParser &p, vj::Schema &s, const J &j) { Doc d = Tr::build(j); p.populateSchema(Tr::adapt(d), s); }
    template <class V> static Outcome validate(V &vd, const vj::Schema &s, const J &j, bool results) {
        Doc d = Tr::build(j);
        Outcome out;
        vj::ValidationResults r;
        try { out.valid = vd.validate(s, Tr::adapt(d), results ? &r : nullptr); }
        catch (const Injected &) { out.threw = true; out.what = "injected"; }
        catch (const std::exception &e) { out.threw = true; out.what = e.what(); }
        for (auto &e : r) out.errs.push_back({e.context, e.description, e.jsonPointer});
        return out;
    }
};
using NTr = vh::NlohmannTr;
using PTr = vh::PicoTr;
static void populate(int lib, vj::SchemaParser &p, vj::Schema &s, const J &j) { if (lib == 0) Pack<RTr>::populate(p, s, j); else if (lib == 1) Pack<NTr>::populate(p, s, j); else Pack<PTr>::populate(p, s, j); }
template <class V> static Outcome validate(int lib, V &v, const vj::Schema &s, const J &j, bool results) { return lib == 0 ? Pack<RTr>::validate(v, s, j, results) : lib == 1 ? Pack<NTr>::validate(v, s, j, results) : Pack<PTr>::validate(v, s, j, results); }

static void custom(Run &run, uint64_t, Rng &r) {
    static const std::vector<int> drafts = {7, 7, 4, 3};
    GenCfg cfg; cfg.draft = lg.draft = r.pick(drafts); cfg.maxDepth = 3; cfg.integralDbl = cfg.draft == 7; cfg.keywordNames = false;
    SchemaGen g(cfg, r);
    J schema = g.schema(3);
    if (schema.t != J::Obj) return;
    // the keys of the custom keywords; two builders may share one
    static const std::vector<std::string> all = {"x-check", "even", "$custom", "", "a/b", "x~0", "default", "examples", "Minimum", "min", "%41", "\xC3\xA9t\xC3\xA9"};
    int nb = (int)r.range(1, 3);
    std::vector<std::string> key;
    for (int n = 0; n < nb; n++) key.push_back(n && r.chance(20) ? key[0] : r.pick(all));
    std::set<std::string> keys(key.begin(), key.end());
    int64_t id = 0;
    int percent = (int)r.range(20, 80);
    std::map<int64_t, std::string> occ;      // id -> text of the keyword's value
    std::map<int64_t, std::string> occKey;
    subschemas(schema, cfg.draft, [&](J &s) {
        for (auto &k : keys) {
            s.erase(k);
            if (!r.chance(percent)) continue;
            static const std::vector<std::string> kws = {"type", "enum", "minimum", "maximum", "minLength", "maxLength", "minItems", "maxItems", "uniqueItems", "pattern"};
            std::string kw = r.pick(kws);
            J v = kw == "type" ? J::str(g.typeName()) : kw == "enum" ? J::arr({g.value(1), g.value(0), g.value(0)}) : kw == "minimum" || kw == "maximum" ? J::integer(r.range(-3, 6)) : kw == "uniqueItems" ? J::boolean(true)
                : kw == "pattern" ? J::str(g.pattern()) : J::integer(r.range(kw[1] == 'a' ? 1 : 0, kw[1] == 'a' ? 6 : 2));
            J o = J::obj(); o.set("id", J::integer(id)); o.set("kw", J::str(kw)); o.set("v", v);
            s.o.insert(s.o.begin() + (long)r.below(s.o.size() + 1), {k, o});
            occ[id] = canon(o); occKey[id] = k;
            id++;
        }
    });
    if (occ.empty()) return;
    int schemaLib = (int)r.below(3);
    // (a keyword in no reachable place: 'then' without 'if', additionalItems without items - or whose value is no array)
    lg.calls.clear(); lg.made.clear(); lg.makeThrows = lg.copyThrows = lg.throwIn = -1;
    if (lg.constraints || lg.builders) { run.violation("leak", fmt("%d custom constraints and %d builders are alive before the case", lg.constraints, lg.builders)); return; }
    std::string about = fmt("draft%d %s keys", cfg.draft, schemaLib == 0 ? "rapidjson" : schemaLib == 1 ? "nlohmann" : "picojson");
    for (auto &k : key) about += " '" + k + "'";
    about += ": schema " + dump(schema);
    if (r.chance(15)) {
        // a builder, or the copy of its constraint, fails
        bool make = r.chance(50);
        (make ? lg.makeThrows : lg.copyThrows) = (int)r.below(4);
        bool threw = false;
        {
            vj::Schema s;
            vj::SchemaParser p(draftOf(cfg.draft));
            for (int n = 0; n < nb; n++) p.addConstraintBuilder(key[(size_t)n], new Builder(n));
            try { populate(schemaLib, p, s, schema); } catch (const Injected &) { threw = true; }
            if (lg.builders != nb) { run.violation("builders", fmt("%d of %d builders are left: ", lg.builders, nb) + about); return; }
        }
        run.count("builder_failures", threw);
        if (!threw && (make ? lg.makeThrows : lg.copyThrows) < 0) { run.violation("swallowed", "the exception of a " + std::string(make ? "builder" : "constraint's copy") + " is lost: " + about); return; }
        lg.makeThrows = lg.copyThrows = -1;
        if (lg.constraints || lg.builders) { run.violation("leak", fmt("%d custom constraints and %d builders are left after a failing %s: ", lg.constraints, lg.builders, make ? "builder" : "copy") + about); return; }
        lg.made.clear();
    }
    {
    vj::Schema compiled;
    {
        vj::SchemaParser p(draftOf(cfg.draft));
        for (int n = 0; n < nb; n++) p.addConstraintBuilder(key[(size_t)n], new Builder(n));
        try { populate(schemaLib, p, compiled, schema); }
        catch (const std::exception &e) { run.violation("rejected", std::string(e.what()) + ": " + about); return; }
        if (lg.builders != nb) run.violation("builders", fmt("%d of %d builders are left: ", lg.builders, nb) + about);
    }
    if (lg.builders) { run.violation("builders", fmt("%d builders outlive their parser: ", lg.builders) + about); return; }
    run.count("schemas");
    // every builder saw its keywords: each value it was given is that of an occurrence of its key
    {
        std::map<std::pair<int, std::string>, int> made;
        for (auto &m : lg.made) made[m]++;
        std::set<int64_t> seenIds;
        for (auto &m : made) {
            J v = parse(m.first.second);
            const J *i = v.find("id");
            if (!i || !occ.count(i->i) || occ[i->i] != m.first.second || occKey[i->i] != key[(size_t)m.first.first]) { run.violation("made", "a builder was given " + m.first.second + ", which is not the value of its keyword: " + about); return; }
            seenIds.insert(i->i);
        }
        // what is made is made by all the builders of the key
        for (int64_t i : seenIds) for (int n = 0; n < nb; n++) if (key[(size_t)n] == occKey[i] && !made.count({n, occ[i]})) { run.violation("made", fmt("builder %d was not asked for keyword %d: ", n, (int)i) + about); return; }
        run.count("made", lg.made.size());
    }
    auto mod = [&](const J &s) { return model(s, keys, cfg.draft); };
    J flat = mod(schema);
    InstGen ig(g, nullptr);
    vj::Validator vd(vj::Validator::kStrongTypes, r.chance(50) ? vj::Validator::kStrictDateTime : vj::Validator::kPermissiveDateTime);
    J last;
    int seen = 0;
    std::vector<uint64_t> hs;
    for (int n = 0; n < 10; n++) {
        J inst = n < 6 ? ig.make(flat, 3) : n < 9 ? ig.mutate(last, 2) : g.value(2);
        last = inst;
        if (!cfg.integralDbl && hasIntegralDbl(inst)) continue;
        Ref ref(cfg.draft);
        bool want = ref.ok(flat, inst);
        if (ref.gaveUp) continue;
        int lib = r.chance(60) ? schemaLib : (int)r.below(3);
        if (r.chance(7)) {      // an exception of a custom constraint reaches the caller, and leaves nothing behind
            lg.throwIn = (int)r.below(4);
            Outcome o = validate(lib, vd, compiled, inst, r.chance(50));
            if (o.threw) run.count("custom_exceptions");
            if (o.threw != (lg.throwIn < 0) || (o.threw && o.what != "injected")) { run.violation("exception", "an exception of a custom constraint does not reach the caller: " + about + " instance " + dump(inst)); return; }
            lg.throwIn = -1;
        }
        Spots sp{ref, keys, {}, {}, {}, mod, cfg.draft};
        sp.walk(schema, inst, "", true, false);
        seen |= want ? 1 : 2;
        hs.push_back(hashStr(about + dump(inst)));
        for (int results = 0; results < 2; results++) {
            lg.calls.clear();
            Outcome o = validate(lib, vd, compiled, inst, results);
            run.count("evaluations");
            run.count(want ? "valid" : "invalid");
            std::string text = about + (results ? " with results" : "") + " instance " + dump(inst);
            if (o.threw || o.valid != want) { run.violation("verdict", fmt("expected %s, got %s: ", tf(want), o.threw ? o.what.c_str() : tf(o.valid)) + text); return; }
            std::set<std::string> got;
            for (auto &c : lg.calls) {
                std::string e = std::to_string(c.id) + "|" + (sp.names.count(c.id) ? "" : c.ptr) + "|" + c.text;
                run.count("calls");
                if (!sp.may.count(e)) { run.violation("called", fmt("custom keyword %d is given the value ", (int)c.id) + c.text + " at '" + c.ptr + "': " + text); return; }
                got.insert(e);
                run.seen("calls", hashStr(e + about));
            }
            if (want) for (auto &m : sp.must) if (!got.count(m)) { run.violation("not-called", "custom keyword not consulted: " + m + ": " + text); return; }
            if (results) {
                std::string bad = errorsConsistent(inst, o.errs);
                if (!bad.empty()) { run.violation("errors", bad + ": " + text); return; }
                // what failed outside alternatives is among the errors
                for (auto &c : lg.calls) {
                    std::string e = std::to_string(c.id) + "|" + c.ptr + "|" + c.text;
                    if (c.answer || !sp.must.count(e) || sp.forks || sp.names.count(c.id)) continue;
                    bool there = false;
                    for (auto &x : o.errs) there = there || (x.ptr == c.ptr && x.desc == "custom " + std::to_string(c.id));
                    if (!there) { run.violation("not-reported", fmt("custom keyword %d failed at '%s' but its error is not there: ", (int)c.id, c.ptr.c_str()) + text + " errors " + errText(o.errs)); return; }
                    run.count("errors");
                }
                for (auto &x : o.errs) if (x.desc.compare(0, 7, "custom ") == 0) {
                    bool there = false;
                    for (auto &c : lg.calls) there = there || (!c.answer && x.ptr == c.ptr && x.desc == "custom " + std::to_string(c.id));
                    if (!there) { run.violation("invented", "error that no custom constraint reported: " + text + " errors " + errText(o.errs)); return; }
                }
            }
        }
    }
    if (seen == 3) for (auto h : hs) run.seen("pairs", h);
    if (r.chance(20)) {     // moved, and used again
        vj::Schema other(std::move(compiled));
        Ref ref(cfg.draft);
        bool want = ref.ok(flat, last);
        Outcome o = validate(schemaLib, vd, other, last, false);
        if (!ref.gaveUp && !(hasIntegralDbl(last) && !cfg.integralDbl) && (o.threw || o.valid != want)) { run.violation("moved", "after a move: expected " + std::string(tf(want)) + ": " + about + " instance " + dump(last)); return; }
    }
    }
    if (lg.constraints) { run.violation("leak", fmt("%d custom constraints are alive after their schema: ", lg.constraints) + about); lg.constraints = 0; }
}

// ---------------------------------------------------------------- custom regular expression engines
static int engineKind = 0;
static size_t searches = 0, engines = 0;
static bool decide(const std::string &re, const std::string &s) {
    switch (engineKind) {
    case 0: return s.find(re) != std::string::npos;                  // a literal part
    case 1: return s == re;                                          // the whole
    case 2: return s.size() >= re.size();                            // nothing like a pattern at all
    case 3: return !patMatch(re, s);                                 // the opposite
    case 4: return (hashStr(re) ^ hashStr(s)) & 1;                   // arbitrary, but fixed
    default: return s.size() >= re.size() && s.compare(s.size() - re.size(), re.size(), re) == 0;
    }
}
static bool decideRef(const std::string &re, const std::string &s) { PatHook h = patHook(); patHook() = nullptr; bool b = decide(re, s); patHook() = h; return b; }
struct Engine {
    std::string re;
    static int alive;
    Engine(const std::string &p) : re(p) { engines++; alive++; if (p == "\\d\\d" && engineKind == 5) { alive--; throw Injected(); } }
    Engine(const Engine &e) : re(e.re) { alive++; }
    ~Engine() { alive--; }
    static bool search(const std::string &s, const Engine &e) { searches++; return decideRef(e.re, s); }
};
int Engine::alive = 0;

static void regex(Run &run, uint64_t, Rng &r) {
    GenCfg cfg; cfg.draft = r.chance(70) ? 7 : 4; cfg.integralDbl = false;
    SchemaGen g(cfg, r);
    engineKind = (int)r.below(6);
    J schema = J::obj();
    // mostly patterns
    auto strings = [&] { J s = J::obj(); s.set("pattern", J::str(g.pattern())); return s; };
    for (int n = (int)r.range(1, 3); n > 0; n--) switch (r.below(6)) {
        case 0: { J p = J::obj(); for (int64_t m = r.range(1, 3); m > 0; m--) p.set(g.pattern(), r.chance(50) ? strings() : g.sub(1, true)); schema.set("patternProperties", p); if (r.chance(50)) schema.set("additionalProperties", J::boolean(false)); break; }
        case 1: schema.set("pattern", J::str(g.pattern())); break;
        case 2: schema.set("items", strings()); break;
        case 3: if (cfg.draft == 7) schema.set("propertyNames", strings()); break;
        case 4: { J p = J::obj(); p.set(g.name(), strings()); schema.set("properties", p); break; }
        default: schema.set(r.pick(std::vector<std::string>{"anyOf", "allOf", "oneOf"}), J::arr({strings(), g.sub(1, false)}));
    }
    auto hasPat = [&](const J &s) { return dump(s).find("attern") != std::string::npos; };
    if (!hasPat(schema)) return;
    vj::Schema compiled;
    vj::SchemaParser p(draftOf(cfg.draft));
    int lib = (int)r.below(3);
    populate(lib, p, compiled, schema);
    run.count("schemas");
    InstGen ig(g, nullptr);
    int seen = 0;
    std::vector<uint64_t> hs;
    {
        vj::ValidatorT<Engine> vd;
        for (int n = 0; n < 10; n++) {
            J inst = r.chance(40) ? J::str(r.chance(40) ? g.pattern() : g.str()) : r.chance(50) ? J::arr({J::str(g.str()), J::str(g.pattern())}) : ig.make(schema, 2);
            if (inst.t == J::Obj && r.chance(50)) inst.set(g.pattern(), J::str(r.chance(50) ? g.pattern() : g.str()));
            if (hasIntegralDbl(inst)) continue;
            Ref ref(cfg.draft);
            patHook() = engineKind == 5 ? [](const std::string &a, const std::string &b) -> bool { if (a == "\\d\\d") throw Injected(); return decideRef(a, b); } : decideRef;
            bool want = false, may = false;      // may: the engine can refuse a pattern
            try { want = ref.ok(schema, inst); } catch (const Injected &) { may = true; }
            if (engineKind == 5 && dump(schema).find("d\\\\d") != std::string::npos) may = true;
            patHook() = nullptr;
            if (ref.gaveUp) continue;
            bool results = r.chance(50);
            size_t before = searches;
            Outcome o = validate(lib, vd, compiled, inst, results);
            run.count("evaluations");
            run.count("searches", searches - before);
            if (o.threw && may && o.what == "injected") { run.count("refused_patterns"); continue; }
            if (may) continue;
            run.count(want ? "valid" : "invalid");
            seen |= want ? 1 : 2;
            hs.push_back(hashStr(dump(schema) + dump(inst)) + (uint64_t)engineKind);
            if (o.threw || o.valid != want) { run.violation("engine", fmt("engine %d: expected %s, got %s: schema ", engineKind, tf(want), o.threw ? o.what.c_str() : tf(o.valid)) + dump(schema) + " instance " + dump(inst)); return; }
        }
    }
    if (Engine::alive) { run.violation("leak", fmt("%d engines outlive their validator", Engine::alive)); Engine::alive = 0; }
    if (seen == 3) for (auto h : hs) run.seen("pairs", h);
}

// ---------------------------------------------------------------- schemas assembled by hand
static std::map<void *, size_t> blocks;
static size_t badFree = 0;
static void *cAlloc(size_t n) { void *p = malloc(n); blocks[p] = n; return p; }
static void cFree(void *p) { if (!p) return; if (!blocks.erase(p)) badFree++; free(p); }
using CStr = std::basic_string<char, std::char_traits<char>, vj::internal::CustomAllocator<char>>;

struct Hand {
    vj::Schema &schema;
    int draft;
    Rng &r;
    bool customAlloc;
    std::map<std::string, const vj::Subschema *> shared;
    size_t constraints = 0, sharings = 0;

    template <class C> C mk() { if constexpr (std::is_constructible_v<C, void *(*)(size_t), void (*)(void *)>) { if (customAlloc && r.chance(60)) return C(cAlloc, cFree); } return C(); }
    template <class C> void put(const C &c, const vj::Subschema *s) { constraints++; schema.addConstraintToSubschema(c, s); }
    const vj::Subschema *sub(const J &s) {
        if (const J *ref = s.find("$ref")) { (void)ref; return schema.root(); }
        if (((s.t == J::Bool && s.b) || (s.t == J::Obj && s.o.empty())) && r.chance(60)) return schema.emptySubschema();
        std::string key = dump(s);
        auto it = shared.find(key);
        if (it != shared.end() && r.chance(70)) { sharings++; return it->second; }
        const vj::Subschema *x = schema.createSubschema();
        shared[key] = x;
        // what is in it can be put there now or when everything that refers to it is complete
        if (r.chance(30)) later.push_back([this, s, x] { fill(s, x); }); else fill(s, x);
        return x;
    }
    std::vector<std::function<void()>> later;
    std::string utf(const std::string &s) { return s; }
    void fill(const J &s, const vj::Subschema *at) {
        if (s.t == J::Bool) { if (!s.b) schema.setAlwaysInvalid(at, true); else if (r.chance(20)) { schema.setAlwaysInvalid(at, true); schema.setAlwaysInvalid(at, false); } return; }
        bool props = false, items = false;
        std::vector<std::pair<std::string, const J *>> kws;
        for (auto &kv : s.o) kws.emplace_back(kv.first, &kv.second);
        for (size_t n = kws.size(); n > 1; n--) std::swap(kws[n - 1], kws[r.below(n)]);
        for (auto &kw : kws) {
            const std::string &k = kw.first;
            const J &x = *kw.second;
            if (k == "type") {
                auto c = mk<vc::TypeConstraint>();
                auto one = [&](const J &t) { if (t.t == J::Str) c.addNamedType(vc::TypeConstraint::jsonTypeFromString(t.s)); else c.addSchemaType(sub(t)); };
                if (x.t == J::Arr) for (auto &t : x.a) one(t); else one(x);
                put(c, at);
            } else if (k == "enum") {
                auto c = mk<vc::EnumConstraint>();
                for (auto &e : x.a) {
                    if (r.chance(50)) { RTr::Doc d = RTr::build(e); c.addValue(RTr::adapt(d)); }
                    else { NTr::Doc d = NTr::build(e); std::unique_ptr<vj::adapters::FrozenValue> f(NTr::adapt(d).freeze()); c.addValue(*f); }
                }
                put(c, at);
            } else if (k == "const") { auto c = mk<vc::ConstConstraint>(); PTr::Doc d = PTr::build(x); if (r.chance(20)) { PTr::Doc e = PTr::build(J::str("other")); c.setValue(PTr::adapt(e)); } c.setValue(PTr::adapt(d)); put(c, at); }
            else if (k == "minimum" || k == "maximum" || k == "exclusiveMinimum" || k == "exclusiveMaximum") {
                bool min = k.find("in") != std::string::npos && k.find("Max") == std::string::npos && k[1] != 'a';
                bool excl = k[0] == 'e';
                if (draft < 7) { if (excl) continue; const J *e = s.find(min ? "exclusiveMinimum" : "exclusiveMaximum"); excl = e && e->b; }
                if (min) { auto c = mk<vc::MinimumConstraint>(); c.setMinimum(x.num()); c.setExclusiveMinimum(excl); put(c, at); }
                else { auto c = mk<vc::MaximumConstraint>(); c.setMaximum(x.num()); c.setExclusiveMaximum(excl); put(c, at); }
            } else if (k == "multipleOf" || k == "divisibleBy") {
                if (x.t == J::Int) { auto c = mk<vc::MultipleOfIntConstraint>(); c.setDivisor(x.i); put(c, at); }
                else { auto c = mk<vc::MultipleOfDoubleConstraint>(); c.setDivisor(x.d); put(c, at); }
            } else if (k == "minLength") { auto c = mk<vc::MinLengthConstraint>(); c.setMinLength((uint64_t)x.i); put(c, at); }
            else if (k == "maxLength") { auto c = mk<vc::MaxLengthConstraint>(); c.setMaxLength((uint64_t)x.i); put(c, at); }
            else if (k == "minItems") { auto c = mk<vc::MinItemsConstraint>(); c.setMinItems((uint64_t)x.i); put(c, at); }
            else if (k == "maxItems") { auto c = mk<vc::MaxItemsConstraint>(); c.setMaxItems((uint64_t)x.i); put(c, at); }
            else if (k == "minProperties") { auto c = mk<vc::MinPropertiesConstraint>(); c.setMinProperties((uint64_t)x.i); put(c, at); }
            else if (k == "maxProperties") { auto c = mk<vc::MaxPropertiesConstraint>(); c.setMaxProperties((uint64_t)x.i); put(c, at); }
            else if (k == "pattern") { auto c = mk<vc::PatternConstraint>(); if (r.chance(30)) c.setPattern(std::string("unlike")); if (r.chance(50)) c.setPattern(x.s); else c.setPattern(CStr(x.s.c_str(), x.s.size(), vj::internal::CustomAllocator<char>(cAlloc, cFree))); put(c, at); }
            else if (k == "uniqueItems") { if (x.b) put(mk<vc::UniqueItemsConstraint>(), at); }
            else if (k == "required" && draft >= 4) {
                auto c = mk<vc::RequiredConstraint>();
                for (auto &e : x.a) { bool first = e.s.find((char)0) == std::string::npos && r.chance(50) ? c.addRequiredProperty(e.s.c_str()) : c.addRequiredProperty(e.s); if (!first) bad = "addRequiredProperty says false for a new name"; }
                for (auto &e : x.a) if (r.chance(10) && c.addRequiredProperty(e.s)) bad = "addRequiredProperty says true for a name it has";
                put(c, at);
            } else if (k == "properties" || k == "patternProperties" || k == "additionalProperties") {
                if (props) continue;
                props = true;
                auto c = mk<vc::PropertiesConstraint>();
                if (const J *p = s.find("properties")) {
                    for (auto &kv : p->o) { const vj::Subschema *y = sub(kv.second); if (!(kv.first.find((char)0) == std::string::npos && r.chance(50) ? c.addPropertySubschema(kv.first.c_str(), y) : c.addPropertySubschema(kv.first, y))) bad = "addPropertySubschema says false for a new name"; }
                    if (p->size() && r.chance(10) && c.addPropertySubschema(p->o[0].first, schema.emptySubschema())) bad = "addPropertySubschema says true for a name it has";
                    if (draft == 3) {       // 'required' of a member belongs to the parent
                        vc::RequiredConstraint q;
                        bool any = false;
                        for (auto &kv : p->o) if (const J *rq = kv.second.find("required")) if (rq->b && !kv.second.find("$ref")) { q.addRequiredProperty(kv.first); any = true; }
                        if (any) put(q, at);
                    }
                }
                if (const J *p = s.find("patternProperties")) for (auto &kv : p->o) { const vj::Subschema *y = sub(kv.second); if (!(r.chance(50) ? c.addPatternPropertySubschema(kv.first.c_str(), y) : c.addPatternPropertySubschema(kv.first, y))) bad = "addPatternPropertySubschema says false for a new pattern"; }
                const J *a = s.find("additionalProperties");
                if (!a) c.setAdditionalPropertiesSubschema(schema.emptySubschema());
                else if (a->t == J::Bool && !a->b && r.chance(50)) {}      // none: no additional properties are allowed
                else c.setAdditionalPropertiesSubschema(sub(*a));
                put(c, at);
            } else if (k == "items" || k == "additionalItems") {
                if (items || !s.find("items")) continue;
                items = true;
                const J *i = s.find("items"), *a = s.find("additionalItems");
                if (i->t == J::Arr) {
                    auto c = mk<vc::LinearItemsConstraint>();
                    for (auto &e : i->a) c.addItemSubschema(sub(e));
                    if (c.getItemSubschemaCount() != i->a.size()) bad = "getItemSubschemaCount is wrong";
                    if (!a) c.setAdditionalItemsSubschema(schema.emptySubschema());
                    else if (a->t == J::Bool && !a->b && r.chance(50)) {}
                    else c.setAdditionalItemsSubschema(sub(*a));
                    put(c, at);
                } else { auto c = mk<vc::SingularItemsConstraint>(); c.setItemsSubschema(sub(*i)); put(c, at); }
            } else if (k == "contains") { auto c = mk<vc::ContainsConstraint>(); c.setSubschema(sub(x)); put(c, at); }
            else if (k == "propertyNames") { auto c = mk<vc::PropertyNamesConstraint>(); c.setSubschema(sub(x)); put(c, at); }
            else if (k == "not") { auto c = mk<vc::NotConstraint>(); c.setSubschema(sub(x)); put(c, at); }
            else if (k == "allOf" || k == "extends") { auto c = mk<vc::AllOfConstraint>(); if (x.t == J::Arr) for (auto &e : x.a) c.addSubschema(sub(e)); else c.addSubschema(sub(x)); put(c, at); }
            else if (k == "anyOf") { auto c = mk<vc::AnyOfConstraint>(); for (auto &e : x.a) c.addSubschema(sub(e)); put(c, at); }
            else if (k == "oneOf") { auto c = mk<vc::OneOfConstraint>(); for (auto &e : x.a) c.addSubschema(sub(e)); put(c, at); }
            else if (k == "if") { auto c = mk<vc::ConditionalConstraint>(); c.setIfSubschema(sub(x)); if (const J *t = s.find("then")) c.setThenSubschema(sub(*t)); if (const J *e = s.find("else")) c.setElseSubschema(sub(*e)); put(c, at); }
            else if (k == "dependencies") {
                auto c = mk<vc::DependenciesConstraint>();
                for (auto &d : x.o) {
                    if (d.second.t == J::Str) c.addPropertyDependency(d.first, d.second.s);
                    else if (d.second.t == J::Arr) {
                        if (r.chance(50)) { std::vector<std::string> v; for (auto &e : d.second.a) v.push_back(e.s); c.addPropertyDependencies(d.first, v); }
                        else for (auto &e : d.second.a) c.addPropertyDependency(d.first, e.s);
                    } else {
                        c.addSchemaDependency(d.first, sub(d.second));
                        if (r.chance(10)) { bool threw = false; try { c.addSchemaDependency(d.first, schema.emptySubschema()); } catch (const std::runtime_error &) { threw = true; } if (!threw) bad = "addSchemaDependency accepts a second schema for a property"; }
                    }
                }
                put(c, at);
            }
        }
    }
    std::string bad;
};
// modifications that are not allowed throw and change nothing
static std::string refused(vj::Schema &s, const vj::Subschema *foreign, Rng &r) {
    vc::TypeConstraint never;
    never.addNamedType(vc::TypeConstraint::kNull);
    const vj::Subschema *t = r.chance(50) ? s.emptySubschema() : foreign;
    bool threw = false;
    try {
        switch (r.below(5)) {
        case 0: s.setAlwaysInvalid(t, true); break;
        case 1: s.setSubschemaTitle(t, "x"); break;
        case 2: s.setSubschemaId(t, "x"); break;
        case 3: s.setSubschemaDescription(t, "x"); break;
        default: s.addConstraintToSubschema(never, t);
        }
    } catch (const std::runtime_error &) { threw = true; }
    if (!threw) return "a schema lets a subschema be changed that is not its own, or the shared empty one";
    return "";
}

static void hand(Run &run, uint64_t, Rng &r) {
    static const std::vector<int> drafts = {7, 7, 4, 3};
    GenCfg cfg; cfg.draft = r.pick(drafts); cfg.maxDepth = 3; cfg.integralDbl = false; cfg.refPct = r.chance(40) ? 12 : 0;
    SchemaGen g(cfg, r);
    if (cfg.refPct) g.targets.push_back({1, 0});
    g.cfg.refPct = 0;
    bool recursive = cfg.refPct > 0;
    J schema;
    // the root itself is no reference
    g.cfg.refPct = cfg.refPct;
    do schema = g.schema(3); while (schema.find("$ref"));
    if (cfg.draft < 7 && schema.t != J::Obj) return;
    if (schema.t == J::Obj && recursive) schema.set(LABEL, J::integer(1));
    std::string about;
    std::string bad;
    {
        bool ca = r.chance(50);
        vj::Schema plain, own(cAlloc, cFree);
        vj::Schema &s = ca ? own : plain;
        vj::Schema other;
        const vj::Subschema *foreign = other.createSubschema();
        if (r.chance(20)) foreign = other.root();
        {
            Hand h{s, cfg.draft, r, ca, {}, 0, 0, {}, {}};
            h.fill(schema, s.root());
            for (size_t n = 0; n < h.later.size(); n++) { auto fn = h.later[n]; fn(); }
            bad = h.bad;
            run.count("constraints", h.constraints);
            run.count("shared_subschemas", h.sharings);
            if (recursive && dump(schema).find("$ref") != std::string::npos) run.count("recursive_schemas");
        }
        about = fmt("draft%d%s built by hand: ", cfg.draft, ca ? " custom allocation" : "") + dump(schema);
        if (bad.empty()) bad = refused(s, foreign, r);
        if (bad.empty() && r.chance(10)) { vj::Schema::Constraint *none = nullptr; (void)none; }
        if (!bad.empty()) { run.violation("api", bad + ": " + about); return; }
        run.count("schemas");
        // the same schema, parsed (references to the root as '#')
        vj::Schema parsed;
        std::function<J(const J &)> doc = [&](const J &x) -> J {
            if (x.t == J::Arr) { J y = J::arr(); for (auto &e : x.a) y.a.push_back(doc(e)); return y; }
            if (x.t != J::Obj) return x;
            J y = J::obj();
            for (auto &kv : x.o) { if (kv.first == LABEL) continue; if (kv.first == "$ref" && kv.second.t == J::Int) y.set("$ref", J::str("#")); else y.o.emplace_back(kv.first, doc(kv.second)); }
            return y;
        };
        vj::SchemaParser parser(draftOf(cfg.draft));
        try { populate(0, parser, parsed, doc(schema)); } catch (const std::exception &e) { run.violation("rejected", std::string(e.what()) + ": " + about); return; }
        InstGen ig(g, nullptr);
        vj::Validator vd;
        J last;
        int seen = 0;
        std::vector<uint64_t> hs;
        for (int n = 0; n < 10; n++) {
            J inst = n < 6 ? ig.make(schema, 3) : n < 9 ? ig.mutate(last, 2) : g.value(2);
            last = inst;
            if (hasIntegralDbl(inst)) continue;
            Ref ref(cfg.draft);
            ref.labels[1] = &schema;
            bool want = ref.ok(schema, inst);
            if (ref.gaveUp) continue;
            int lib = (int)r.below(3);
            Outcome o[4];
            for (int k = 0; k < 4; k++) o[k] = validate(lib, vd, k & 1 ? parsed : s, inst, k & 2);
            run.count("evaluations", 4);
            run.count(want ? "valid" : "invalid");
            seen |= want ? 1 : 2;
            hs.push_back(hashStr(about + dump(inst)));
            for (int k = 0; k < 4; k++) if (o[k].threw || o[k].valid != want) { run.violation("verdict", fmt("%s%s: expected %s, got %s: ", k & 1 ? "parsed" : "by hand", k & 2 ? " with results" : "", tf(want), o[k].threw ? o[k].what.c_str() : tf(o[k].valid)) + about + " instance " + dump(inst)); return; }
            if (o[2].errs.empty() != o[2].valid) { run.violation("errors", "errors of the schema built by hand: " + errText(o[2].errs) + ": " + about); return; }
        }
        if (seen == 3) for (auto h : hs) run.seen("pairs", h);
    }
    if (!blocks.empty() || badFree) { run.violation("blocks", fmt("%d blocks of the custom allocation functions are left, %d were freed wrongly: ", (int)blocks.size(), (int)badFree) + about); blocks.clear(); badFree = 0; }
}

static void one(Run &run, uint64_t idx, Rng &r) {
    if (run.mode == "custom") custom(run, idx, r);
    else if (run.mode == "regex") regex(run, idx, r);
    else hand(run, idx, r);
}
int main(int argc, char **argv) { return harnessMain(argc, argv, one); }
