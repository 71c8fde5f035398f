// C08: weak types
#include "hostile.hpp"
#include "sem.hpp"
#include <valijson/adapters/std_string_adapter.hpp>
using namespace vh;
using valijson::adapters::Adapter;

static const std::vector<Lib *> &allLibs() {
    static const std::vector<Lib *> v = {libRapidJson(), libNlohmann(), libJsonCpp(), libPicoJson(), libBoostJson(), libPoco(), libQtJson(), libQVariant(), libRapidJsonCrt(), libJson11(), libYaml(), libPropertyTree()};
    return v;
}
// the fixed-point spelling that numbers are converted to
static std::string spell(const J &j) { if (j.t == J::Int) return std::to_string(j.i); char b[400]; snprintf(b, sizeof b, "%f", j.d); return b; }

// v: the value as the adapter shows it
static std::string conversions(Run &run, const Adapter &a, const J &v, bool stdString) {
    auto bad = [&](const char *what, bool got, bool want) { return fmt("%s is %s, expected %s", what, got ? "true" : "false", want ? "true" : "false"); };
    bool b = false; int64_t i = 0, wi = 0; double d = 0, wd = 0; std::string s;
    auto thrown = [](auto f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; };
    run.count("conversions", 6);
    // boolean
    bool wb = v.t == J::Bool || (v.t == J::Str && (v.s == "true" || v.s == "false"));
    bool vb = v.t == J::Bool ? v.b : v.s == "true";
    if (a.maybeBool() != wb) return bad("maybeBool", !wb, wb);
    if (a.asBool(b) != wb) return bad("asBool(bool &)", !wb, wb);
    if (wb && (b != vb || a.asBool() != vb)) return "asBool yields the wrong value";
    if (!wb && !thrown([&] { (void)a.asBool(); })) return "asBool() does not throw";
    // integer
    int k = v.t == J::Int ? (wi = v.i, 1) : v.t == J::Dbl ? (integralDouble(v.d) ? (wi = (int64_t)v.d, 1) : 0) : v.t == J::Str ? weakInt(v.s, wi) : 0;
    bool m = a.maybeInteger();
    if (k >= 0 && m != (k == 1)) return bad("maybeInteger", m, k == 1);
    if (a.asInteger(i) != m) return bad("asInteger(int64_t &)", !m, m);
    if (m && (i != wi || a.asInteger() != wi)) return fmt("asInteger yields %" PRId64 " for %" PRId64, i, wi);
    if (!m && !thrown([&] { (void)a.asInteger(); })) return "asInteger() does not throw";
    if (m && k == 1) run.count("to_integer");
    // double
    k = v.isNum() ? (wd = v.num(), 1) : v.t == J::Str ? weakDbl(v.s, wd) : 0;
    m = a.maybeDouble();
    if (k >= 0 && m != (k == 1)) return bad("maybeDouble", m, k == 1);
    if (a.asDouble(d) != m) return bad("asDouble(double &)", !m, m);
    if (m && k == 1 && (d != wd || a.asDouble() != wd)) return fmt("asDouble yields %.17g for %.17g", d, wd);
    if (!m && !thrown([&] { (void)a.asDouble(); })) return "asDouble() does not throw";
    if (m && k == 1) run.count("to_double");
    // string
    bool emptyAO = (v.t == J::Arr || v.t == J::Obj) && !v.size();
    bool ws = v.t == J::Str || v.t == J::Bool || v.isNum() || emptyAO;
    if (a.maybeString() != ws) return bad("maybeString", !ws, ws);
    bool as = ws || v.t == J::Null;        // null is an empty string, but not "maybe a string"
    if (a.asString(s) != as) return bad("asString(std::string &)", !as, as);
    std::string wv = v.t == J::Str ? v.s : v.t == J::Bool ? (v.b ? "true" : "false") : v.isNum() ? spell(v) : "";
    if (as && (s != wv || a.asString() != wv)) return "asString yields '" + s + "'";
    if (!as && !thrown([&] { (void)a.asString(); })) return "asString() does not throw";
    // null, array, object
    bool es = v.t == J::Str && v.s.empty();
    if (a.maybeNull() != (v.t == J::Null || es)) return bad("maybeNull", a.maybeNull(), v.t == J::Null || es);
    bool wa = v.t == J::Arr || emptyAO || es, wo = v.t == J::Obj || emptyAO || es;
    // (empty strings: known findings, mode fixed)
    if (es) return "";
    if (a.maybeArray() != wa) return bad("maybeArray", !wa, wa);
    if (a.maybeObject() != wo) return bad("maybeObject", !wo, wo);
    size_t n = 0;
    bool r = a.applyToArray([&](const Adapter &) { n++; return true; });
    if (r != wa || n != (v.t == J::Arr ? v.a.size() : 0)) return bad("applyToArray", r, wa);
    n = 0;
    r = a.applyToObject([&](const std::string &, const Adapter &) { n++; return true; });
    if (r != wo || n != (v.t == J::Obj ? v.o.size() : 0)) return bad("applyToObject", r, wo);
    // a conversion is none where the value has the type already
    if (!stdString && a.isInteger() && (!a.getInteger(i) || i != a.asInteger())) return "getInteger and asInteger differ";
    return "";
}
static std::string conversionsDeep(Run &run, const Adapter &a, const J &v, int depth) {
    std::string e = conversions(run, a, v, false);
    if (!e.empty() || depth <= 0) return e;
    size_t n = 0;
    if (v.t == J::Arr) a.applyToArray([&](const Adapter &x) { if (n < v.a.size()) { e = conversionsDeep(run, x, v.a[n], depth - 1); if (!e.empty()) e += " in element"; } n++; return e.empty(); });
    if (v.t == J::Obj) a.applyToObject([&](const std::string &k, const Adapter &x) { if (const J *p = v.find(k)) { e = conversionsDeep(run, x, *p, depth - 1); if (!e.empty()) e += " in member"; } return e.empty(); });
    return e;
}
static std::string numText(Rng &r) {
    std::string s;
    if (r.chance(8)) s += " ";
    if (r.chance(25)) s += r.chance(80) ? "-" : "+";
    int form = (int)r.below(6);
    auto digits = [&](int lo, int hi) { for (int64_t n = r.range(lo, hi); n > 0; n--) s += (char)('0' + r.below(10)); };
    if (form == 0) digits(15, 21); else digits(0, 6);
    if (form >= 3) { if (r.chance(70)) { s += r.chance(90) ? '.' : ','; digits(0, 5); } if (r.chance(40)) { s += r.chance(50) ? "e" : "E"; if (r.chance(50)) s += r.chance(50) ? "-" : "+"; digits(0, 3); } }
    if (r.chance(6)) s += r.pick(std::vector<std::string>{" ", "x", "f", "L", "\n", ".", "e", "%", "0x"});
    return s;
}
static J scalar(Rng &r, SchemaGen &g, Hostile &h) {
    switch (r.below(7)) {
    case 0: return J::str(numText(r));
    case 1: { J n = g.number(); return J::str(dump(n)); }
    case 2: return J::str(r.pick(std::vector<std::string>{"true", "false", "True", "TRUE", " true", "true ", "tru", "truee", "1", "0", "", "null", "Null", "yes", "no", "{}", "[]"}));
    case 3: return h.num();
    case 4: return J::str(h.str());
    case 5: return r.pick(std::vector<J>{J(), J::boolean(true), J::boolean(false), J::arr(), J::obj(), J::str("")});
    default: return g.scalar();
    }
}
static void conv(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg; SchemaGen g(cfg, r);
    Hostile h(g); h.nan = false; h.badUtf8 = false;
    J doc = scalar(r, g, h);
    if (r.chance(25)) { J d = r.chance(50) ? J::arr({doc, scalar(r, g, h)}) : J::obj().set(g.name(), doc); doc = d; }
    Lib *l = allLibs()[idx % 12];
    auto n = l->native(doc);
    J seen;
    std::string bad = n->roundTrip(seen);
    std::string e = conversionsDeep(run, n->adapter(), seen, 3);
    run.count("evaluations");
    run.seen("values", hashStr(dump(seen) + l->name));
    if (!e.empty()) { run.violation("conversion", fmt("%s: ", l->name) + e + ": " + dump(seen)); return; }
    if (doc.t == J::Str) {
        valijson::adapters::StdStringAdapter sa(doc.s);
        // (the adapter of property names: always a string)
        e = conversions(run, sa, doc, true);
        run.count("evaluations");
        if (!e.empty()) run.violation("conversion", "string adapter: " + e + ": " + dump(doc));
    }
    if (idx % 997 == 5) run.sample("conv", std::string(l->name) + " " + dump(seen));
}
static void fixedCases(Run &run, uint64_t idx, Rng &) {
    std::string empty;
    valijson::adapters::StdStringAdapter sa(empty);
    auto n = libNlohmann()->native(J::str(""));
    const Adapter &a = idx < 2 ? n->adapter() : (const Adapter &)sa;
    bool array = idx % 2 == 0;
    run.count("evaluations");
    run.seen("values", idx);
    if (!(array ? a.maybeArray() : a.maybeObject())) run.violation(fmt("fixed:empty-string:%s:%s", idx < 2 ? "adapters" : "names", array ? "array" : "object"), "maybe is false, as succeeds");
}
// the type keyword: strong and weak acceptance of scalars, every named type
static void types(Run &run, uint64_t idx, Rng &r) {
    int draft = r.chance(50) ? 7 : r.chance(50) ? 4 : 3;
    GenCfg cfg; cfg.draft = draft; SchemaGen g(cfg, r);
    Hostile h(g); h.nan = false; h.badUtf8 = false;
    J t;
    static const std::vector<std::string> names = {"null", "boolean", "integer", "number", "string", "array", "object"};
    if (r.chance(75)) t = J::str(names[idx % 7]);
    else { t = J::arr(); for (int64_t n = r.range(1, 3); n > 0; n--) { std::string x = g.typeName(); bool dup = false; for (auto &e : t.a) if (e.s == x) dup = true; if (!dup) t.a.push_back(J::str(x)); } }
    J schema = J::obj().set("type", t);
    bool asName = draft == 7 && r.chance(15);      // the names of members are strings, too
    if (asName) schema = J::obj().set("propertyNames", schema);
    Lib *l = allLibs()[(idx / 7) % 10];
    Opt weak, strong; weak.draft = strong.draft = draft; weak.strict = false;
    auto c = l->compile(schema, strong);
    if (!c.c) { run.violation("type", "type is rejected: " + dump(schema)); return; }
    for (int n = 0; n < 8; n++) {
        J v = scalar(r, g, h);
        if (r.chance(10)) v = g.value(2);
        if (asName) { if (v.t != J::Str) v = J::str(numText(r)); }
        if (draft < 7 && v.t == J::Dbl && std::floor(v.d) == v.d) continue;
        // doubles beyond int64 are integral, but not integers to every library
        if (v.t == J::Dbl && std::floor(v.d) == v.d && !integralDouble(v.d)) continue;
        if (!strcmp(l->name, "json11") && v.t == J::Int && (v.i > (1LL << 53) || v.i < -(1LL << 53))) continue;
        Ref ref(draft); ref.weak = true;
        Ref sref(draft);
        bool want = true, swant = true;
        const J &ty = asName ? *schema.find("propertyNames") : schema;
        want = ref.ok(ty, v); swant = sref.ok(ty, v);
        J doc = asName ? J::obj().set(v.s, J::integer(1)) : v;
        Outcome w = c.c->validate(doc, weak, r.chance(50)), s = c.c->validate(doc, strong, r.chance(50));
        run.count("evaluations", 2);
        run.count(fmt("cell:%s:%d:%s", t.t == J::Str ? t.s.c_str() : "list", (int)v.t, tf(w.valid)));
        run.seen("values", hashStr(dump(schema) + dump(doc) + l->name));
        if (s.valid && !w.valid) run.violation("type", fmt("%s draft%d accepts with strong types, but not with weak types: ", l->name, draft) + dump(schema) + " instance " + dump(doc));
        if (s.valid != swant) run.violation("type", fmt("%s draft%d strong types: expected %s: ", l->name, draft, tf(swant)) + dump(schema) + " instance " + dump(doc));
        if (ref.gaveUp) { run.count("undecided"); continue; }
        run.count(want ? "valid" : "invalid");
        if (w.valid != want) run.violation("type", fmt("%s draft%d weak types: expected %s: ", l->name, draft, tf(want)) + dump(schema) + " instance " + dump(doc));
    }
}
// all keywords with weak types
static void turnWeak(J &v, Rng &r) {
    switch (v.t) {
    case J::Bool: if (r.chance(50)) v = J::str(v.b ? "true" : "false"); break;
    case J::Int: if (r.chance(50)) v = J::str(dump(v)); break;
    case J::Dbl: if (r.chance(50)) v = J::str(dump(v)); break;
    case J::Null: if (r.chance(30)) v = J::str(""); break;
    case J::Str: {
        int64_t i; double d;
        if (r.chance(30)) { if (v.s == "true" || v.s == "false") v = J::boolean(v.s == "true"); else if (weakInt(v.s, i) == 1) v = J::integer(i); else if (weakDbl(v.s, d) == 1) v = J::dbl(d); else if (v.s.empty()) v = r.chance(50) ? J::arr() : J::obj(); }
        break; }
    case J::Arr: if (v.a.empty() && r.chance(40)) v = r.chance(50) ? J::obj() : J::str(""); for (auto &e : v.a) turnWeak(e, r); break;
    case J::Obj: if (v.o.empty() && r.chance(40)) v = r.chance(50) ? J::arr() : J::str(""); for (auto &kv : v.o) turnWeak(kv.second, r); break;
    }
}
static void all(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg;
    cfg.draft = r.chance(60) ? 7 : r.chance(60) ? 4 : 3;
    cfg.maxDepth = (int)r.range(1, run.thorough ? 4 : 3);
    cfg.integralDbl = false;
    cfg.oddPct = r.chance(30) ? 40 : 8;
    SchemaGen g(cfg, r);
    J schema = g.schema(cfg.maxDepth);
    if (cfg.draft < 7 && schema.t != J::Obj) return;
    Opt opt; opt.draft = cfg.draft; opt.strict = false;
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    run.count("schemas");
    CompileResult c = lib->compile(schema, opt);
    if (!c.c) { run.violation("rejected-schema", fmt("%s draft%d: well-formed schema rejected (%s): ", lib->name, cfg.draft, c.what.c_str()) + dump(schema)); return; }
    InstGen ig(g, nullptr);
    int seen = 0;
    std::vector<uint64_t> hashes;
    J last;
    for (int n = 0; n < 12; n++) {
        J inst = n < 7 ? ig.make(schema, 3) : n < 11 ? ig.mutate(last, 2) : g.value(2);
        last = inst;
        turnWeak(inst, r);
        if (hasIntegralDbl(inst)) continue;
        Ref ref(cfg.draft);
        ref.weak = true;
        bool want = ref.ok(schema, inst);
        if (ref.gaveUp) { run.count("undecided"); continue; }
        bool res = r.chance(50);
        Outcome o = c.c->validate(inst, opt, res);
        Ref sr(cfg.draft);
        if (sr.ok(schema, inst) != want) run.count("differs_from_strong");
        run.count("evaluations");
        run.count(want ? "valid" : "invalid");
        if (schema.t == J::Obj) for (auto &kv : schema.o) run.count("kw:" + kv.first + ":" + std::to_string(inst.t) + (want ? ":1" : ":0"));
        seen |= want ? 1 : 2;
        hashes.push_back(hashStr(dump(schema) + "|" + dump(inst)));
        if (o.threw || o.valid != want) {
            J s = schema, i = inst;
            shrink(s, i, [&](const J &s2, const J &i2) {
                Ref rf(cfg.draft); rf.weak = true;
                bool w = rf.ok(s2, i2);
                if (rf.gaveUp) return false;
                CompileResult c2 = lib->compile(s2, opt);
                if (!c2.c) return false;
                Outcome o2 = c2.c->validate(i2, opt, res);
                return o2.threw == o.threw && (o2.threw || (o2.valid != w && o2.valid == o.valid));
            });
            run.violation("verdict", fmt("%s %s%s: expected %s, got %s: schema ", lib->name, optText(opt).c_str(), res ? " with results" : "", tf(want), o.threw ? ("exception " + o.what).c_str() : tf(o.valid)) + dump(s) + " instance " + dump(i));
            return;
        }
    }
    if (seen == 3) for (uint64_t hh : hashes) run.seen("pairs", hh);
    if (idx % 997 == 5) run.sample("pairs", dump(schema) + "  <-  " + dump(last));
}
int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t idx, Rng &r) { if (run.mode == "fixed") fixedCases(run, idx, r); else if (run.mode == "conv") conv(run, idx, r); else if (run.mode == "types") types(run, idx, r); else all(run, idx, r); });
}
