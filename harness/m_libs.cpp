// C07: all libraries agree; a schema from one library validates instances of another; adapters show the documents
#include "errs.hpp"
#include "hostile.hpp"
#include "sem.hpp"
using namespace vh;

static const std::vector<Lib *> &typedAll() {
    static const std::vector<Lib *> v = {libRapidJson(), libNlohmann(), libJsonCpp(), libPicoJson(), libBoostJson(), libPoco(), libQtJson(), libQVariant(), libRapidJsonCrt(), libJson11()};
    return v;
}
static const std::vector<Lib *> &allLibs() {
    static const std::vector<Lib *> v = [] { auto x = typedAll(); x.push_back(libYaml()); x.push_back(libPropertyTree()); return x; }();
    return v;
}
static std::string errKey(const std::vector<Err> &v, bool desc) {
    std::multiset<std::string> s;
    for (auto &e : v) { std::string c; for (auto &x : e.ctx) c += x; s.insert(e.ptr + "\x01" + c + "\x01" + (desc ? e.desc : "")); }
    std::string o;
    for (auto &x : s) o += x + "\n";
    return o;
}
static std::string outText(const Outcome &o, bool desc) { return o.threw ? "exception" : std::string(tf(o.valid)) + "\n" + errKey(o.errs, desc); }

// members in the order of their names, as several libraries keep them (the first of several failing members may be described)
static J sorted(const J &j) {
    J w = j;
    for (auto &e : w.a) e = sorted(e);
    for (auto &kv : w.o) kv.second = sorted(kv.second);
    std::sort(w.o.begin(), w.o.end(), [](auto &x, auto &y) { return x.first < y.first; });
    return w;
}
static bool anyInt(const J &j, int64_t lim) {
    if (j.t == J::Int && (j.i > lim || j.i < -lim)) return true;
    for (auto &e : j.a) if (anyInt(e, lim)) return true;
    for (auto &kv : j.o) if (anyInt(kv.second, lim)) return true;
    return false;
}
// (Poco's parser cuts names and strings at U+0000)
static bool anyNul(const J &j) {
    if (j.t == J::Str && j.s.find('\0') != std::string::npos) return true;
    for (auto &e : j.a) if (anyNul(e)) return true;
    for (auto &kv : j.o) if (kv.first.find('\0') != std::string::npos || anyNul(kv.second)) return true;
    return false;
}
static bool dblOnly(const Lib *l) { return !strcmp(l->name, "json11") || !strcmp(l->name, "qtjson"); }
struct Case { J schema; std::vector<J> insts; Opt opt; bool desc = true, big = false, nul = false; bool hostile = false; };
static bool makeCase(Rng &r, bool thorough, Case &c) {
    GenCfg cfg;
    cfg.draft = r.chance(60) ? 7 : r.chance(50) ? 4 : 3;
    cfg.maxDepth = (int)r.range(1, thorough ? 4 : 3);
    cfg.oddPct = r.chance(40) ? 50 : 10;
    SchemaGen g(cfg, r);
    Hostile h(g);
    h.nan = false; h.badUtf8 = false;
    J base = g.schema(cfg.maxDepth);
    c.hostile = r.chance(25);
    c.schema = base;
    if (c.hostile) c.schema = h.schema(false);
    else if (base.t == J::Obj) g.decorate(c.schema);
    if (c.schema.t == J::Obj && r.chance(15)) c.schema.set("format", J::str(r.pick(std::vector<std::string>{"date", "time", "date-time", "ipv4"})));
    if (c.schema.find("$ref")) return false;
    c.opt.draft = cfg.draft; c.opt.strict = r.chance(60); c.opt.strictDate = r.chance(50);
    InstGen ig(g, nullptr);
    for (int n = 0; n < 6; n++) {
        J i = n < 3 ? ig.make(base, 3) : n < 5 ? ig.mutate(c.insts.back(), 3) : g.value(3);
        if (c.hostile) h.mutate(i, (int)r.range(0, 2), false);
        c.insts.push_back(i);
    }
    c.schema = sorted(c.schema);
    for (auto &i : c.insts) i = sorted(i);
    c.desc = !hasIntegralDbl(c.schema);
    c.big = anyInt(c.schema, 1LL << 53);
    c.nul = anyNul(c.schema);
    for (auto &i : c.insts) { if (hasIntegralDbl(i)) c.desc = false; if (anyInt(i, 1LL << 53)) c.big = true; if (anyNul(i)) c.nul = true; }
    return true;
}
// whether the library can hold the documents of the case as they are
static bool holds(const Lib *l, const Case &c, bool text) {
    if (dblOnly(l) && !c.opt.strict && !c.desc) return false;       // "3.0" or "3"
    if (text && !c.opt.strict && !c.desc && !strcmp(l->name, "qvariant")) return false;     // (parsed by Qt)
    if (c.big && !strcmp(l->name, "json11")) return false;
    // (these parsers make doubles of some large integers)
    if (c.nul && text && !strcmp(l->name, "poco")) return false;
    if (c.big && text && (!strcmp(l->name, "picojson") || !strcmp(l->name, "poco"))) return false;
    return true;
}
static void diff(Run &run, uint64_t, Rng &r) {
    Case c;
    if (!makeCase(r, run.thorough, c)) return;
    bool text = run.mode == "text";
    std::string st = dump(c.schema);
    std::vector<std::string> it;
    auto utf8 = [](const std::string &s) {
        for (size_t n = 0; n < s.size();) {
            unsigned char ch = (unsigned char)s[n];
            int k = ch < 0x80 ? 0 : ch >= 0xC2 && ch < 0xE0 ? 1 : ch >= 0xE0 && ch < 0xF0 ? 2 : ch >= 0xF0 && ch < 0xF5 ? 3 : -1;
            if (k < 0 || n + (size_t)k >= s.size()) return false;
            for (int q = 1; q <= k; q++) if (((unsigned char)s[n + (size_t)q] & 0xC0) != 0x80) return false;
            n += (size_t)k + 1;
        }
        return true;
    };
    if (text && !utf8(st)) { run.count("skipped"); return; }
    if (text) { c.hostile = false; c.schema = parse(st); for (auto &i : c.insts) { it.push_back(dump(i)); if (!utf8(it.back())) { run.count("skipped"); return; } } }
    std::vector<CompileResult> cs;
    std::vector<Lib *> libs;
    for (Lib *l : typedAll()) {
        if (!holds(l, c, text)) { run.count("not_held"); continue; }
        libs.push_back(l);
        CompileResult x;
        if (text) { if (!l->compileText(st, c.opt, x)) { run.violation("text", fmt("%s does not parse ", l->name) + st); return; } }
        else x = l->compile(c.schema, c.opt);
        cs.push_back(std::move(x));
    }
    run.count("schemas");
    for (size_t n = 1; n < cs.size(); n++)
        if (!cs[n].c != !cs[0].c || cs[n].kind != cs[0].kind) {
            run.violation("compile", fmt("draft%d: %s %s, %s %s: schema ", c.opt.draft, libs[0]->name, cs[0].c ? "accepts" : ("throws " + cs[0].kind + " " + cs[0].what).c_str(), libs[n]->name, cs[n].c ? "accepts" : ("throws " + cs[n].kind + " " + cs[n].what).c_str()) + st);
            return;
        }
    if (!cs[0].c) { run.count("rejected"); return; }
    int seen = 0;
    for (size_t k = 0; k < c.insts.size(); k++) {
        std::vector<std::string> got, full;
        for (size_t n = 0; n < cs.size(); n++) {
            Outcome o;
            if (text) { if (!cs[n].c->validateText(it[k], c.opt, true, o)) { run.violation("text", fmt("%s does not parse ", libs[n]->name) + it[k]); return; } }
            else o = cs[n].c->validate(c.insts[k], c.opt, true);
            got.push_back(outText(o, c.desc));
            run.count("evaluations");
            if (n == 0) { run.count(o.threw ? "threw" : tf(o.valid)); run.count("errors", o.errs.size()); seen |= o.valid ? 1 : 2; }
        }
        for (size_t n = 1; n < got.size(); n++)
            if (got[n] != got[0]) {
                Lib *a = libs[0], *b = libs[n];
                J s = c.schema, i = c.insts[k];
                auto res = [&](Lib *l, const J &s2, const J &i2) -> std::string {
                    CompileResult x;
                    Outcome o;
                    if (text) { if (!l->compileText(dump(s2), c.opt, x) || !x.c || !x.c->validateText(dump(i2), c.opt, true, o)) return "?"; }
                    else { x = l->compile(s2, c.opt); if (!x.c) return "?"; o = x.c->validate(i2, c.opt, true); }
                    return outText(o, c.desc && !hasIntegralDbl(s2) && !hasIntegralDbl(i2));
                };
                shrink(s, i, [&](const J &s2, const J &i2) { std::string x = res(a, s2, i2), y = res(b, s2, i2); return x != "?" && y != "?" && x != y; });
                run.violation("differ", fmt("%s and %s differ (%s): schema ", a->name, b->name, optText(c.opt).c_str()) + dump(s) + " instance " + dump(i) + "\n" + res(a, s, i) + "\n---\n" + res(b, s, i));
                return;
            }
        if (seen) run.seen("pairs", hashStr(st + dump(c.insts[k])));
    }
    if (r.below(500) == 0) run.sample(run.mode, st + " <- " + dump(c.insts[0]));
}
static void cross(Run &run, uint64_t idx, Rng &r) {
    Case c;
    if (!makeCase(r, run.thorough, c)) return;
    const auto &ls = allLibs();
    // the schema comes from a typed library, the instances from each other one; untyped ones are compared with themselves
    Lib *home = ls[idx % 10];
    CompileResult h = home->compile(c.schema, c.opt);
    run.count("schemas");
    if (!h.c) { run.count("rejected"); return; }
    for (auto &i : c.insts) {
        Outcome same = home->validateSchema(h.c->schemaPtr(), i, c.opt, true);
        std::string want = outText(same, c.desc);
        for (int n = 0; n < 4; n++) {
            Lib *l = ls[r.below(10)];
            if (!holds(l, c, false) || !holds(home, c, false)) { run.count("not_held"); continue; }
            Outcome o = l->validateSchema(h.c->schemaPtr(), i, c.opt, true);
            run.count("evaluations");
            run.count(o.threw ? "threw" : tf(o.valid));
            run.count(std::string("ev:") + home->name + ">" + l->name);
            if (outText(o, c.desc) != want) {
                J s = c.schema, x = i;
                auto res = [&](Lib *lb, const J &s2, const J &i2) -> std::string { CompileResult y = home->compile(s2, c.opt); if (!y.c) return "?"; return outText(lb->validateSchema(y.c->schemaPtr(), i2, c.opt, true), c.desc && !hasIntegralDbl(s2) && !hasIntegralDbl(i2)); };
                shrink(s, x, [&](const J &s2, const J &i2) { return res(home, s2, i2) != res(l, s2, i2); });
                run.violation("cross", fmt("schema in %s, instances in %s and %s differ (%s): schema ", home->name, home->name, l->name, optText(c.opt).c_str()) + dump(s) + " instance " + dump(x) + "\n" + res(home, s, x) + "\n---\n" + res(l, s, x));
                return;
            }
            run.seen("pairs", hashStr(dump(c.schema) + dump(i) + home->name + l->name));
        }
        // instances without types: the schema's library must not matter
        Lib *u = ls[10 + r.below(2)];
        Lib *other = ls[r.below(10)];
        CompileResult h2 = other->compile(c.schema, c.opt);
        if (!h2.c || !holds(home, c, false) || !holds(other, c, false)) continue;
        Outcome a = u->validateSchema(h.c->schemaPtr(), i, c.opt, true), b = u->validateSchema(h2.c->schemaPtr(), i, c.opt, true);
        run.count("evaluations", 2);
        if (outText(a, c.desc) != outText(b, c.desc)) {
            run.violation("cross-untyped", fmt("%s instance with the schema in %s and %s (%s): schema ", u->name, home->name, other->name, optText(c.opt).c_str()) + dump(c.schema) + " instance " + dump(i) + "\n" + outText(a, c.desc) + "\n---\n" + outText(b, c.desc));
            return;
        }
        run.count(std::string("ev:") + home->name + ">" + u->name);
    }
    if (idx % 997 == 5) run.sample("cross", dump(c.schema) + " <- " + dump(c.insts[0]));
}
// schemas held without types (YAML, property trees) mean the same
static bool prune(J &j, bool ptree, bool schemaPos) {
    // enum and const keep only strings: other values are strings to such a library
    auto text = [](const J &v) { return v.t == J::Str && !v.s.empty(); };
    if (j.t == J::Null || (ptree && (j.t == J::Arr || j.t == J::Obj) && j.size() == 0)) return false;
    if (ptree && j.t == J::Str && j.s.empty()) return false;
    for (size_t n = 0; n < j.o.size(); n++) {
        auto &kv = j.o[n];
        if (ptree && kv.first.empty()) return false;
        if (schemaPos && kv.first == "const" && !text(kv.second)) { j.o.erase(j.o.begin() + (long)n--); continue; }
        if (schemaPos && kv.first == "enum" && kv.second.t == J::Arr) {
            J e = J::arr();
            for (auto &v : kv.second.a) if (text(v)) e.a.push_back(v);
            if (e.a.empty()) { j.o.erase(j.o.begin() + (long)n--); continue; }
            kv.second = e;
            continue;
        }
        bool names = schemaPos && (kv.first == "properties" || kv.first == "patternProperties" || kv.first == "definitions" || kv.first == "dependencies");
        if (!prune(kv.second, ptree, !names)) return false;
    }
    for (auto &e : j.a) if (!prune(e, ptree, schemaPos)) return false;
    return !(ptree && j.t == J::Obj && j.o.empty());
}
static void loose(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg;
    cfg.draft = r.chance(60) ? 7 : r.chance(50) ? 4 : 3;
    cfg.maxDepth = (int)r.range(1, 3);
    cfg.oddPct = 15;
    SchemaGen g(cfg, r);
    Case c;
    c.schema = g.schema(cfg.maxDepth);
    if (c.schema.t != J::Obj) { J w = J::obj(); J a = J::arr(); a.a.push_back(c.schema); a.a.push_back(g.schema(1)); if (cfg.draft == 3) return; w.set(r.pick(std::vector<std::string>{"allOf", "anyOf", "oneOf"}), a); c.schema = w; }
    if (c.schema.find("$ref")) return;
    if (r.chance(30)) {
        J d = J::obj(); d.set("x", g.schema(2)); c.schema.set("definitions", d);
        J ref = J::obj(); ref.set("$ref", J::str("#/definitions/x"));
        if (!c.schema.find("additionalProperties")) c.schema.set("additionalProperties", ref);
    }
    Lib *lib = allLibs()[10 + idx % 2];
    bool ptree = lib == libPropertyTree();
    if (!prune(c.schema, ptree, true)) { run.count("not_held"); return; }
    c.opt.draft = cfg.draft; c.opt.strict = r.chance(70);
    InstGen ig(g, nullptr);
    for (int n = 0; n < 6; n++) c.insts.push_back(n < 4 ? ig.make(c.schema, 3) : ig.mutate(c.insts.back(), 3));
    Lib *typed = typedAll()[r.below(8)];
    auto res = [&](Lib *home, const J &s, const J &i, std::string *kind) -> std::string {
        CompileResult x = home->compile(s, c.opt);
        if (!x.c) { if (kind) *kind = "rejected"; return "rejected " + x.what; }
        Outcome o = typed->validateSchema(x.c->schemaPtr(), i, c.opt, true);
        if (kind) *kind = o.threw ? "threw" : tf(o.valid);
        return o.threw ? "exception" : std::string(tf(o.valid)) + "\n" + errKey(o.errs, false);
    };
    run.count("schemas");
    CompileResult a = typed->compile(c.schema, c.opt), b = lib->compile(c.schema, c.opt);
    if (!a.c) { run.count("rejected"); return; }
    for (auto &i : c.insts) {
        std::string x = "rejected", y = "rejected " + b.what;
        Outcome oa = typed->validateSchema(a.c->schemaPtr(), i, c.opt, true);
        x = oa.threw ? "exception" : std::string(tf(oa.valid)) + "\n" + errKey(oa.errs, false);
        if (b.c) { Outcome ob = typed->validateSchema(b.c->schemaPtr(), i, c.opt, true); y = ob.threw ? "exception" : std::string(tf(ob.valid)) + "\n" + errKey(ob.errs, false); }
        run.count("evaluations");
        run.count(oa.threw ? "threw" : tf(oa.valid));
        run.count(std::string("ev:loose:") + lib->name + ">" + typed->name);
        if (x != y) {
            J s = c.schema, i2 = i;
            shrink(s, i2, [&](const J &s2, const J &i3) { J t = s2; if (!prune(t, ptree, true) || dump(t) != dump(s2)) return false; std::string k; std::string p = res(typed, s2, i3, &k); return k != "rejected" && p != res(lib, s2, i3, nullptr); });
            run.violation("loose", fmt("schema in %s and %s, instances in %s, differ (%s): schema ", typed->name, lib->name, typed->name, optText(c.opt).c_str()) + dump(s) + " instance " + dump(i2) + "\n" + res(typed, s, i2, nullptr) + "\n---\n" + res(lib, s, i2, nullptr));
            return;
        }
        run.seen("pairs", hashStr(dump(c.schema) + dump(i) + lib->name));
    }
}
// what an untyped library makes of a document: scalars are strings
static J untyped(const J &j, bool ptree) {
    J o = j;
    switch (j.t) {
    case J::Null: return ptree ? J::str("null") : J();
    case J::Str: return ptree && j.s.empty() ? J::arr() : j;
    case J::Bool: return J::str(j.b ? "true" : "false");
    case J::Int: case J::Dbl: return J::str(dump(j));
    case J::Arr: for (auto &e : o.a) e = untyped(e, ptree); break;
    case J::Obj: for (auto &kv : o.o) kv.second = untyped(kv.second, ptree); break;
    default: break;
    }
    if (ptree && j.size() == 0) return J::arr();
    return o;
}
static bool sameTyped(const J &x, const J &y, bool dblInt) {
    if (x.t != y.t) { if (!dblInt || !x.isNum() || !y.isNum()) return false; }
    if (x.t == J::Arr) { if (x.a.size() != y.a.size()) return false; for (size_t n = 0; n < x.a.size(); n++) if (!sameTyped(x.a[n], y.a[n], dblInt)) return false; return true; }
    if (x.t == J::Obj) { if (x.o.size() != y.o.size()) return false; for (auto &kv : x.o) { const J *p = y.find(kv.first); if (!p || !sameTyped(kv.second, *p, dblInt)) return false; } return true; }
    return jeq(x, y);
}
static void walkMode(Run &run, uint64_t idx, Rng &r) {
    const auto &ls = allLibs();
    Lib *l = ls[idx % ls.size()];
    GenCfg cfg; cfg.oddPct = 50;
    SchemaGen g(cfg, r);
    Hostile h(g);
    h.nan = false; h.badUtf8 = false;
    J doc = r.chance(50) ? g.value(4) : h.value(4);
    if (r.chance(50)) h.mutate(doc, (int)r.range(1, 5), false);
    std::string ln = l->name;
    if (ln == "json11" && anyInt(doc, 1LL << 53)) { run.count("not_held"); return; }
    bool ptree = ln == "property_tree", yaml = ln == "yaml_cpp";
    bool text = r.chance(40) && !yaml;      // (YAML is not JSON)
    std::function<bool(const J &)> odd = [&](const J &j) {
        // documents that the library itself cannot hold as they are
        if (j.t == J::Str && j.s.find('\0') != std::string::npos && (yaml)) return true;
        // a ptree is an array exactly if its keys are empty
        if (ptree && j.t == J::Obj) for (auto &kv : j.o) if (kv.first.empty()) return true;
        for (auto &kv : j.o) if (odd(kv.second) || (kv.first.find('\0') != std::string::npos && yaml)) return true;
        for (auto &e : j.a) if (odd(e)) return true;
        return false;
    };
    if (text && (ln == "poco" || ln == "picojson") && anyInt(doc, 1LL << 53)) { run.count("not_held"); return; }
    if (text && ln == "poco" && anyNul(doc)) { run.count("not_held"); return; }
    if (odd(doc)) { run.count("skipped"); return; }
    std::unique_ptr<Native> n = text ? l->nativeText(dump(doc)) : l->native(doc);
    if (!n) { if (ptree && doc.t != J::Arr && doc.t != J::Obj) return; run.count("text_refused"); run.count("text_refused:" + ln); return; }
    J got;
    std::string bad = n->roundTrip(got);
    J want = ptree || yaml ? untyped(doc, ptree) : doc;
    run.count("evaluations");
    run.count("ev:" + ln + (text ? ":text" : ":built"));
    run.seen("documents", hashStr(dump(doc) + ln));
    // Qt keeps numbers with integral values as integers or doubles as it likes
    bool dblInt = text || dblOnly(l) || ln == "qvariant";
    if (bad.empty() && !(ptree || yaml ? jeq(got, want) : sameTyped(got, want, dblInt))) bad = "shows " + dump(got);
    if (!bad.empty()) {
        J d = doc, dummy;
        shrink(d, dummy, [&](const J &d2, const J &) {
            if (odd(d2)) return false;
            auto n2 = text ? l->nativeText(dump(d2)) : l->native(d2);
            if (!n2) return false;
            J g2;
            std::string b2 = n2->roundTrip(g2);
            if (!b2.empty()) return true;
            J w2 = ptree || yaml ? untyped(d2, ptree) : d2;
            return !(ptree || yaml ? jeq(g2, w2) : sameTyped(g2, w2, dblInt));
        });
        run.violation("view", ln + (text ? " (text)" : "") + ": " + bad + ": document " + dump(doc) + " small: " + dump(d));
    }
    if (idx % 997 == 5) run.sample("walk", ln + " " + dump(doc));
}
int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t idx, Rng &r) { if (run.mode == "loose") loose(run, idx, r); else if (run.mode == "walk") walkMode(run, idx, r); else if (run.mode == "cross") cross(run, idx, r); else diff(run, idx, r); });
}
