// C09: equality
#include "hostile.hpp"
#include "sem.hpp"
#include <valijson/internal/frozen_value.hpp>
using namespace vh;
using valijson::adapters::FrozenValue;

static const std::vector<Lib *> &allLibs() {
    static const std::vector<Lib *> v = {libRapidJson(), libNlohmann(), libJsonCpp(), libPicoJson(), libBoostJson(), libPoco(), libQtJson(), libQVariant(), libRapidJsonCrt(), libJson11(), libYaml(), libPropertyTree()};
    return v;
}
static bool json11Big(const J &j) {
    if (j.t == J::Int && (j.i > (1LL << 53) || j.i < -(1LL << 53))) return true;
    for (auto &e : j.a) if (json11Big(e)) return true;
    for (auto &kv : j.o) if (json11Big(kv.second)) return true;
    return false;
}
// another spelling of the same value
static J respell(const J &j, Rng &r) {
    J w = j;
    if (w.t == J::Int && r.chance(30) && w.i <= (1LL << 53) && w.i >= -(1LL << 53)) w = J::dbl((double)w.i);
    else if (w.t == J::Int && r.chance(30) && (double)w.i < 9.2e18 && (int64_t)(double)w.i == w.i) w = J::dbl((double)w.i);
    else if (w.t == J::Dbl && r.chance(40) && integralDouble(w.d)) w = J::integer((int64_t)w.d);
    for (auto &e : w.a) e = respell(e, r);
    for (auto &kv : w.o) kv.second = respell(kv.second, r);
    if (w.t == J::Obj) for (size_t n = w.o.size(); n > 1; n--) std::swap(w.o[n - 1], w.o[r.below(n)]);
    return w;
}
static void nodes(J &j, std::vector<J *> &out) { out.push_back(&j); for (auto &e : j.a) nodes(e, out); for (auto &kv : j.o) nodes(kv.second, out); }
// a value that is nearly the same
static J nearly(const J &j, Rng &r, SchemaGen &g, Hostile &h) {
    J w = respell(j, r);
    std::vector<J *> all;
    nodes(w, all);
    J &x = *all[r.below(all.size())];
    switch (x.t) {
    case J::Null: x = r.pick(std::vector<J>{J::boolean(false), J::integer(0), J::str(""), J::str("null"), J::arr(), J::obj()}); break;
    case J::Bool: x = r.pick(std::vector<J>{J::boolean(!x.b), J::integer(x.b), J::str(x.b ? "true" : "false")}); break;
    case J::Int: {
        int64_t y;
        int64_t d = r.pick(std::vector<int64_t>{1, -1, 1LL << 32, -(1LL << 32)});
        if (r.chance(15)) x = J::str(dump(x));
        else if (r.chance(15)) x = J::boolean(x.i != 0);
        else if (r.chance(10)) x = J::dbl((double)x.i + 0.5);
        else if (r.chance(20)) x = J::dbl((double)x.i);      // (rounded, perhaps)
        else if (!__builtin_add_overflow(x.i, d, &y)) x.i = y;
        break; }
    case J::Dbl: x = r.chance(20) ? J::str(dump(x)) : r.chance(25) ? J::dbl(-x.d) : J::dbl(std::nextafter(x.d, r.chance(50) ? 1e300 : -1e300)); break;
    case J::Str: {
        switch (r.below(6)) {
        case 0: x.s += 'a'; break;
        case 1: if (!x.s.empty()) x.s.pop_back(); else x = J(); break;
        case 2: x.s += std::string("\0", 1); break;
        case 3: if (!x.s.empty()) x.s[r.below(x.s.size())] = 'z'; break;
        case 4: for (auto &c : x.s) c = (char)(c >= 'a' && c <= 'z' ? c - 32 : c); break;
        default: x = J::arr({x});
        }
        // keep it well-formed
        for (unsigned char c : x.s) if (c >= 0x80) { x.s = "e"; break; }
        break; }
    case J::Arr:
        switch (r.below(5)) {
        case 0: if (x.a.empty()) x = J::obj(); else x.a.pop_back(); break;
        case 1: x.a.push_back(g.scalar()); break;
        case 2: if (x.a.size() > 1) std::swap(x.a[0], x.a[r.below(x.a.size())]); else x.a.push_back(J()); break;
        case 3: if (!x.a.empty()) { J c = x.a[r.below(x.a.size())]; x.a[r.below(x.a.size())] = c; } break;
        default: { J o = J::obj(); for (size_t n = 0; n < x.a.size(); n++) o.set(std::to_string(n), x.a[n]); x = o; }
        }
        break;
    case J::Obj:
        switch (r.below(5)) {
        case 0: if (x.o.empty()) x = J::arr(); else x.o.pop_back(); break;
        case 1: x.set(g.name(), g.scalar()); break;
        case 2: if (!x.o.empty()) { auto kv = x.o.back(); x.o.pop_back(); x.set(kv.first + "a", kv.second); } break;
        case 3: if (x.o.size() > 1) std::swap(x.o[0].second, x.o[1].second); break;
        default: if (!x.o.empty()) { auto kv = x.o.back(); x.o.pop_back(); std::string k = g.name(); if (!x.find(k)) x.set(k, kv.second); }
        }
        break;
    }
    (void)h;
    return w;
}
static J someValue(Rng &r, SchemaGen &g, Hostile &h) { J v = r.chance(50) ? g.value(3) : h.value((int)r.range(0, 2)); if (r.chance(30)) h.mutate(v, 2, false); return v; }
static J other(const J &x, Rng &r, SchemaGen &g, Hostile &h) { return r.chance(35) ? respell(x, r) : r.chance(85) ? nearly(x, r, g, h) : someValue(r, g, h); }

static void pairs(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg; cfg.oddPct = 40;
    SchemaGen g(cfg, r);
    Hostile h(g); h.nan = false; h.badUtf8 = false;
    J x = someValue(r, g, h), y = other(x, r, g, h);
    Lib *a = allLibs()[r.below(12)], *b = r.chance(30) ? a : allLibs()[r.below(12)];
    auto nx = a->native(x), ny = b->native(y);
    J vx, vy;
    std::string e1 = nx->roundTrip(vx), e2 = ny->roundTrip(vy);
    if (!e1.empty() || !e2.empty()) { run.violation("equal", std::string(a->name) + "/" + b->name + ": " + e1 + e2 + ": " + dump(x) + " " + dump(y)); return; }
    bool want = jeq(vx, vy);
    std::string desc = fmt("%s/%s: ", a->name, b->name) + dump(vx) + " and " + dump(vy) + (want ? " are equal" : " differ");
    auto check = [&](const char *how, bool got) {
        run.count("comparisons");
        if (got != want) { run.violation("equal", desc + ", but " + how + " says otherwise"); return false; }
        return true;
    };
    run.count("evaluations");
    run.count(want ? "equal" : "unequal");
    run.count(fmt("cell:%s:%s:%d", a->name, b->name, want));
    run.seen("pairs", hashStr(desc));
    if (!check("equalTo", nx->adapter().equalTo(ny->adapter(), true))) return;
    if (!check("the reverse comparison", ny->adapter().equalTo(nx->adapter(), true))) return;
    std::unique_ptr<FrozenValue> fx(nx->adapter().freeze()), fy(ny->adapter().freeze());
    if (!check("the frozen value", fx->equalTo(ny->adapter(), true))) return;
    // the frozen copies outlive the document, and their own clones
    nx->destroyDoc();
    if (!check("the frozen value without its document", fx->equalTo(ny->adapter(), true))) return;
    std::unique_ptr<FrozenValue> cx(fx->clone());
    if (!check("the clone", cx->equalTo(ny->adapter(), true))) return;
    std::unique_ptr<FrozenValue> cc(cx->clone());
    fx.reset();
    if (!check("the clone without the original", cx->equalTo(ny->adapter(), true))) return;
    cx.reset();
    if (!check("the clone of a clone", cc->equalTo(ny->adapter(), true))) return;
    auto nx2 = a->native(x);
    ny->destroyDoc();
    if (!check("the frozen second value", fy->equalTo(nx2->adapter(), true))) return;
    // a copy equals its original
    want = true;
    desc = fmt("%s: ", a->name) + dump(vx) + " is equal to itself";
    if (!check("the frozen value", cc->equalTo(nx2->adapter(), true)) || !check("equalTo", nx2->adapter().equalTo(nx2->adapter(), true))) return;
    // (weakly, "NaN" is a number that differs from itself)
    std::string low = dump(vx);
    for (auto &ch : low) ch = (char)tolower((unsigned char)ch);
    if (low.find("nan") == std::string::npos && !check("weak comparison", nx2->adapter().equalTo(nx2->adapter(), false))) return;
    if (idx % 997 == 5) run.sample("pairs", desc);
}
// equality as the keywords see it
static void words(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg; cfg.oddPct = 40; cfg.draft = r.chance(60) ? 7 : r.chance(50) ? 4 : 3;
    SchemaGen g(cfg, r);
    Hostile h(g); h.nan = false; h.badUtf8 = false;
    Lib *a = allLibs()[r.below(10)], *b = r.chance(50) ? a : allLibs()[r.below(10)];
    J schema = J::obj();
    std::vector<J> vals;
    int kind = (int)(idx % 3);
    if (kind == 1 && cfg.draft < 7) kind = 0;
    if (kind == 0) {
        for (int64_t n = r.range(1, 5); n > 0; n--) { J v = vals.empty() || r.chance(40) ? someValue(r, g, h) : nearly(r.pick(vals), r, g, h); bool dup = false; for (auto &e : vals) if (jeq(e, v)) dup = true; if (!dup) vals.push_back(v); }
        schema.set("enum", J::arr(vals));
    } else if (kind == 1) { vals.push_back(someValue(r, g, h)); schema.set("const", vals[0]); }
    else { vals.push_back(someValue(r, g, h)); schema.set("uniqueItems", J::boolean(r.chance(90))); }
    if ((!strcmp(a->name, "json11")) && json11Big(schema)) { run.count("not_held"); return; }
    Opt opt; opt.draft = cfg.draft;
    auto c = a->compile(schema, opt);
    if (!c.c) { run.violation("keyword", fmt("%s draft%d rejects ", a->name, cfg.draft) + dump(schema) + ": " + c.what); return; }
    int seen = 0;
    std::vector<uint64_t> hs;
    for (int n = 0; n < 6; n++) {
        J inst;
        bool want;
        if (kind < 2) { inst = other(r.pick(vals), r, g, h); want = false; for (auto &v : vals) if (jeq(v, inst)) want = true; }
        else {
            inst = J::arr();
            for (int64_t k = r.range(0, 5); k > 0; k--) inst.a.push_back(inst.a.empty() || r.chance(30) ? other(vals[0], r, g, h) : nearly(r.pick(inst.a), r, g, h));
            if (inst.a.size() > 1 && r.chance(40)) inst.a.push_back(respell(r.pick(inst.a), r));
            want = true;
            if (schema.find("uniqueItems")->b) for (size_t x = 0; x < inst.a.size(); x++) for (size_t y = x + 1; y < inst.a.size(); y++) if (jeq(inst.a[x], inst.a[y])) want = false;
            if (r.chance(6)) { inst = J::obj().set("a", J::integer(1)).set("b", J::integer(1)); want = true; }
        }
        if (!strcmp(b->name, "json11") && json11Big(inst)) { run.count("not_held"); continue; }
        Outcome o = a == b ? c.c->validate(inst, opt, r.chance(50)) : b->validateSchema(c.c->schemaPtr(), inst, opt, r.chance(50));
        run.count("evaluations");
        run.count(want ? "equal" : "unequal");
        run.count("keyword_checks");
        seen |= want ? 1 : 2;
        hs.push_back(hashStr(dump(schema) + dump(inst)));
        if (o.threw || o.valid != want) { run.violation("keyword", fmt("schema in %s, instance in %s, draft%d: expected %s: ", a->name, b->name, cfg.draft, tf(want)) + dump(schema) + " instance " + dump(inst)); return; }
    }
    if (seen == 3) for (auto x : hs) run.seen("pairs", x);
    if (idx % 997 == 5) run.sample("words", dump(schema));
}
int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t idx, Rng &r) { if (run.mode == "pairs") pairs(run, idx, r); else words(run, idx, r); });
}
