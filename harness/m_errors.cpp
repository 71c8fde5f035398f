// C06: errors do not change verdicts, exist exactly for invalid instances, and name the places that fail
#include "bulk.hpp"
#include "errs.hpp"
#include "hostile.hpp"
#include "sem.hpp"
using namespace vh;

static const std::vector<Lib *> &libs11() {
    static const std::vector<Lib *> v = {libRapidJson(), libNlohmann(), libJsonCpp(), libPicoJson(), libBoostJson(), libPoco(), libQtJson(), libQVariant(), libRapidJsonCrt(), libJson11(), libYaml(), libPropertyTree()};
    return v;
}
// what must hold for any schema and instance; "" or what does not
static std::string invariants(const J &inst, const Outcome &a, const Outcome &b, bool resolve) {
    if (a.threw || b.threw) return "";
    if (a.valid != b.valid) return fmt("verdict %s without and %s with results", tf(a.valid), tf(b.valid));
    if (!b.bad.empty()) return b.bad;
    if (b.valid && !b.errs.empty()) return "a valid instance has errors: " + errText(b.errs);
    if (!b.valid && b.errs.empty()) return "an invalid instance has no error";
    return resolve ? errorsConsistent(inst, b.errs) : "";
}
static std::string places(const J &schema, const J &inst, int draft, const Outcome &b, Run *run) {
    Ref ref(draft);
    ref.maxSteps = 2000000; ref.maxDepth = 400;
    Failures f(ref);
    f.collect(schema, inst, "", true);
    if (ref.gaveUp) return "";
    std::set<std::string> got;
    for (auto &e : b.errs) {
        got.insert(e.ptr);
        if (!f.may.count(e.ptr)) return "an error names '" + e.ptr + "' (" + e.desc + "), where nothing fails";
    }
    if (run) { run->count("failing_keywords", f.must.size()); run->count("error_places", got.size()); }
    for (size_t n = 0; n < f.must.size(); n++) {
        bool hit = false;
        for (auto &p : f.must[n]) if (got.count(p)) hit = true;
        if (!hit) return "'" + f.mustKw[n] + "' fails at '" + *f.must[n].begin() + "', but no error names that place: " + errText(b.errs);
        if (run) run->count("kw:" + f.mustKw[n] + fmt(":%d", (int)std::count(f.must[n].begin()->begin(), f.must[n].begin()->end(), '/')));
    }
    return "";
}

static void places(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg;
    cfg.draft = r.chance(60) ? 7 : r.chance(50) ? 4 : 3;
    cfg.maxDepth = (int)r.range(1, run.thorough ? 4 : 3);
    cfg.integralDbl = cfg.draft == 7;
    cfg.oddPct = r.chance(40) ? 50 : 10;
    SchemaGen g(cfg, r);
    J schema = g.schema(cfg.maxDepth);
    if (schema.t != J::Obj) { J p = J::obj(), s = J::obj(); p.set(g.name(), schema); s.set("properties", p); schema = s; if (cfg.draft < 7) return; }
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    Opt opt; opt.draft = cfg.draft;
    CompileResult c = lib->compile(schema, opt);
    run.count("schemas");
    if (!c.c) { run.count("rejected"); return; }
    InstGen ig(g, nullptr);
    J last;
    for (int n = 0; n < 10; n++) {
        J inst = n < 4 ? ig.make(schema, 3) : n < 9 ? ig.mutate(last, 3) : g.value(2);
        last = inst;
        if (!cfg.integralDbl && hasIntegralDbl(inst)) continue;
        Outcome a, b;
        c.c->validate2(inst, opt, a, b);
        run.count("evaluations");
        if (b.threw) continue;
        run.count(b.valid ? "valid" : "invalid");
        run.count("errors", b.errs.size());
        auto check = [&](const J &s, const J &i, const Outcome &x, const Outcome &y, Run *rn) {
            std::string w = invariants(i, x, y, true);
            Ref rf(cfg.draft);
            if (w.empty() && !y.valid && !rf.ok(s, i) && !rf.gaveUp) w = places(s, i, cfg.draft, y, rn);
            return w;
        };
        std::string w = check(schema, inst, a, b, &run);
        if (!w.empty()) {
            J s = schema, i = inst;
            shrink(s, i, [&](const J &s2, const J &i2) {
                CompileResult c2 = lib->compile(s2, opt);
                if (!c2.c) return false;
                Outcome x, y;
                c2.c->validate2(i2, opt, x, y);
                return !check(s2, i2, x, y, nullptr).empty();
            });
            CompileResult c2 = lib->compile(s, opt);
            if (c2.c) { Outcome x, y; c2.c->validate2(i, opt, x, y); std::string w2 = check(s, i, x, y, nullptr); if (!w2.empty()) w = w2; }
            run.violation("errors", fmt("%s %s: ", lib->name, optText(opt).c_str()) + w + ": schema " + dump(s) + " instance " + dump(i));
            return;
        }
        if (!b.valid) { std::set<std::string> p; for (auto &e : b.errs) p.insert(e.ptr); std::string t; for (auto &x : p) t += x + " "; run.seen("error_sets", hashStr(dump(schema) + t)); }
        if (idx % 997 == 5 && !b.valid) run.sample("places", dump(schema) + " <- " + dump(inst) + " errors " + errText(b.errs));
    }
}
static void bulk(Run &run, uint64_t idx, Rng &r) {
    int draft = r.chance(60) ? 7 : r.chance(50) ? 4 : 3;
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    Bulk b(r, draft, run.thorough ? 513 : 129);
    b.make();
    Opt opt; opt.draft = draft;
    CompileResult c = lib->compile(b.schema, opt);
    run.count("schemas");
    if (!c.c) { run.count("rejected"); return; }
    run.count("bulk:" + b.kind);
    for (auto &inst : b.insts) {
        auto check = [&](Compiled &k, const J &s, const J &i, Run *rn) {
            Outcome x, y;
            k.validate2(i, opt, x, y);
            if (rn) { rn->count("evaluations"); rn->count(y.valid ? "valid" : "invalid"); rn->count("errors", y.errs.size()); }
            std::string w = invariants(i, x, y, true);
            Ref rf(draft);
            rf.maxSteps = 2000000; rf.maxDepth = 400;
            if (w.empty() && !y.threw && !y.valid && !rf.ok(s, i) && !rf.gaveUp) w = places(s, i, draft, y, rn);
            return w;
        };
        std::string w = check(*c.c, b.schema, inst, &run);
        if (!w.empty()) {
            J s = b.schema, i = inst;
            shrink(s, i, [&](const J &s2, const J &i2) { CompileResult c2 = lib->compile(s2, opt); return c2.c && !check(*c2.c, s2, i2, nullptr).empty(); });
            CompileResult c2 = lib->compile(s, opt);
            if (c2.c) { std::string w2 = check(*c2.c, s, i, nullptr); if (!w2.empty()) w = w2; }
            run.violation("errors", fmt("%s %s: ", lib->name, optText(opt).c_str()) + w.substr(0, 2000) + ": schema " + dump(s).substr(0, 2000) + " instance " + dump(i).substr(0, 2000));
            return;
        }
        run.seen("error_sets", hashStr(dump(b.schema) + dump(inst)));
    }
}
static void hostile(Run &run, uint64_t idx, Rng &r) {
    Lib *lib = libs11()[idx % libs11().size()];
    GenCfg cfg;
    cfg.draft = r.chance(50) ? 7 : r.chance(50) ? 4 : 3;
    cfg.oddPct = 40;
    SchemaGen g(cfg, r);
    Hostile h(g);
    h.nan = false; h.badUtf8 = false;
    J base = g.schema((int)r.range(1, 3));
    J schema = r.chance(60) ? base : h.schema(r.chance(30));
    if (schema.t != J::Obj || schema.find("$ref")) return;
    if (r.chance(40)) schema.set("format", J::str(r.pick(std::vector<std::string>{"date", "time", "date-time", "ipv4"})));
    InstGen ig(g, nullptr);
    CompileResult c;
    Opt opt; opt.draft = cfg.draft;
    c = lib->compile(schema, opt);
    run.count("schemas");
    if (!c.c) { run.count("rejected"); return; }
    bool typed = lib->strictTypes;
    for (int n = 0; n < 5; n++) {
        J inst = ig.make(base, 3);
        h.mutate(inst, (int)r.range(0, 3), false);
        if (n == 4) inst = J::str(h.str());
        for (int o = 0; o < 4; o++) {
            opt.strict = o & 1; opt.strictDate = o & 2;
            Outcome a, b;
            c.c->validate2(inst, opt, a, b);
            run.count("evaluations");
            if (a.threw || b.threw) { run.count("threw"); continue; }
            run.count(b.valid ? "valid" : "invalid");
            std::string w = invariants(inst, a, b, typed);
            if (!w.empty()) {
                J s = schema, i = inst;
                shrink(s, i, [&](const J &s2, const J &i2) {
                    CompileResult c2 = lib->compile(s2, opt);
                    if (!c2.c) return false;
                    Outcome x, y;
                    c2.c->validate2(i2, opt, x, y);
                    return !invariants(i2, x, y, typed).empty();
                });
                run.violation("hostile", fmt("%s %s: ", lib->name, optText(opt).c_str()) + w + ": schema " + dump(s) + " instance " + dump(i));
                return;
            }
            run.seen("error_sets", hashStr(dump(schema) + dump(inst)));
        }
    }
}
int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t idx, Rng &r) { if (run.mode == "hostile") hostile(run, idx, r); else if (run.mode == "bulk") bulk(run, idx, r); else places(run, idx, r); });
}
