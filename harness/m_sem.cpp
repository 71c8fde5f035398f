// C01, C02: verdicts against the reference evaluator
#include "bulk.hpp"
#include "sem.hpp"
using namespace vh;

static const char *tname(const J &j) { static const char *n[] = {"null", "boolean", "integer", "number", "string", "array", "object"}; return n[j.t]; }

static void one(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg;
    cfg.draft = run.mode == "d3" ? 3 : run.mode == "d4" ? 4 : 7;
    cfg.maxDepth = (int)r.range(1, run.thorough ? 4 : 3);
    cfg.integralDbl = cfg.draft == 7;
    cfg.oddPct = r.chance(30) ? 40 : 8;
    SchemaGen g(cfg, r);
    J schema = g.schema(cfg.maxDepth);
    if (cfg.draft < 7 && schema.t != J::Obj) return;
    if (schema.t == J::Obj) g.decorate(schema);
    if (r.chance(25)) schema = shuffled(schema, r);
    Opt opt; opt.draft = cfg.draft; opt.strictDate = r.chance(50);
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    run.count("schemas");
    CompileResult c = lib->compile(schema, opt);
    if (!c.c) {
        run.violation("rejected-schema", fmt("%s draft%d: well-formed schema rejected (%s): ", lib->name, cfg.draft, c.what.c_str()) + dump(schema));
        return;
    }
    InstGen ig(g, nullptr);
    int seen = 0;
    std::vector<uint64_t> hashes;
    J last;
    for (int n = 0; n < 12; n++) {
        J inst = n < 7 ? ig.make(schema, 3) : n < 11 ? ig.mutate(last, 2) : g.value(2);
        last = inst;
        if (!cfg.integralDbl && hasIntegralDbl(inst)) continue;
        Ref ref(cfg.draft);
        bool want = ref.ok(schema, inst);
        if (ref.gaveUp) { run.count("undecided"); continue; }
        bool res = r.chance(50);
        Outcome o = c.c->validate(inst, opt, res);
        run.count("evaluations");
        run.count(want ? "valid" : "invalid");
        if (schema.t == J::Obj) for (auto &kv : schema.o) run.count("kw:" + kv.first + ":" + tname(inst) + (want ? ":1" : ":0"));
        seen |= want ? 1 : 2;
        hashes.push_back(hashStr(dump(schema) + "|" + dump(inst)));
        if (o.threw || o.valid != want) {
            auto fails = [&](const J &s, const J &i) {
                Ref rf(cfg.draft);
                bool w = rf.ok(s, i);
                CompileResult c2 = lib->compile(s, opt);
                if (!c2.c) return false;
                Outcome o2 = c2.c->validate(i, opt, res);
                return o2.threw == o.threw && (o2.threw || o2.valid != w) && (o.threw || o2.valid == o.valid);
            };
            J s = schema, i = inst;
            shrink(s, i, fails);
            run.violation("verdict", fmt("%s %s%s: expected %s, got %s: schema ", lib->name, optText(opt).c_str(), res ? " with results" : "", tf(want), o.threw ? ("exception " + o.what).c_str() : tf(o.valid)) + dump(s) + " instance " + dump(i));
            return;
        }
    }
    if (seen == 3) for (uint64_t h : hashes) run.seen("pairs", h);
    if (idx % 997 == 5 && schema.t == J::Obj) run.sample("pairs", dump(schema) + "  <-  " + dump(last));
}

// many parts: what decides stands at any place among them
static void bulk(Run &run, uint64_t idx, Rng &r) {
    int draft = run.mode == "bulk7" ? 7 : r.chance(50) ? 4 : 3;
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    Bulk b(r, draft, run.thorough ? 1025 : 300);
    b.make();
    Opt opt; opt.draft = draft;
    run.count("schemas");
    run.count("bulk:" + b.kind);
    CompileResult c = lib->compile(b.schema, opt);
    if (!c.c) { run.violation("rejected-schema", fmt("%s draft%d: well-formed schema rejected (%s): ", lib->name, draft, c.what.c_str()) + dump(b.schema)); return; }
    for (auto &inst : b.insts) {
        Ref ref(draft);
        ref.maxSteps = 2000000; ref.maxDepth = 400;
        bool want = ref.ok(b.schema, inst);
        if (ref.gaveUp) { run.count("undecided"); continue; }
        bool res = r.chance(50);
        Outcome o = c.c->validate(inst, opt, res);
        run.count("evaluations");
        run.count(want ? "valid" : "invalid");
        run.seen("pairs", hashStr(dump(b.schema) + "|" + dump(inst)));
        if (o.threw || o.valid != want) {
            auto fails = [&](const J &s, const J &i) {
                Ref rf(draft);
                rf.maxSteps = 2000000; rf.maxDepth = 400;
                bool w = rf.ok(s, i);
                CompileResult c2 = lib->compile(s, opt);
                if (!c2.c) return false;
                Outcome o2 = c2.c->validate(i, opt, res);
                return o2.threw == o.threw && (o2.threw || o2.valid != w) && (o.threw || o2.valid == o.valid);
            };
            J s = b.schema, i = inst;
            shrink(s, i, fails);
            run.violation("verdict", fmt("%s %s%s: expected %s, got %s: schema ", lib->name, optText(opt).c_str(), res ? " with results" : "", tf(want), o.threw ? ("exception " + o.what).c_str() : tf(o.valid)) + dump(s).substr(0, 3000) + " instance " + dump(i).substr(0, 3000));
            return;
        }
    }
}

int main(int argc, char **argv) { return harnessMain(argc, argv, [](Run &run, uint64_t idx, Rng &r) { run.mode.compare(0, 4, "bulk") ? one(run, idx, r) : bulk(run, idx, r); }); }
