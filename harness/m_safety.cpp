// C05: hostile schemas, instances and texts under sanitizers; leak accounting
#include "hostile.hpp"
using namespace vh;
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();

static const std::vector<Lib *> &libs() {
    static const std::vector<Lib *> v = {libRapidJson(), libNlohmann(), libJsonCpp(), libPicoJson(), libBoostJson(), libPoco(), libQtJson(), libQVariant(), libYaml(), libPropertyTree(), libRapidJsonCrt(), libJson11()};
    return v;
}
struct Tally { uint64_t compiled = 0, rejected = 0, validations = 0, valid = 0, invalid = 0, threw = 0, errors = 0, nonRuntime = 0; };
static uint64_t sink;

static void use(const Outcome &o, Tally &t) {
    t.validations++;
    if (o.threw) { t.threw++; sink += o.what.size(); return; }
    (o.valid ? t.valid : t.invalid)++;
    for (auto &e : o.errs) { t.errors++; sink += hashStr(e.desc) + hashStr(e.ptr); for (auto &c : e.ctx) sink += c.size(); }
}
static void instances(Compiled &c, const std::vector<J> &insts, int draft, Tally &t) {
    for (int round = 0; round < 2; round++)      // the second round uses validators that may have thrown
        for (auto &i : insts)
            for (int o = 0; o < 4; o++) {
                Opt opt; opt.draft = draft; opt.strict = o & 1; opt.strictDate = o & 2;
                if (round && o) continue;
                Outcome a, b;
                c.validate2(i, opt, a, b);
                use(a, t); use(b, t);
            }
}
static void add(Run &run, const Tally &t) {
    run.count("compiled", t.compiled); run.count("rejected", t.rejected); run.count("evaluations", t.validations);
    run.count("valid", t.valid); run.count("invalid", t.invalid); run.count("threw", t.threw); run.count("errors", t.errors);
}

// The memory in use must not grow when the same thing is done again and again
static bool leaks(Run &run, const std::function<void(Tally &)> &fn, Tally &t, size_t &grown) {
    fn(t);
    if (!__sanitizer_get_current_allocated_bytes) return false;
    Tally u;
    size_t a = __sanitizer_get_current_allocated_bytes();
    fn(u);
    size_t b = __sanitizer_get_current_allocated_bytes();
    run.count("leak_measurements");
    if (b <= a) return false;
    for (int n = 0; n < 3; n++) {
        a = __sanitizer_get_current_allocated_bytes();
        fn(u);
        b = __sanitizer_get_current_allocated_bytes();
        if (b <= a) return false;
        grown = b - a;
    }
    return true;
}

static void docs(Run &run, uint64_t idx, Rng &r) {
    Lib *lib = libs()[idx % libs().size()];
    GenCfg cfg;
    uint64_t ds = r.below(10);
    cfg.draft = ds < 5 ? 7 : ds < 8 ? 4 : 3;
    cfg.oddPct = 30;
    SchemaGen g(cfg, r);
    Hostile h(g);
    std::string ln = lib->name;
    h.nan = ln != "picojson";
    J base = g.schema(2);
    J schema = h.schema(r.chance(45));
    if (schema.t == J::Obj && r.chance(50) && base.t == J::Obj) for (auto &kv : base.o) if (!schema.find(kv.first) && kv.first != "$ref") schema.set(kv.first, kv.second);
    // a reference at the root, and cycles of those, are subjects of C03 and C18
    if (schema.find("$ref")) schema.erase("$ref");
    InstGen ig(g, nullptr);
    std::vector<J> insts;
    for (int n = 0; n < 3; n++) { J i = ig.make(base, 3); h.mutate(i, (int)r.range(0, 3), false); insts.push_back(i); }
    insts.push_back(h.value(3));
    Opt opt; opt.draft = cfg.draft;
    if (run.verbose) { fprintf(stderr, "%s draft%d schema %s\n", lib->name, cfg.draft, dump(schema).c_str()); for (auto &i : insts) fprintf(stderr, "  instance %s\n", dump(i).c_str()); }
    auto fn = [&](Tally &t) {
        CompileResult c = lib->compile(schema, opt);
        if (!c.c) { t.rejected++; return; }
        t.compiled++;
        instances(*c.c, insts, cfg.draft, t);
    };
    Tally t;
    run.count("schemas");
    run.seen("documents", hashStr(dump(schema) + lib->name));
    if (idx % 3 == 0) {
        size_t grown = 0;
        if (leaks(run, fn, t, grown)) run.violation("leak", fmt("%s draft%d: %zu bytes per repetition: schema ", lib->name, cfg.draft, grown) + dump(schema) + " instances " + dump(insts[0]) + " " + dump(insts[1]));
    } else fn(t);
    add(run, t);
    if (idx % 997 == 5) run.sample("documents", dump(schema) + " <- " + dump(insts[0]));
}

// what goes wrong while parsing must not leave anything behind, nor spoil the parser
static void texts(Run &run, uint64_t idx, Rng &r) {
    Lib *lib = libs()[idx % libs().size()];
    GenCfg cfg;
    cfg.draft = r.chance(50) ? 7 : r.chance(50) ? 4 : 3;
    cfg.oddPct = 20; cfg.keywordNames = false;
    SchemaGen g(cfg, r);
    bool yaml = std::string(lib->name) == "yaml_cpp";
    auto spoil = [&](std::string s) {
        static const std::vector<std::string> tok = {"1e400", "-1e400", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "1E5", "-0", "0.1e1", "1e-400", "\"\\ud800\"", "\"\\u0000\"", "\"\\ud83d\\ude00\"",
            "[[[[[[[[[[", "]]]]", "{\"a\":", "}", ",", ":", "null", "true", "\"", "\\", "1.0", "9007199254740993", "123456789012345678901234567890", "\"a\":1,\"a\":2", "{}", "[]", "//x\n", "nan", "Infinity", "\t", "\n", " "};
        for (int64_t n = r.range(0, 4); n > 0; n--) {
            size_t at = r.below(s.size() + 1);
            switch (r.below(6)) {
            case 0: case 1: s.insert(at, r.pick(tok)); break;
            case 2: if (at < s.size()) s.erase(at, (size_t)r.range(1, 4)); break;
            case 3: if (at < s.size()) s[at] = (char)r.range(32, 126); break;
            case 4: { // replace a number
                size_t q = s.find_first_of("0123456789", at);
                if (q != std::string::npos) { size_t e = s.find_first_not_of("0123456789.eE+-", q); s.replace(q, (e == std::string::npos ? s.size() : e) - q, r.pick(tok)); }
                break; }
            default: { size_t l = (size_t)r.range(1, 20); s.insert(at, s.substr(r.below(s.size() + 1), l)); }
            }
        }
        for (char &c : s) if (c == '&' || c == '*') c = '+';
        size_t p;
        while ((p = s.find("$ref")) != std::string::npos) s[p] = '_';
        return s;
    };
    J schema = g.schema((int)r.range(1, 3));
    InstGen ig(g, nullptr);
    std::string st = r.chance(60) ? spoil(dump(schema)) : dump(schema);
    std::vector<std::string> it;
    for (int n = 0; n < 5; n++) it.push_back(n ? spoil(dump(ig.make(schema, 3))) : dump(ig.make(schema, 3)));
    (void)yaml;
    Opt opt; opt.draft = cfg.draft;
    uint64_t accepted = 0, refused = 0;
    auto fn = [&](Tally &t) {
        CompileResult c;
        accepted = refused = 0;
        if (!lib->compileText(st, opt, c)) { refused++; return; }
        accepted++;
        if (!c.c) { t.rejected++; return; }
        t.compiled++;
        for (auto &i : it)
            for (int o = 0; o < 4; o++) {
                Opt op = opt; op.strict = o & 1; op.strictDate = o & 2;
                Outcome a;
                if (!lib || !c.c->validateText(i, op, r.chance(50), a)) { refused++; break; }
                accepted++;
                use(a, t);
            }
    };
    if (run.verbose) { fprintf(stderr, "%s draft%d schema %s\n", lib->name, cfg.draft, st.c_str()); for (auto &i : it) fprintf(stderr, "  instance %s\n", i.c_str()); }
    Tally t;
    run.count("schemas");
    run.seen("texts", hashStr(st + lib->name));
    if (idx % 5 == 0) {
        size_t grown = 0;
        if (leaks(run, fn, t, grown)) run.violation("leak", fmt("%s draft%d: %zu bytes per repetition: schema text ", lib->name, cfg.draft, grown) + st);
    } else fn(t);
    run.count("texts_accepted", accepted);
    run.count("texts_refused", refused);
    add(run, t);
    if (idx % 997 == 5) run.sample("texts", st + " <- " + it[1]);
}

int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t idx, Rng &r) { if (run.mode == "texts") texts(run, idx, r); else docs(run, idx, r); });
}
