// C16: verdicts and errors are the same whatever happened before, and in every process
#include "errs.hpp"
#include "hostile.hpp"
#include "sem.hpp"
#include <valijson/validator.hpp>
using namespace vh;

static valijson::Validator makeValidator(const Opt &o) {
    return valijson::Validator(o.strict ? valijson::Validator::kStrongTypes : valijson::Validator::kWeakTypes, o.strictDate ? valijson::Validator::kStrictDateTime : valijson::Validator::kPermissiveDateTime);
}
static bool sameOutcome(const Outcome &a, const Outcome &b) {
    if (a.threw != b.threw || (!a.threw && a.valid != b.valid) || a.errs.size() != b.errs.size()) return false;
    for (size_t k = 0; k < a.errs.size(); k++) if (a.errs[k].ptr != b.errs[k].ptr || a.errs[k].desc != b.errs[k].desc || a.errs[k].ctx != b.errs[k].ctx) return false;
    return true;
}
static std::string outText(const Outcome &o) { return (o.threw ? "threw " + o.what : std::string(tf(o.valid))) + " " + errText(o.errs); }

// Patterns that are easily confused with each other: a common start or end, or many of them
static std::string pattern(Rng &r, const std::string &stem) {
    static const std::vector<std::string> tails = {"", "a", "b", "a$", "b$", "(a|b)$", "[ab]", "A", "a ", ".", "\\.", "aa", "é", "a?$", "b?$"};
    static const std::vector<std::string> heads = {"", "^", "^a", "b", "^(a|b)"};
    std::string p = r.chance(70) ? r.pick(heads) + stem + r.pick(tails) : std::to_string(r.below(400)) + r.pick(tails);
    if (r.chance(10)) p += std::string("(") + r.pick(tails) + ")";
    return p;
}
static std::string text(Rng &r, const std::string &stem) {
    static const std::vector<std::string> tails = {"", "a", "b", "ab", "aa", "A", "a ", ".", "é", "c"};
    static const std::vector<std::string> heads = {"", "a", "b", "c"};
    return r.chance(75) ? r.pick(heads) + stem + r.pick(tails) : std::to_string(r.below(400)) + r.pick(tails);
}
static J format(Rng &r) { J s = J::obj(); s.set("format", J::str(r.pick(std::vector<std::string>{"date", "time", "date-time", "ipv4", "uuid"}))); return s; }
static J formatted(Rng &r) {
    static const std::vector<std::string> v = {"2020-02-29", "2021-02-29", "12:30:00Z", "12:30:00", "23:59:60Z", "12:59:60Z", "2020-01-01T00:00:00+01:00", "2020-01-01T00:00:00", "2016-12-31T23:59:60Z", "2016-12-31T22:59:60Z", "1.2.3.4", "1.2.3.256", "x", "23:59:60+00:00", "00:59:60+01:00"};
    return J::str(r.pick(v));
}
// "what" says which state the schema is likely to meet
static J stateful(Rng &r, SchemaGen &g, const std::string &stem, int draft, int depth) {
    J s = J::obj();
    auto sub = [&]() { return depth <= 0 || r.chance(20) ? (r.chance(50) ? format(r) : g.schema(1)) : stateful(r, g, stem, draft, depth - 1); };
    auto obj = [&]() { for (;;) { J x = sub(); if (x.t == J::Obj) return x; } };
    if (r.chance(50)) s.set("pattern", J::str(pattern(r, stem)));
    if (r.chance(45)) {
        J pp = J::obj();
        for (int n = r.chance(10) ? 150 : (int)r.range(1, 5); n > 0; n--) pp.set(pattern(r, stem), n > 20 ? g.cfg.draft >= 7 ? J::boolean(r.chance(80)) : J::obj() : obj());
        s.set("patternProperties", pp);
    }
    if (r.chance(40)) s.set("properties", [&] { J p = J::obj(); p.set(text(r, stem), obj()); p.set(g.name(), obj()); return p; }());
    if (r.chance(40)) s.set("additionalProperties", r.chance(30) ? J::boolean(false) : obj());
    if (r.chance(30)) s.set("items", obj());
    if (r.chance(20)) s.set("enum", J::arr({J::str(text(r, stem)), J::str(text(r, stem)), g.value(2), J::integer(1)}));
    if (draft >= 4 && r.chance(25)) s.set(r.pick(std::vector<std::string>{"anyOf", "oneOf", "allOf"}), J::arr({obj(), obj()}));
    if (draft >= 7 && r.chance(25)) { J p = J::obj(); p.set("pattern", J::str(pattern(r, stem))); s.set("propertyNames", p); }
    if (r.chance(10)) s.set("uniqueItems", J::boolean(true));
    if (r.chance(15)) s.set("format", format(r).o[0].second);
    // (throws when it is applied)
    if (r.chance(6)) s.set("pattern", J::str(r.pick(std::vector<std::string>{"(", "[", "a{", "*", "(?<x>a)", "\\"})));
    return s;
}
static J instance(Rng &r, SchemaGen &g, const std::string &stem, int depth) {
    if (depth > 0 && r.chance(60)) {
        J o = J::obj();
        for (int n = (int)r.range(1, 5); n > 0; n--) o.set(r.chance(70) ? text(r, stem) : g.name(), instance(r, g, stem, depth - 1));
        return o;
    }
    if (depth > 0 && r.chance(20)) return J::arr({instance(r, g, stem, depth - 1), instance(r, g, stem, depth - 1)});
    return r.chance(60) ? J::str(text(r, stem)) : r.chance(50) ? formatted(r) : g.value(1);
}
static std::string makeStem(Rng &r) {
    static const std::vector<int> sizes = {0, 0, 1, 3, 7, 14, 15, 16, 30, 31, 32, 62, 63, 64, 90, 127, 128};
    std::string s;
    for (int n = r.pick(sizes); n > 0; n--) s += (char)("qrs"[r.below(r.chance(50) ? 1 : 3)]);
    return s;
}
struct World {
    Opt opt;
    std::vector<J> schemas, insts;
};
static World makeWorld(Run &run, Rng &r, int nSchemas, int nInsts) {
    World w;
    w.opt.draft = r.chance(60) ? 7 : r.chance(50) ? 4 : 3;
    w.opt.strict = r.chance(65);
    w.opt.strictDate = r.chance(50);
    GenCfg cfg;
    cfg.draft = w.opt.draft;
    cfg.integralDbl = false;
    SchemaGen g(cfg, r);
    std::string stem = makeStem(r);
    InstGen ig(g, nullptr);
    for (int k = 0; k < nSchemas; k++) {
        if (r.chance(65)) w.schemas.push_back(stateful(r, g, stem, w.opt.draft, run.thorough ? 3 : 2));
        else { J s = g.schema(2); while (s.t != J::Obj) s = g.schema(2); w.schemas.push_back(s); for (int n = 0; n < 2; n++) w.insts.push_back(ig.make(s, 2)); }
    }
    for (int k = 0; k < nInsts; k++) w.insts.push_back(instance(r, g, stem, 3));
    return w;
}

// One Validator for everything, against a new Validator and a new Schema for each
static void history(Run &run, uint64_t, Rng &r) {
    World w = makeWorld(run, r, (int)r.range(2, 6), 6);
    bool many = r.chance(40);       // schemas and instances in several libraries
    std::vector<CompileResult> cs;
    std::vector<Lib *> ls;
    for (auto &s : w.schemas) {
        Lib *l = many || ls.empty() ? r.pick(typedLibs()) : ls[0];
        ls.push_back(l);
        cs.push_back(l->compile(s, w.opt));
        if (!cs.back().c) { run.violation("rejected", std::string(l->name) + ": " + dump(s) + ": " + cs.back().what); return; }
    }
    valijson::Validator v = makeValidator(w.opt);
    int n = (int)r.range(12, run.thorough ? 60 : 30);
    for (int k = 0; k < n; k++) {
        size_t s = r.below(cs.size());
        const J &inst = r.pick(w.insts);
        Lib *l = many ? r.pick(typedLibs()) : ls[0];
        bool results = r.chance(60);
        Outcome got = l->validateWith(&v, cs[s].c->schemaPtr(), inst, results);
        CompileResult c = ls[s]->compile(w.schemas[s], w.opt);
        Outcome want = l->validateSchema(c.c->schemaPtr(), inst, w.opt, results);
        run.count("evaluations");
        run.count(want.threw ? "threw" : want.valid ? "valid" : "invalid");
        run.seen("pairs", hashStr(dump(w.schemas[s])) ^ hashStr(dump(inst)) * 31);
        if (!sameOutcome(got, want)) {
            run.violation("history", fmt("%s/%s %s, after %d validations with the same Validator: schema ", ls[s]->name, l->name, optText(w.opt).c_str(), k) + dump(w.schemas[s]) + " instance " + dump(inst) + ": " + outText(got) + ", with a new Validator " + outText(want));
            return;
        }
    }
    run.count("validators");
    // copies of a used Validator
    valijson::Validator copy = v;
    { valijson::Validator moved = std::move(v); v = copy; copy = std::move(moved); }
    for (int k = 0; k < 3; k++) {
        size_t s = r.below(cs.size());
        const J &inst = r.pick(w.insts);
        Outcome want = ls[0]->validateSchema(cs[s].c->schemaPtr(), inst, w.opt, true);
        for (valijson::Validator *x : {&v, &copy}) {
            Outcome got = ls[0]->validateWith(x, cs[s].c->schemaPtr(), inst, true);
            run.count("evaluations");
            if (!sameOutcome(got, want)) { run.violation("copied-validator", fmt("%s: schema ", optText(w.opt).c_str()) + dump(w.schemas[s]) + " instance " + dump(inst) + ": " + outText(got) + ", with a new Validator " + outText(want)); return; }
        }
    }
}

// One SchemaParser for everything, against a new one for each
static void parserReuse(Run &run, uint64_t idx, Rng &r) {
    World w = makeWorld(run, r, (int)r.range(3, 7), 4);
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    GenCfg cfg; cfg.draft = w.opt.draft; cfg.integralDbl = false;
    SchemaGen g(cfg, r);
    struct Doc { J schema; FetchEnv env; };
    std::vector<Doc> docs;
    static const std::vector<std::string> ids = {"http://h.example/root", "http://h.example/d", "http://h.example/e", "urn:x:y"};
    auto remote = [&]() {
        J d = J::obj();
        d.set("definitions", [&] { J o = J::obj(); o.set("x", stateful(r, g, "q", w.opt.draft, 1)); o.set("y", g.schema(1)); if (o.o[1].second.t != J::Obj) o.o[1].second = J::obj(); return o; }());
        if (r.chance(40)) d.set(w.opt.draft >= 7 ? "$id" : "id", J::str(r.pick(ids)));
        d.set("type", J::str(g.typeName()));
        return d;
    };
    auto ref = [&](J &s) {
        static const std::vector<std::string> to = {"http://h.example/d", "http://h.example/e", "http://h.example/d#/definitions/x", "http://h.example/e#/definitions/y", "#/definitions/x", "#", "http://h.example/root#/definitions/x", "#/nowhere", "#tag"};
        J o = J::obj(); o.set("$ref", J::str(r.pick(to)));
        J p = s.find("properties") ? *s.find("properties") : J::obj();
        p.set(g.name() + "q", o);
        s.set("properties", p);
    };
    for (auto &s : w.schemas) {
        Doc d;
        d.schema = s;
        if (r.chance(40)) d.schema.set(w.opt.draft >= 7 ? "$id" : "id", J::str(r.pick(ids)));
        if (r.chance(60)) { J defs = J::obj(); J x = stateful(r, g, "q", w.opt.draft, 1); if (r.chance(50)) x.set(w.opt.draft >= 7 ? "$id" : "id", J::str("#tag")); defs.set("x", x); d.schema.set("definitions", defs); }
        for (int k = (int)r.below(4); k > 0; k--) ref(d.schema);
        if (r.chance(12)) d.schema.set(r.pick(std::vector<std::string>{"minLength", "enum", "properties", "required", "pattern", "maximum"}), r.chance(50) ? J::integer(-1) : J::str("bad"));
        for (const char *u : {"http://h.example/d", "http://h.example/e", "http://h.example/root"}) if (r.chance(75)) d.env.docs[u] = remote();
        if (r.chance(10)) d.env.throwAt = 0;
        if (r.chance(10)) d.env.failAt = 0;
        docs.push_back(std::move(d));
    }
    auto box = lib->parser(w.opt.draft);
    for (int k = 0; k < (int)docs.size() + 3; k++) {
        Doc &d = docs[r.below(docs.size())];
        FetchEnv e1 = d.env, e2 = d.env;
        CompileResult got = box->compile(d.schema, &e1), want = lib->compile(d.schema, w.opt, &e2);
        run.count("parsed");
        run.count(want.c ? "well_formed" : "malformed");
        auto fail = [&](const std::string &how) { run.violation("parser", fmt("%s %s, after %d documents with the same parser: ", lib->name, optText(w.opt).c_str(), k) + dump(d.schema) + ": " + how); };
        if (!got.c != !want.c || got.kind != want.kind || got.what != want.what) { fail((got.c ? "accepted" : "rejected: " + got.what) + ", by a new parser " + (want.c ? "accepted" : "rejected: " + want.what)); return; }
        if (e1.events != e2.events) { fail("another sequence of fetches: " + std::to_string(e1.events.size()) + " events, with a new parser " + std::to_string(e2.events.size())); return; }
        if (e1.live.size() != e2.live.size()) { fail("other documents are left behind"); return; }
        run.count("remote_documents", e1.handed);
        if (!got.c) continue;
        for (int n = 0; n < 3; n++) {
            const J &inst = r.pick(w.insts);
            Outcome a = got.c->validate(inst, w.opt, true), b = want.c->validate(inst, w.opt, true);
            run.count("evaluations");
            run.count(b.threw ? "threw" : b.valid ? "valid" : "invalid");
            run.seen("pairs", hashStr(dump(d.schema)) ^ hashStr(dump(inst)) * 31);
            if (!sameOutcome(a, b)) { fail("instance " + dump(inst) + ": " + outText(a) + ", with a schema from a new parser " + outText(b)); return; }
        }
    }
}

// Members in another order
static void shuffle(Run &run, uint64_t idx, Rng &r) {
    World w = makeWorld(run, r, 1, 5);
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    J s = w.schemas[0];
    CompileResult c0 = lib->compile(s, w.opt);
    if (!c0.c) { run.violation("rejected", std::string(lib->name) + ": " + dump(s) + ": " + c0.what); return; }
    for (int k = 0; k < 3; k++) {
        J s2 = shuffled(s, r);
        CompileResult c = lib->compile(s2, w.opt);
        if (!c.c) { run.violation("order", std::string(lib->name) + " " + optText(w.opt) + ": accepts " + dump(s) + " but not " + dump(s2)); return; }
        for (auto &i : w.insts) {
            J i2 = r.chance(70) ? shuffled(i, r) : i;
            bool results = r.chance(50);
            Outcome a = c0.c->validate(i, w.opt, results), b = c.c->validate(i2, w.opt, results);
            run.count("evaluations");
            run.count(a.threw ? "threw" : a.valid ? "valid" : "invalid");
            run.seen("pairs", hashStr(dump(s2)) ^ hashStr(dump(i2)) * 31);
            // (an invalid pattern is found only when it is reached)
            if (a.threw || b.threw) continue;
            if (a.valid != b.valid || (results && a.errs.empty() != b.errs.empty())) {
                run.violation("order", std::string(lib->name) + " " + optText(w.opt) + ": " + dump(s) + " with " + dump(i) + ": " + outText(a) + "; " + dump(s2) + " with " + dump(i2) + ": " + outText(b));
                return;
            }
        }
    }
}

// The same cases in two processes that differ in addresses and in what fresh memory contains
static void digest(Run &run, uint64_t idx, Rng &r) {
    std::string o;
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    World w = makeWorld(run, r, 1, 3);
    GenCfg cfg; cfg.draft = w.opt.draft;
    SchemaGen g(cfg, r);
    Hostile h(g);
    h.badUtf8 = false; h.nan = false;
    if (r.chance(30)) { w.schemas[0] = h.schema(false); w.insts.push_back(g.value(3)); h.mutate(w.insts.back(), 2, false); }
    CompileResult c = lib->compile(w.schemas[0], w.opt);
    if (!c.c) o = c.what;
    else for (auto &i : w.insts) o += outText(c.c->validate(i, w.opt, true)) + tf(c.c->validate(i, w.opt, false).valid);
    printf("DIGEST %" PRIu64 " %zu %016" PRIx64 "\n", idx, w.insts.size(), hashStr(o));
}
static std::string child(uint64_t seed, uint64_t from, uint64_t to, bool second) {
    char self[512];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    if (n <= 0) return "";
    self[n] = 0;
    std::string pad = second ? std::string(3000, 'x') : "x";
    std::string cmd = std::string("env VH_PAD=") + pad + (second ? " MALLOC_PERTURB_=85 " : " MALLOC_PERTURB_=170 ") + "ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:max_malloc_fill_size=65536:malloc_fill_byte=" + (second ? "1" : "254")
        + " '" + self + "' --mode digest --seed " + std::to_string(seed) + " --from " + std::to_string(from) + " --to " + std::to_string(to) + " 2>&1";
    FILE *f = popen(cmd.c_str(), "r");
    if (!f) return "";
    std::string out;
    char buf[4096];
    size_t got;
    while ((got = fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, got);
    int rc = pclose(f);
    return rc ? "exit status " + std::to_string(rc) + ": " + out.substr(0, 2000) : out;
}
static void rerun(Run &run, uint64_t idx, Rng &) {
    const uint64_t K = 60;
    std::string a = child(run.seed, idx * K, idx * K + K, false), b = child(run.seed, idx * K, idx * K + K, true);
    size_t n = 0;
    for (size_t p = a.find("DIGEST"); p != std::string::npos; p = a.find("DIGEST", p + 1)) { n++; run.seen("pairs", hashStr(a.substr(p, a.find('\n', p) - p))); run.count("evaluations", (uint64_t)atoi(a.c_str() + a.find(' ', p + 7)) * 2); }
    run.count("two_processes", n);
    if (n != K) { run.violation("rerun", fmt("cases %" PRIu64 " and following (mode digest): the process ended: ", idx * K) + a.substr(0, 1500)); return; }
    if (a == b) return;
    size_t p = 0;
    while (p < a.size() && p < b.size() && a[p] == b[p]) p++;
    size_t s = a.rfind("DIGEST", p);
    run.violation("rerun", "two processes differ in (mode digest): " + a.substr(s, 60) + " / " + b.substr(std::min(s, b.size()), 60));
}

static void one(Run &run, uint64_t idx, Rng &r) {
    if (run.mode == "history") history(run, idx, r);
    else if (run.mode == "parser") parserReuse(run, idx, r);
    else if (run.mode == "shuffle") shuffle(run, idx, r);
    else if (run.mode == "digest") digest(run, idx, r);
    else rerun(run, idx, r);
}
int main(int argc, char **argv) { return harnessMain(argc, argv, one); }
