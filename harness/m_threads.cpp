// C15: many threads, under ThreadSanitizer
#include "sem.hpp"
#include <atomic>
#include <sched.h>
#include <thread>
#include <valijson/validator.hpp>
using namespace vh;

static const std::vector<Lib *> &libs() {
    static const std::vector<Lib *> v = {libRapidJson(), libNlohmann(), libPicoJson(), libJson11()};
    return v;
}
// a schema that exercises what could hold hidden state: patterns, formats, enumerations, references, recursion
static J rich(SchemaGen &g, Rng &r) {
    J s = J::obj();
    s.set("type", r.chance(50) ? J::str("object") : J::arr({J::str("object"), J::str("array"), J::str("string")}));
    J defs = J::obj();
    defs.set("node", parse(R"({"properties":{"next":{"$ref":"#/definitions/node"},"v":{"type":["integer","string"],"minLength":2}},"additionalProperties":{"enum":[1,"a",[1,2],{"k":null}]}})"));
    defs.set("date", parse(R"({"format":"date"})"));
    defs.set("time", parse(R"({"format":"time"})"));
    defs.set("dt", parse(R"({"format":"date-time"})"));
    defs.set("ip", parse(R"({"format":"ipv4"})"));
    defs.set("any", g.schema(2));
    s.set("definitions", defs);
    J props = J::obj();
    auto ref = [&](const char *n) { J o = J::obj(); o.set("$ref", J::str(std::string("#/definitions/") + n)); return o; };
    props.set("a", ref("node"));
    props.set("b", r.chance(50) ? ref("date") : ref("time"));
    props.set("foo", r.chance(50) ? ref("dt") : ref("ip"));
    props.set("bar", ref("any"));
    props.set("x", g.schema(2));
    props.set("c1", parse(R"({"anyOf":[{"multipleOf":0.1},{"type":"array","uniqueItems":true,"contains":{"const":1}}],"maximum":7})"));
    s.set("properties", props);
    J pp = J::obj();
    pp.set("^[a-c]+$", J::obj());
    pp.set(r.chance(50) ? "o+" : "\\d", g.schema(1));
    s.set("patternProperties", pp);
    s.set("propertyNames", parse(R"({"pattern":"^.{0,12}$"})"));
    if (r.chance(50)) s.set("dependencies", parse(R"({"a":["b"],"foo":{"minProperties":2}})"));
    return s;
}
static J instance(SchemaGen &g, Rng &r) {
    J o = J::obj();
    auto some = [&](const char *k, J v) { if (r.chance(60)) o.set(k, std::move(v)); };
    static const std::vector<std::string> texts = {"2020-02-29", "2021-02-29", "12:30:00Z", "23:59:60Z", "12:59:60Z", "2020-01-01T00:00:00+01:00", "2016-12-31T23:59:60Z", "2016-12-31T22:59:60Z", "1.2.3.4", "1.2.3.256", "x"};
    J n = J::obj();
    for (int k = (int)r.below(4); k > 0; k--) { J m = J::obj(); m.set("next", n); m.set("v", r.chance(50) ? J::integer(k) : J::str(r.chance(70) ? "abc" : "z")); if (r.chance(30)) m.set("q", r.chance(50) ? J::arr({J::integer(1), J::integer(2)}) : J::integer(5)); n = m; }
    some("a", n);
    some("b", J::str(r.pick(texts)));
    some("foo", J::str(r.pick(texts)));
    some("bar", g.value(2));
    some("x", g.value(2));
    some("c1", r.chance(50) ? J::dbl((double)r.range(0, 90) / 10) : J::arr({J::integer(1), J::integer(r.range(0, 2)), J::str("s")}));
    if (r.chance(30)) o.set(g.name(), g.value(1));
    return r.chance(90) ? o : g.value(2);
}
static bool sameOutcome(const Outcome &a, const Outcome &b) {
    if (a.threw != b.threw || a.valid != b.valid || a.errs.size() != b.errs.size()) return false;
    for (size_t k = 0; k < a.errs.size(); k++) if (a.errs[k].ptr != b.errs[k].ptr || a.errs[k].desc != b.errs[k].desc || a.errs[k].ctx != b.errs[k].ctx) return false;
    return true;
}
struct Job { size_t inst; bool results; Lib *lib; int delay; };
struct Log { uint64_t start, end; int thread; };

static void one(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg;
    cfg.integralDbl = false;
    SchemaGen g(cfg, r);
    Lib *lib = libs()[idx % libs().size()];
    bool parsing = run.mode == "parse", mixed = run.mode == "mixed";
    const int T = (int)r.range(2, 8);
    J schema = rich(g, r);
    Opt opt;
    opt.draft = 7;
    opt.strict = r.chance(65);
    opt.strictDate = r.chance(50);
    CompileResult shared = lib->compile(schema, opt);
    if (!shared.c) { run.violation("populate", dump(schema) + ": " + shared.what); return; }
    std::vector<J> insts;
    for (int k = 0; k < 8; k++) insts.push_back(instance(g, r));
    std::vector<std::vector<Job>> jobs((size_t)T);
    std::vector<std::vector<J>> own((size_t)T);        // schemas of parsing threads
    std::vector<std::vector<J>> docs((size_t)T);       // the document each finds at http://h.example/d (not the same one)
    for (int t = 0; t < T; t++) {
        bool same = r.chance(30);
        for (int k = 0; k < 10; k++) jobs[(size_t)t].push_back({r.below(insts.size()), r.chance(60), same ? lib : r.pick(libs()), r.chance(70) ? 0 : r.chance(70) ? 1 : 2});
        for (int k = 0; k < 3; k++) {
            J mine = r.chance(30) ? schema : rich(g, r);
            if (r.chance(50)) mine.find("properties")->set("x", parse(R"({"$ref":"http://h.example/d#/definitions/any"})"));
            own[(size_t)t].push_back(mine);
            docs[(size_t)t].push_back(rich(g, r));
        }
    }
    std::vector<std::vector<Outcome>> got((size_t)T);
    std::vector<std::vector<Log>> logs((size_t)T);
    std::vector<std::string> failed((size_t)T);
    std::atomic<int> ready{0};
    std::atomic<uint64_t> clock{0};
    auto body = [&](int t) {
        bool parses = parsing || (mixed && t % 2);
        valijson::Validator v(opt.strict ? valijson::Validator::kStrongTypes : valijson::Validator::kWeakTypes, opt.strictDate ? valijson::Validator::kStrictDateTime : valijson::Validator::kPermissiveDateTime);
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < T) sched_yield();
        size_t n = 0;
        for (size_t s = 0; s < (parses ? own[(size_t)t].size() : 1); s++) {
            CompileResult mine;
            void *sp = shared.c->schemaPtr();
            if (parses) {
                FetchEnv env;
                env.docs["http://h.example/d"] = docs[(size_t)t][s];
                mine = jobs[(size_t)t][s].lib->compile(own[(size_t)t][s], opt, &env);
                if (!mine.c) { failed[(size_t)t] = mine.what; return; }
                sp = mine.c->schemaPtr();
            }
            for (size_t k = 0; k < (parses ? 3 : jobs[(size_t)t].size()); k++, n++) {
                const Job &j = jobs[(size_t)t][n];
                if (j.delay == 1) sched_yield();
                if (j.delay == 2) for (volatile int q = 0; q < 3000; q = q + 1) {}
                Log l{clock.fetch_add(1, std::memory_order_relaxed), 0, t};
                got[(size_t)t].push_back(j.lib->validateWith(&v, sp, insts[j.inst], j.results));
                l.end = clock.fetch_add(1, std::memory_order_relaxed);
                logs[(size_t)t].push_back(l);
            }
        }
    };
    std::vector<std::thread> threads;
    for (int t = 0; t < T; t++) threads.emplace_back(body, t);
    for (auto &t : threads) t.join();
    // what a single thread gets (afterwards, so that nothing is warmed up for the threads)
    for (int t = 0; t < T; t++) {
        if (!failed[(size_t)t].empty()) { run.violation("parallel-populate", "populateSchema in one of " + std::to_string(T) + " threads: " + failed[(size_t)t]); return; }
        bool parses = parsing || (mixed && t % 2);
        valijson::Validator v(opt.strict ? valijson::Validator::kStrongTypes : valijson::Validator::kWeakTypes, opt.strictDate ? valijson::Validator::kStrictDateTime : valijson::Validator::kPermissiveDateTime);
        size_t n = 0;
        for (size_t s = 0; s < (parses ? own[(size_t)t].size() : 1); s++) {
            const J &sj = parses ? own[(size_t)t][s] : schema;
            FetchEnv env;
            if (parses) env.docs["http://h.example/d"] = docs[(size_t)t][s];
            CompileResult c = (parses ? jobs[(size_t)t][s].lib : lib)->compile(sj, opt, parses ? &env : nullptr);
            run.count("remote_documents", env.fetched.size());
            for (size_t k = 0; k < (parses ? 3 : jobs[(size_t)t].size()); k++, n++) {
                const Job &j = jobs[(size_t)t][n];
                Outcome want = j.lib->validateWith(&v, c.c->schemaPtr(), insts[j.inst], j.results);
                const Outcome &is = got[(size_t)t][n];
                run.count("evaluations");
                run.count(want.valid ? "valid" : "invalid");
                run.count("errors", want.errs.size());
                if (!sameOutcome(want, is)) {
                    run.violation("parallel-outcome", fmt("%s, %d threads, %s: ", j.lib->name, T, optText(opt).c_str()) + "schema " + dump(sj) + " instance " + dump(insts[j.inst]) + ": one thread " + tf(want.valid) + " " + errText(want.errs) + ", in parallel " + (is.threw ? "threw " + is.what : tf(is.valid)) + " " + errText(is.errs));
                    return;
                }
            }
        }
    }
    // what interleavings happened
    std::vector<Log> all;
    for (auto &l : logs) all.insert(all.end(), l.begin(), l.end());
    std::sort(all.begin(), all.end(), [](const Log &a, const Log &b) { return a.start < b.start; });
    std::string order;
    size_t overlaps = 0;
    for (size_t k = 0; k < all.size(); k++) { order += (char)('a' + all[k].thread); if (k && all[k].start < all[k - 1].end && all[k].thread != all[k - 1].thread) overlaps++; }
    run.count("threads", (uint64_t)T);
    run.count("overlapping_validations", overlaps);
    run.seen("interleavings", hashStr(order));
    run.seen("pairs", hashStr(dump(schema)));
}

int main(int argc, char **argv) {
    // libstdc++'s std::ctype<char> fills a cache without synchronisation (harmlessly, but
    // ThreadSanitizer sees it through std::regex): fill it before any thread starts
    const auto &ct = std::use_facet<std::ctype<char>>(std::locale());
    for (int c = 0; c < 256; c++) { ct.narrow((char)c, '\0'); ct.widen((char)c); }
    return harnessMain(argc, argv, one);
}
