// C10: ownership. Allocation functions with bookkeeping, every allocation made to fail in turn,
// moved, cloned and destroyed schemas.
#define VH_CRT
#include "lib_rapidjson.cpp"
#include "refs.hpp"
#include <new>
#include <optional>
#include <valijson/constraints/concrete_constraints.hpp>
#include <valijson/constraints/constraint_visitor.hpp>
using namespace vh;
namespace vj = valijson;
namespace vc = valijson::constraints;
using Tr = RapidTr<valijson::adapters::RapidJsonCrt>;

// ---------------------------------------------------------------- global allocation
static long gLive = 0, gCount = 0, gFailAt = -1;
static bool gArmed = false;
static void *gAlloc(size_t n) {
    if (gArmed && gCount++ == gFailAt) return nullptr;
    void *p = malloc(n ? n : 1);
    if (p) gLive++;
    return p;
}
static void gFree(void *p) { if (p) { gLive--; free(p); } }
void *operator new(size_t n) { if (void *p = gAlloc(n)) return p; throw std::bad_alloc(); }
void *operator new[](size_t n) { if (void *p = gAlloc(n)) return p; throw std::bad_alloc(); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return gAlloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return gAlloc(n); }
void operator delete(void *p) noexcept { gFree(p); }
void operator delete[](void *p) noexcept { gFree(p); }
void operator delete(void *p, size_t) noexcept { gFree(p); }
void operator delete[](void *p, size_t) noexcept { gFree(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { gFree(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { gFree(p); }

// ---------------------------------------------------------------- custom allocation, two pools
struct Pool {
    std::map<void *, size_t> live;
    uint64_t allocs = 0, frees = 0, bad = 0;
    long failAt = -1;
    int failHow = 0;      // 0: returns nullptr, 1: throws
    bool holds(const void *p) const {
        auto it = live.upper_bound(const_cast<void *>(p));
        if (it == live.begin()) return false;
        --it;
        return (const char *)p < (const char *)it->first + it->second;
    }
};
static Pool pools[2];
template <int K> static void *poolAlloc(size_t n) {
    Pool &p = pools[K];
    bool armed = gArmed;
    gArmed = false;
    if ((long)p.allocs++ == p.failAt) { gArmed = armed; if (p.failHow) throw std::bad_alloc(); return nullptr; }
    void *b = malloc(n ? n : 1);
    p.live[b] = n;
    gArmed = armed;
    return b;
}
template <int K> static void poolFree(void *b) {
    if (!b) return;
    Pool &p = pools[K];
    bool armed = gArmed;
    gArmed = false;
    auto it = p.live.find(b);
    if (it == p.live.end()) p.bad++;            // released twice, by the wrong function, or never obtained here
    else { p.live.erase(it); p.frees++; free(b); }
    gArmed = armed;
}
static std::unique_ptr<vj::Schema> newSchema(int kind) {
    if (kind == 0) return std::make_unique<vj::Schema>(poolAlloc<0>, poolFree<0>);
    if (kind == 1) return std::make_unique<vj::Schema>(poolAlloc<1>, poolFree<1>);
    return std::make_unique<vj::Schema>();
}
static void resetPools() { for (auto &p : pools) { p.live.clear(); p.allocs = p.frees = p.bad = 0; p.failAt = -1; p.failHow = 0; } }

// ---------------------------------------------------------------- everything reachable
struct Reach {
    std::set<const vj::Subschema *> subs;
    std::vector<const vc::Constraint *> cons;
    void add(const vj::Subschema *s) {
        if (!s || !subs.insert(s).second) return;
        vj::Subschema::ApplyFunction f = [&](const vc::Constraint &c) { cons.push_back(&c); constraint(c); return true; };
        s->apply(f);
    }
    template <class C> bool lists(const vc::Constraint &c) {
        if (auto p = dynamic_cast<const C *>(&c)) { p->applyToSubschemas([&](unsigned int, const vj::Subschema *s) { add(s); return true; }); return true; }
        return false;
    }
    template <class C> bool single(const vc::Constraint &c) { if (auto p = dynamic_cast<const C *>(&c)) { add(p->getSubschema()); return true; } return false; }
    void constraint(const vc::Constraint &c) {
        if (lists<vc::AllOfConstraint>(c) || lists<vc::AnyOfConstraint>(c) || lists<vc::OneOfConstraint>(c)) return;
        if (single<vc::NotConstraint>(c) || single<vc::ContainsConstraint>(c) || single<vc::PropertyNamesConstraint>(c)) return;
        if (auto p = dynamic_cast<const vc::ConditionalConstraint *>(&c)) { add(p->getIfSubschema()); add(p->getThenSubschema()); add(p->getElseSubschema()); }
        else if (auto q = dynamic_cast<const vc::LinearItemsConstraint *>(&c)) { q->applyToItemSubschemas([&](unsigned int, const vj::Subschema *s) { add(s); return true; }); add(q->getAdditionalItemsSubschema()); }
        else if (auto si = dynamic_cast<const vc::SingularItemsConstraint *>(&c)) add(si->getItemsSubschema());
        else if (auto d = dynamic_cast<const vc::DependenciesConstraint *>(&c)) d->applyToSchemaDependencies([&](const vc::DependenciesConstraint::String &, const vj::Subschema *s) { add(s); return true; });
        else if (auto t = dynamic_cast<const vc::TypeConstraint *>(&c)) t->applyToSchemaTypes([&](unsigned int, const vj::Subschema *s) { add(s); return true; });
        else if (auto pr = dynamic_cast<const vc::PropertiesConstraint *>(&c)) {
            pr->applyToProperties([&](const vc::PropertiesConstraint::String &, const vj::Subschema *s) { add(s); return true; });
            pr->applyToPatternProperties([&](const vc::PropertiesConstraint::String &, const vj::Subschema *s) { add(s); return true; });
            add(pr->getAdditionalPropertiesSubschema());
        }
    }
};

// ---------------------------------------------------------------- schemas with references, local and remote
struct Work {
    Graph g;
    J doc;                       // the root document
    std::map<std::string, J> remote;
    static J render(const J &s, Graph &g, int tree) {
        if (s.t == J::Obj) {
            if (const J *l = s.find(LBOOL)) return *l;
            if (const J *q = s.find("$ref")) {
                J o = J::obj();
                int to = g.treeOf[q->i];
                std::string uri = to == tree ? "" : to == 0 ? "http://example.org/root.json" : fmt("http://example.org/t%d.json", to);
                o.set("$ref", J::str(uri + "#"));
                return o;
            }
            J o = J::obj();
            for (auto &kv : s.o) if (kv.first != LABEL) o.set(kv.first, isData(kv.first) ? kv.second : renderIn(kv.first, kv.second, g, tree));
            return o;
        }
        return s;
    }
    static bool isData(const std::string &k) { return k == "enum" || k == "const" || k == "required" || k == "pattern"; }
    static bool isMap(const std::string &k) { return k == "properties" || k == "patternProperties" || k == "dependencies"; }
    static J renderIn(const std::string &k, const J &v, Graph &g, int tree) {
        if (isMap(k) && v.t == J::Obj) { J o = J::obj(); for (auto &m : v.o) o.set(m.first, render(m.second, g, tree)); return o; }
        if (v.t == J::Arr) { J a = J::arr(); for (auto &e : v.a) a.a.push_back(render(e, g, tree)); return a; }
        return render(v, g, tree);
    }
    bool make(SchemaGen &sg, int trees, int refs) {
        g.make(sg, trees, refs, 0);
        for (size_t n = 0; n < g.trees.size(); n++) {
            J d = render(g.trees[n], g, (int)n);
            if (n == 0) { if (d.t != J::Obj || d.find("$ref")) return false; d.set(g.draft >= 7 ? "$id" : "id", J::str("http://example.org/root.json")); doc = d; }
            else remote[fmt("http://example.org/t%d.json", (int)n)] = d;
        }
        return true;
    }
    bool judge(const J &inst, bool &undecided) {
        Ref ref(g.draft);
        for (auto &t : g.trees) ref.index(t);
        bool w = ref.ok(g.trees[0], inst);
        undecided = ref.gaveUp;
        return w;
    }
};

struct Fetched {
    std::set<const Tr::Doc *> live;
    int handed = 0, bad = 0;
};
// the documents are built with the allocation failures switched off: they belong to the application
struct Quiet { bool was; Quiet() : was(gArmed) { gArmed = false; } ~Quiet() { gArmed = was; } };

static void populate(vj::Schema &schema, Work &w, Fetched &f, vj::SchemaParser &parser, const Tr::Doc &d) {
    using P = vj::SchemaParser::FunctionPtrs<Tr::Adapter>;
    P::FetchDoc fetch = [&](const std::string &uri) -> const Tr::Doc * {
        Quiet q;
        auto it = w.remote.find(uri);
        if (it == w.remote.end()) { if (uri != "http://example.org/root.json") return nullptr; }
        const Tr::Doc *p = Tr::buildFetchDoc(it == w.remote.end() ? w.doc : it->second);
        f.live.insert(p);
        f.handed++;
        return p;
    };
    P::FreeDoc freed = [&](const Tr::Doc *p) {
        Quiet q;
        if (!f.live.erase(p)) f.bad++; else delete p;
    };
    parser.populateSchema(Tr::adapt(d), schema, fetch, freed);
}

static std::string schemaText(Work &w) { std::string s = dump(w.doc); for (auto &kv : w.remote) s += "  " + kv.first + ": " + dump(kv.second); return s; }

static std::vector<J> instances(Work &w, SchemaGen &sg, int n) {
    Ref ref(w.g.draft);
    for (auto &t : w.g.trees) ref.index(t);
    InstGen ig(sg, &ref);
    std::vector<J> v;
    for (int k = 0; k < n; k++) v.push_back(k && sg.r.chance(40) ? ig.mutate(v.back(), 2) : ig.make(w.g.trees[0], 3));
    return v;
}

static void checkVerdicts(Run &run, Work &w, const vj::Schema &schema, const std::vector<J> &insts, const char *when, bool count = true) {
    int seen = 0;
    std::vector<uint64_t> hs;
    for (auto &i : insts) {
        bool und;
        bool want = w.judge(i, und);
        if (und) { run.count("undecided"); continue; }
        vj::Validator v;
        Tr::Doc d = Tr::build(i);
        for (int res = 0; res < 2; res++) {
            vj::ValidationResults r;
            bool got = v.validate(schema, Tr::adapt(d), res ? &r : nullptr);
            run.count("evaluations");
            if (got != want) run.violation(fmt("verdict-%s", when), fmt("%s, expected %s, got %s: ", when, tf(want), tf(got)) + schemaText(w) + " instance " + dump(i));
        }
        run.count(want ? "valid" : "invalid");
        seen |= want ? 1 : 2;
        hs.push_back(hashStr(schemaText(w) + dump(i)));
    }
    if (seen == 3 && count) for (auto x : hs) run.seen("pairs", x);
}

static void poolsClean(Run &run, Work &w, const char *when) {
    for (int k = 0; k < 2; k++) {
        if (pools[k].bad) run.violation(fmt("bad-free-%s", when), fmt("%s: %d blocks released to pool %d that it does not hold: ", when, (int)pools[k].bad, k) + schemaText(w));
        if (!pools[k].live.empty()) run.violation(fmt("leak-%s", when), fmt("%s: %d of %d blocks of pool %d not released: ", when, (int)pools[k].live.size(), (int)pools[k].allocs, k) + schemaText(w));
    }
}

static SchemaGen makeGen(Run &, Rng &r, GenCfg &cfg) {
    cfg.draft = r.chance(60) ? 7 : r.chance(50) ? 4 : 3;
    cfg.maxDepth = (int)r.range(1, 3);
    cfg.integralDbl = false;
    cfg.oddPct = 10;
    return SchemaGen(cfg, r);
}

// random life of up to four schemas
static void lives(Run &run, uint64_t, Rng &r) {
    resetPools();
    struct Slot { std::unique_ptr<vj::Schema> s; int work = -1; int kind = 2; bool usable = false; };
    std::vector<Work> works;
    std::vector<std::vector<J>> insts;
    std::vector<Slot> slot(4);
    std::string hist;
    Work none;
    std::vector<std::unique_ptr<GenCfg>> cfgs;
    int steps = (int)r.range(4, 12);
    for (int n = 0; n < steps; n++) {
        Slot &a = slot[r.below(4)], &b = slot[r.below(4)];
        int op = (int)r.below(8);
        if (op < 3 || !b.usable) {
            Work w;
            GenCfg cfg;
            SchemaGen sg = makeGen(run, r, cfg);
            if (!w.make(sg, (int)r.range(1, 3), (int)r.range(0, 4))) continue;
            std::vector<J> in = instances(w, sg, 4);
            a.s.reset();
            a.kind = (int)r.below(3);
            a.s = newSchema(a.kind);
            Fetched f;
            {
                auto d = std::make_unique<Tr::Doc>(Tr::build(w.doc));
                auto parser = std::make_unique<vj::SchemaParser>(draftOf(w.g.draft));
                try { populate(*a.s, w, f, *parser, *d); }
                catch (const std::exception &e) { run.violation("rejected-schema", std::string(e.what()) + ": " + schemaText(w)); a.s.reset(); return; }
            }
            if (f.bad || !f.live.empty()) run.violation("documents", fmt("%d documents not freed, %d freed wrongly: ", (int)f.live.size(), f.bad) + schemaText(w));
            run.count("fetched", (uint64_t)f.handed);
            works.push_back(std::move(w));
            insts.push_back(std::move(in));
            a.work = (int)works.size() - 1;
            a.usable = true;
            Reach re;
            re.add(a.s->root());
            run.count("subschemas", re.subs.size());
            run.count("constraints", re.cons.size());
            if (a.kind < 2) {
                Pool &p = pools[a.kind];
                for (auto s : re.subs) if (s != a.s->root() && !p.holds(s)) { run.violation("subschema-memory", "a subschema does not come from the allocation function: " + schemaText(works.back())); break; }
                for (auto c : re.cons) if (!p.holds(c)) { run.violation("constraint-memory", "a constraint does not come from the allocation function: " + schemaText(works.back())); break; }
                if (!p.holds(a.s->emptySubschema())) run.violation("subschema-memory", "the empty subschema does not come from the allocation function");
            }
            hist += "P";
        } else if (op < 5) {
            if (&a == &b) continue;
            std::unique_ptr<vj::Schema> fresh = std::make_unique<vj::Schema>(std::move(*b.s));
            a.s = std::move(fresh);
            a.work = b.work; a.kind = b.kind; a.usable = true;
            b.usable = false;
            if (r.chance(60)) b.s.reset();
            hist += "M";
        } else if (op < 7) {
            if (&a == &b || !a.s) continue;
            *a.s = std::move(*b.s);
            a.work = b.work; a.usable = true; b.usable = false;
            std::swap(a.kind, b.kind);
            if (r.chance(60)) b.s.reset();
            hist += "A";
        } else {
            a.s.reset(); a.usable = false;
            hist += "D";
        }
        if (a.usable) {
            checkVerdicts(run, works[(size_t)a.work], *a.s, insts[(size_t)a.work], hist.back() == 'P' ? "populated" : "moved");
            if (hist.back() != 'P') {
                Reach re;
                re.add(a.s->root());
                if (a.kind < 2) for (auto s : re.subs) if (s != a.s->root() && !pools[a.kind].holds(s)) { run.violation("moved-subschemas", "after a move, a subschema is reachable that the schema does not own: " + schemaText(works[(size_t)a.work])); break; }
            }
        }
        // a copy made of cloned constraints
        if (a.usable && r.chance(30)) {
            int k = (int)r.below(3);
            std::unique_ptr<vj::Schema> c = newSchema(k);
            vj::Schema::ApplyFunction f = [&](const vc::Constraint &x) { c->addConstraint(x); return true; };
            a.s->apply(f);
            c->setAlwaysInvalid(c->root(), a.s->getAlwaysInvalid());
            checkVerdicts(run, works[(size_t)a.work], *c, insts[(size_t)a.work], "cloned", false);
            run.count("clones");
            if (r.chance(50)) { std::unique_ptr<vj::Schema> c2 = std::make_unique<vj::Schema>(std::move(*c)); c.reset(); checkVerdicts(run, works[(size_t)a.work], *c2, insts[(size_t)a.work], "clone-moved", false); }
        }
    }
    // destroyed in any order
    for (int n = 0; n < 8; n++) slot[r.below(4)].s.reset();
    for (auto &s : slot) s.s.reset();
    run.seen("histories", hashStr(hist));
    run.count("histories");
    run.count("moves", (uint64_t)(std::count(hist.begin(), hist.end(), 'M') + std::count(hist.begin(), hist.end(), 'A')));
    run.count("pool_blocks", pools[0].allocs + pools[1].allocs);
    if (!works.empty()) poolsClean(run, works[0], "after destruction");
    run.sample("histories", hist);
}

// each allocation of the custom function, and each global allocation, fails once
static void faults(Run &run, uint64_t, Rng &r) {
    Work w;
    GenCfg cfg;
    SchemaGen sg = makeGen(run, r, cfg);
    sg.cfg.maxDepth = (int)r.range(1, 2);
    if (!w.make(sg, (int)r.range(1, 3), (int)r.range(0, 3))) return;
    std::vector<J> insts = instances(w, sg, 3);
    auto d = std::make_unique<Tr::Doc>(Tr::build(w.doc));
    auto attempt = [&](int kind, bool &threw, Fetched &f) -> std::unique_ptr<vj::Schema> {
        std::unique_ptr<vj::Schema> s;
        threw = false;
        try {
            vj::SchemaParser parser(draftOf(w.g.draft));
            s = newSchema(kind);
            populate(*s, w, f, parser, *d);
        } catch (const std::bad_alloc &) { threw = true; }
        catch (const std::runtime_error &) { threw = true; }
        catch (const std::exception &e) { threw = true; run.violation("exception", fmt("an allocation failure surfaces as %s: ", e.what()) + schemaText(w)); }
        return s;
    };
    auto docsClean = [&](Fetched &f, const char *when) {
        if (f.bad || !f.live.empty()) { run.violation(fmt("documents-%s", when), fmt("%s: %d fetched documents not freed, %d freed wrongly: ", when, (int)f.live.size(), f.bad) + schemaText(w)); for (auto p : f.live) delete p; }
    };
    // warm up (and the number of allocations)
    resetPools();
    bool threw;
    { Fetched f; auto s = attempt(0, threw, f); docsClean(f, "populate"); if (threw) { run.violation("rejected-schema", schemaText(w)); return; } checkVerdicts(run, w, *s, insts, "populated"); }
    long blocks = (long)pools[0].allocs;
    poolsClean(run, w, "populate");
    run.count("custom_blocks", (uint64_t)blocks);
    long stepc = run.thorough ? 1 : std::max(1L, blocks / 40);
    for (long k = stepc > 1 ? (long)r.below((uint64_t)stepc) : 0; k < blocks; k += stepc) for (int how = 0; how < 2; how++) {
        resetPools();
        pools[0].failAt = k;
        pools[0].failHow = how;
        Fetched f;
        { auto s = attempt(0, threw, f); if (!threw) run.violation("failure-ignored", fmt("allocation %ld of %ld failed (%s), the schema was populated nevertheless: ", k, blocks, how ? "exception" : "nullptr") + schemaText(w)); }
        run.count("evaluations");
        run.count("custom_failures");
        poolsClean(run, w, "custom allocation failure");
        docsClean(f, "custom allocation failure");
    }
    resetPools();
    // global allocations while populating
    long total;
    for (int kind = 2; kind >= 0; kind -= 2) {
        { Fetched f; gCount = 0; gFailAt = -1; gArmed = true; auto s = attempt(kind, threw, f); gArmed = false; total = gCount; docsClean(f, "populate"); }
        run.count("global_blocks", (uint64_t)total);
        long step = std::max(1L, total / (run.thorough ? 400 : 60));
        for (long k = step > 1 ? (long)r.below((uint64_t)step) : 0; k < total; k += step) {
            resetPools();
            Fetched f;
            long live = gLive;
            gCount = 0; gFailAt = k; gArmed = true;
            std::unique_ptr<vj::Schema> s;
            try { s = attempt(kind, threw, f); } catch (...) { gArmed = false; throw; }
            gArmed = false;
            docsClean(f, "global allocation failure");
            if (!threw && s) { long before = gLive; checkVerdicts(run, w, *s, insts, "populated in spite of a failed allocation", false); live += gLive - before; }
            f.live.clear();
            s.reset();
            long leaked = gLive - live;
            run.count("evaluations");
            run.count(threw ? "global_failures" : "global_failures_survived");
            if (leaked) run.violation("leak-global", fmt("global allocation %ld of %ld failed: %ld blocks leaked while populating: ", k, total, leaked) + schemaText(w));
            poolsClean(run, w, "global allocation failure");
        }
    }
    // global allocations while validating
    Fetched f;
    auto s = attempt(2, threw, f);
    if (!s) return;
    for (auto &i : insts) {
        bool und;
        bool want = w.judge(i, und);
        if (und) continue;
        Tr::Doc di = Tr::build(i);
        for (int res = 0; res < 2; res++) {
            long n = 1;
            for (long k = -1; k < n; ) {
                long live = gLive;
                bool got = false, th = false;
                gCount = 0; gFailAt = k; gArmed = true;
                try {
                    vj::Validator v;
                    vj::ValidationResults rs;
                    got = v.validate(*s, Tr::adapt(di), res ? &rs : nullptr);
                } catch (const std::bad_alloc &) { th = true; }
                catch (const std::runtime_error &) { th = true; }
                catch (const std::exception &e) { th = true; gArmed = false; run.violation("exception", fmt("an allocation failure in validation surfaces as %s: ", e.what()) + schemaText(w) + dump(i)); }
                gArmed = false;
                if (k < 0) n = gCount;
                long leaked = gLive - live;
                run.count("evaluations");
                run.count(th ? "validation_failures" : "validation_survived");
                if (!th && got != want) run.violation("verdict-oom", fmt("global allocation %ld of %ld failed in validation: expected %s, got %s: ", k, n, tf(want), tf(got)) + schemaText(w) + dump(i));
                if (leaked) { run.violation("leak-validate", fmt("global allocation %ld of %ld failed: %ld blocks leaked while validating: ", k, n, leaked) + schemaText(w) + dump(i)); break; }
                k += k < 0 ? 1 : std::max(1L, n / (run.thorough ? 200 : 30));
            }
        }
        if (!w.doc.o.empty()) run.seen("pairs", hashStr(schemaText(w) + dump(i)));
    }
}

int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t i, Rng &r) { if (run.mode == "lives") lives(run, i, r); else faults(run, i, r); });
}
