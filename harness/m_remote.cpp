// C04: schemas spread over several documents, fetched through callbacks, with and without faults
#include <numeric>
#include "refs.hpp"
using namespace vh;

struct Docs {
    Graph &g;
    Rng &r;
    struct D { std::string uri, scope; std::vector<int> trees; J body; bool urn = false; };
    std::vector<D> docs;                 // 0: the root document (its uri may be empty)
    std::map<int, int> docOf;            // tree -> document
    std::map<int64_t, std::vector<std::string>> path;
    bool absOnly = false;
    Docs(Graph &gr, Rng &rn) : g(gr), r(rn) {}

    void locate(const J &j, std::vector<std::string> &p) {
        if (j.t == J::Obj) {
            if (const J *l = j.find(LABEL)) if (l->t == J::Int) path[l->i] = p;
            for (auto &kv : j.o) { p.push_back(kv.first); locate(kv.second, p); p.pop_back(); }
        } else if (j.t == J::Arr) for (size_t n = 0; n < j.a.size(); n++) { p.push_back(std::to_string(n)); locate(j.a[n], p); p.pop_back(); }
    }
    // spellings of `to` relative to `from` (both http URIs on the same host)
    std::string relative(const std::string &from, const std::string &to) {
        size_t h1 = from.find('/', 8), h2 = to.find('/', 8);
        if (from.substr(0, h1) != to.substr(0, h2)) return to;
        std::string p1 = from.substr(h1), p2 = to.substr(h2);
        uint64_t k = r.below(4);
        if (k == 0) return p2;                                  // absolute path
        std::string dir1 = p1.substr(0, p1.rfind('/') + 1);
        std::string out;
        if (k == 1) { out = "./"; }
        while (p2.compare(0, dir1.size(), dir1) != 0) { dir1 = dir1.substr(0, dir1.rfind('/', dir1.size() - 2) + 1); out += "../"; }
        return out + p2.substr(dir1.size());
    }
    std::string refText(int64_t target, int doc) {
        int td = docOf[g.treeOf[target]];
        const auto &p = path[target];
        std::string f;
        for (auto &t : p) f += "/" + fragEncode(ptrEscape(t), r.chance(30) ? &r : nullptr);
        const D &from = docs[(size_t)doc], &to = docs[(size_t)td];
        if (td == doc && (to.uri.empty() || r.chance(70))) return "#" + f;
        std::string u = to.uri;
        if (!from.urn && !to.urn && !from.scope.empty() && r.chance(60)) u = relative(from.scope, u);
        return u + (f.empty() ? (r.chance(70) ? "" : "#") : "#" + f);
    }
    J strip(const J &j, int doc) {
        if (j.t == J::Obj) {
            if (const J *b = j.find(LBOOL)) return J::boolean(b->b);
            J o = J::obj();
            for (auto &kv : j.o) {
                if (kv.first == LABEL) continue;
                if (kv.first == "$ref" && kv.second.t == J::Int) o.set("$ref", J::str(refText(kv.second.i, doc)));
                else o.set(kv.first, strip(kv.second, doc));
            }
            return o;
        }
        if (j.t == J::Arr) { J o = J::arr(); for (auto &e : j.a) o.a.push_back(strip(e, doc)); return o; }
        return j;
    }
    void render() {
        const char *idKw = g.draft == 7 ? "$id" : "id";
        size_t nd = 1 + (size_t)r.range(1, 4);
        bool rootIsRef = g.trees[0].find("$ref") != nullptr;
        docs.resize(nd);
        bool rootId = !rootIsRef && r.chance(70);
        if (rootId) { docs[0].uri = docs[0].scope = r.chance(70) ? "http://example.org/a/b/root.json" : "http://example.org/root.json"; }
        // names that could be taken for each other
        static const std::vector<std::vector<std::string>> confusable = {{"Doc", "doc", "DOC", "dOc", "doC"}, {"doc", "d%6Fc", "%64oc", "d%6fc", "do%63"}, {"doc?a", "doc?b", "doc", "doc?A", "doc?"},
            {"doc", "doc.json", "doc1", "do", "doc1.json"}, {"a+b", "a%20b", "a%2Bb", "a.b", "a_b"}, {"x", "x;v=1", "x,1", "x=", "x~"}};
        std::vector<std::string> names = r.pick(confusable);
        bool similar = r.chance(45), sameDir = r.chance(60);
        size_t first = r.below(names.size());
        for (size_t n = 1; n < nd; n++) {
            std::string nm = similar ? names[(first + n) % names.size()] : "doc" + std::to_string(n);
            switch (similar && sameDir ? 0 : r.below(6)) {
            case 0: case 1: docs[n].uri = "http://example.org/a/b/" + nm + ".json"; break;
            case 2: docs[n].uri = "http://example.org/a/" + nm + ".json"; break;
            case 3: docs[n].uri = "http://example.org/a/b/c/" + nm + ".json"; break;
            case 4: docs[n].uri = "https://other.example/" + nm; break;
            default: docs[n].uri = "urn:example:" + (nm.find_first_of("?~") == std::string::npos ? nm : "x" + std::to_string(n)); docs[n].urn = true;
            }
            docs[n].scope = docs[n].uri;
        }
        docOf[0] = 0;
        docs[0].trees.push_back(0);
        for (size_t t = 1; t < g.trees.size(); t++) {
            int d = (int)r.range(docs[0].uri.empty() ? 1 : r.chance(75) ? 1 : 0, (int64_t)nd - 1);
            docOf[(int)t] = d;
            docs[(size_t)d].trees.push_back((int)t);
        }
        // a root document without URI cannot be referred to from elsewhere: the caller checks (unreachable())
        for (size_t n = 0; n < nd; n++) {
            J b = J::obj();
            auto &ts = docs[n].trees;
            size_t k = 0;
            if (!ts.empty() && (n == 0 || r.chance(50))) { b = g.trees[(size_t)ts[0]]; k = 1; }
            if (k < ts.size()) {
                if (b.t != J::Obj || b.find(LBOOL)) { b = J::obj(); k = 0; }
                J defs = J::obj();
                for (; k < ts.size(); k++) defs.set((r.chance(40) ? r.pick(oddNames()) : "") + "d" + std::to_string(ts[k]), g.trees[(size_t)ts[k]]);
                b.set("definitions", defs);
            }
            docs[n].body = b;
        }
        for (size_t n = 0; n < nd; n++) { std::vector<std::string> p; locate(docs[n].body, p); }
        for (size_t n = 0; n < nd; n++) {
            J b = strip(docs[n].body, (int)n);
            bool own = n == 0 ? rootId : r.chance(25);
            if (own && b.t == J::Obj && !b.find("$ref")) b.set(idKw, J::str(docs[n].uri));
            docs[n].body = b;
        }
    }
    // documents that the meaning of the root schema needs; false: some reference cannot be written
    bool needed(std::set<std::string> &out) {
        std::set<int64_t> seen;
        bool ok = true;
        std::function<void(const J &, int)> scan = [&](const J &s, int doc) {
            if (s.t == J::Obj) if (const J *q = s.find("$ref")) {
                int td = docOf[g.treeOf[q->i]];
                if (td != doc) { if (docs[(size_t)td].uri.empty()) ok = false; out.insert(docs[(size_t)td].uri); }
                // the root document is parsed as a document of its own once it is fetched
                if (seen.insert(q->i).second) scan(*g.where[q->i], td);
                return;
            }
            const J *items = s.find("items"), *add = s.find("additionalItems");
            if (items && items->t == J::Arr) add = nullptr;       // otherwise additionalItems means nothing
            forSub(s, g.draft, [&](const J &x, bool) { if (&x != add) scan(x, doc); });
        };
        scan(g.trees[0], 0);
        return ok;
    }
    FetchEnv env() {
        FetchEnv e;
        for (auto &d : docs) if (!d.uri.empty()) e.docs[d.uri] = d.body;
        return e;
    }
};

static std::string ledger(const FetchEnv &e) {
    if (e.badFrees) return "the free callback got a pointer that was not handed out, or twice";
    if (e.handed != e.freed || !e.live.empty()) return fmt("%zu documents handed out, %zu freed", e.handed, e.freed);
    std::set<std::string> s;
    for (auto &u : e.fetched) if (!s.insert(u).second) return "fetched twice: " + u;
    return "";
}

static void one(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg;
    uint64_t dsel = r.below(10);
    cfg.draft = dsel < 6 ? 7 : dsel < 8 ? 4 : 3;
    cfg.integralDbl = cfg.draft == 7;
    cfg.oddPct = 25;
    cfg.keywordNames = false;
    SchemaGen g(cfg, r);
    Graph gr;
    std::unique_ptr<Docs> dp;
    std::set<std::string> need;
    size_t goal = (size_t)r.range(1, 4);
    for (int tries = 0;; tries++) {
        gr = Graph();
        gr.make(g, (int)r.range(3, 8), (int)r.range(4, 14), (int)r.range(0, 3));
        dp.reset(new Docs(gr, r));
        dp->render();
        need.clear();
        bool writable = dp->needed(need);
        if (writable && need.size() >= (tries < 12 ? goal : 1) && !(need.size() == 1 && *need.begin() == dp->docs[0].uri)) break;
        if (tries > 16) { run.count("skipped"); return; }
    }
    Docs &d = *dp;
    run.count(fmt("documents:%zu", need.size()));
    Opt opt; opt.draft = cfg.draft;
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    const J &root = d.docs[0].body;
    auto describe = [&]() { std::string s = " root " + dump(root); for (auto &x : d.docs) if (!x.uri.empty()) s += " | " + x.uri + " = " + dump(x.body); return s; };
    auto bad = [&](const char *key, const std::string &what, const FetchEnv &e) {
        std::string ev; for (auto &x : e.events) ev += x + "; ";
        run.violation(key, fmt("%s draft%d: ", lib->name, cfg.draft) + what + " [" + ev + "]" + describe());
    };
    run.count("schemas");
    // 1. no fault
    FetchEnv e = d.env();
    CompileResult c = lib->compile(root, opt, &e);
    run.count("populates");
    run.count("fetches", e.fetched.size());
    run.count("frees", e.freed);
    run.seen("histories", hashStr(std::accumulate(e.events.begin(), e.events.end(), std::string(), [](std::string a, const std::string &b) { return a + b + ";"; })));
    if (!c.c) { bad("rejected-schema", "well-formed schema rejected (" + c.what + ")", e); return; }
    std::string l = ledger(e);
    if (!l.empty()) { bad("ledger", l, e); return; }
    // (the root document, referred to by its own URI, may or may not have to be fetched)
    auto sameDocs = [&](const FetchEnv &x) {
        std::set<std::string> a(x.fetched.begin(), x.fetched.end()), b = need;
        if (!d.docs[0].uri.empty() && b.count(d.docs[0].uri)) { a.erase(d.docs[0].uri); b.erase(d.docs[0].uri); }
        return a == b;
    };
    if (!sameDocs(e)) {
        std::string w; for (auto &u : need) w += u + " ";
        bad("fetch-set", "the documents fetched are not those that are referenced: " + w, e);
        return;
    }
    auto verdicts = [&](CompileResult &cr, const char *when) {
        Ref ix(cfg.draft);
        for (auto &t : gr.trees) ix.index(t);
        InstGen ig(g, &ix);
        J last;
        int seen = 0;
        for (int n = 0; n < 10; n++) {
            J inst = n < 7 ? ig.make(gr.trees[0], 4) : ig.mutate(last, 3);
            last = inst;
            if (!cfg.integralDbl && hasIntegralDbl(inst)) continue;
            ix.steps = 0; ix.gaveUp = false; ix.depth = 0;
            bool want = ix.ok(gr.trees[0], inst);
            if (ix.gaveUp) { run.count("undecided"); continue; }
            Outcome o = cr.c->validate(inst, opt, r.chance(40));
            run.count("evaluations");
            run.count(want ? "valid" : "invalid");
            seen |= want ? 1 : 2;
            if (o.threw || o.valid != want) {
                bad("verdict", fmt("%s: expected %s, got %s for ", when, tf(want), o.threw ? o.what.c_str() : tf(o.valid)) + dump(inst), e);
                return false;
            }
        }
        if (seen == 3) run.seen("pairs", hashStr(describe()));
        return true;
    };
    if (!verdicts(c, "no fault")) return;
    if (idx % 293 == 3) run.sample("pairs", describe());
    // 2. every fault at every fetch
    size_t nf = e.fetched.size();
    auto fault = [&](FetchEnv &&f, const char *kind, const std::string &what) {
        CompileResult cr = lib->compile(root, opt, &f);
        run.count("populates");
        run.count(std::string("fault_") + kind);
        run.seen("faults", hashStr(what + describe()));
        std::string lg = ledger(f);
        if (!cr.threw) { bad("fault-ignored", what + ": no exception", f); return false; }
        if (cr.kind != kind) { bad("fault-kind", what + ": exception is " + cr.kind + " (" + cr.what + ")", f); return false; }
        if (!lg.empty()) { bad("fault-ledger", what + ": " + lg, f); return false; }
        return true;
    };
    for (size_t n = 0; n < nf; n++) {
        FetchEnv a = d.env(); a.failAt = (int)n;
        if (!fault(std::move(a), "runtime_error", fmt("fetch %zu returns nothing", n))) return;
        FetchEnv b = d.env(); b.throwAt = (int)n;
        if (!fault(std::move(b), "injected", fmt("fetch %zu throws", n))) return;
        FetchEnv m = d.env();
        static const std::vector<std::string> mal = {"7", "null", "\"x\"", "[]", "1.5"};
        std::string how = r.pick(mal);
        m.docs[e.fetched[n]] = parse(how);
        if (!fault(std::move(m), "runtime_error", "document " + e.fetched[n] + " is " + how)) return;
        FetchEnv k = d.env();
        // the referenced schemas are there, but malformed: every object in the document gets a bad keyword
        std::function<void(J &)> spoil = [&](J &j) {
            for (auto &kv : j.o) spoil(kv.second);
            for (auto &x : j.a) spoil(x);
            if (j.t == J::Obj && !j.find("$ref")) j.set("maxLength", J::str("not a number"));
            else if (j.t == J::Bool || j.t == J::Obj) return;
        };
        J &doc = k.docs[e.fetched[n]];
        std::string before = dump(doc);
        spoil(doc);
        bool boolDoc = dump(doc).find("true") != std::string::npos || dump(doc).find("false") != std::string::npos || dump(doc).find("$ref") != std::string::npos;
        if (!boolDoc && !fault(std::move(k), "runtime_error", "malformed schemas in " + e.fetched[n])) return;
    }
    FetchEnv off = d.env(); off.enabled = false;
    if (!fault(std::move(off), "runtime_error", "no callbacks")) return;
    for (int k = 1; k <= 2; k++) {
        FetchEnv h = d.env(); h.only = k;
        if (!fault(std::move(h), "runtime_error", k == 1 ? "only the fetch callback" : "only the free callback")) return;
        if (!h.fetched.empty()) { bad("fault-ledger", "fetched with one callback only", h); return; }
    }
    // 3. one parser for several schemas: each call has its own cache; faults in between leave nothing behind
    auto pb = lib->parser(cfg.draft);
    for (int n = 0; n < 3; n++) {
        FetchEnv f = d.env();
        if (n == 1) f.throwAt = (int)r.below(nf);
        CompileResult cr = pb->compile(root, &f);
        run.count("populates");
        std::string lg = ledger(f);
        if (!lg.empty()) { bad("ledger", fmt("populate %d of one parser: ", n) + lg, f); return; }
        if (n != 1) {
            if (!cr.c) { bad("rejected-schema", fmt("populate %d of one parser: rejected (%s)", n, cr.what.c_str()), f); return; }
            if (!sameDocs(f)) { bad("fetch-set", fmt("populate %d of one parser: other documents fetched", n), f); return; }
            if (!verdicts(cr, "parser used again")) return;
        } else if (cr.c) { bad("fault-ignored", "injected exception vanished", f); return; }
    }
}

int main(int argc, char **argv) { return harnessMain(argc, argv, one); }
