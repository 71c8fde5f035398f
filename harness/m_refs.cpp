// C03: references inside one document
#include "refs.hpp"
using namespace vh;

struct Render {
    Graph &g;
    Rng &r;
    int style;              // 0 pointers, 1 pointers and plain-name ids, 2 embedded ids
    std::string idKw;
    std::string rootId;     // may be empty
    std::map<int64_t, std::vector<std::string>> path;   // label -> tokens in the document
    std::map<int64_t, std::string> plain;               // label -> "#name"
    std::map<int64_t, std::pair<std::string, std::string>> embedded;     // label -> absolute id, id as written
    std::map<int64_t, int64_t> home;                    // label -> innermost embedded label around (or on) it, -1: root
    std::map<int64_t, size_t> homeDepth;
    J doc;

    Render(Graph &gr, Rng &rn, int st) : g(gr), r(rn), style(st) { idKw = g.draft == 7 ? "$id" : "id"; }

    void locate(const J &j, std::vector<std::string> &p, int64_t h, size_t hd) {
        if (j.t == J::Obj) {
            if (const J *l = j.find(LABEL)) if (l->t == J::Int) {
                if (embedded.count(l->i)) { h = l->i; hd = p.size(); }
                path[l->i] = p; home[l->i] = h; homeDepth[l->i] = hd;
            }
            for (auto &kv : j.o) { p.push_back(kv.first); locate(kv.second, p, h, hd); p.pop_back(); }
        } else if (j.t == J::Arr) for (size_t n = 0; n < j.a.size(); n++) { p.push_back(std::to_string(n)); locate(j.a[n], p, h, hd); p.pop_back(); }
    }
    std::string frag(const std::vector<std::string> &p, size_t from) {
        std::string s;
        for (size_t n = from; n < p.size(); n++) s += "/" + fragEncode(ptrEscape(p[n]), r.chance(30) ? &r : nullptr);
        return s;
    }
    // text of a reference to label `t` standing in the scope of embedded label `h` (-1: root)
    std::string refText(int64_t t, int64_t h) {
        const auto &p = path[t];
        int64_t th = home[t];
        if (embedded.count(t) && (h >= 0 || r.chance(80))) {
            const auto &e = embedded[t];
            // relative spelling: all ids live in the same directory
            if (r.chance(50)) return e.first.substr(e.first.rfind('/') + 1);
            return e.first;
        }
        if (h < 0) {
            if (plain.count(t) && r.chance(60)) return plain[t];
            std::string f = p.empty() ? (r.chance(50) ? "#" : "#") : "#" + frag(p, 0);
            if (th >= 0 && p.size() > homeDepth[t] && r.chance(40)) return embedded[th].first + "#" + frag(p, homeDepth[t]);
            if (!rootId.empty() && r.chance(25)) return (r.chance(50) ? rootId : rootId.substr(rootId.rfind('/') + 1)) + (f == "#" && r.chance(50) ? "" : f);
            return f;
        }
        throw std::logic_error("reference out of an embedded schema");    // excluded by chooseEmbedded
    }
    J strip(const J &j, int64_t h, bool schemaPos) {
        if (j.t == J::Obj) {
            int64_t lab = -1;
            if (const J *l = j.find(LABEL)) if (l->t == J::Int) lab = l->i;
            if (const J *b = j.find(LBOOL)) return J::boolean(b->b);
            if (lab >= 0 && embedded.count(lab)) h = lab;
            J o = J::obj();
            if (lab >= 0 && plain.count(lab) && !j.find("$ref")) o.set(idKw, J::str(plain[lab]));
            if (lab >= 0 && embedded.count(lab)) o.set(idKw, J::str(embedded[lab].second));
            if (lab == 0 && !rootId.empty()) o.set(idKw, J::str(rootId));
            for (auto &kv : j.o) {
                if (kv.first == LABEL) continue;
                if (kv.first == "$ref" && kv.second.t == J::Int) o.set("$ref", J::str(refText(kv.second.i, h)));
                else o.set(kv.first, strip(kv.second, h, true));
            }
            if (j.find("$ref") && j.find("$ref")->t == J::Int && lab != 0 && r.chance(8)) o.set(r.chance(50) ? "type" : "maximum", r.chance(50) ? J::str("null") : J::integer(-100));
            if (const J *sib = o.find("maximum")) if (j.find("$ref") && sib->t == J::Str) o.erase("maximum");
            if (const J *sib = o.find("type")) if (j.find("$ref") && sib->t == J::Int) o.erase("type");
            return o;
        }
        if (j.t == J::Arr) { J o = J::arr(); for (auto &e : j.a) o.a.push_back(strip(e, h, schemaPos)); return o; }
        return j;
    }
    // What a reference inside an identified subschema may name depends on how the parser arrived there
    // (known findings, mode 'known'); here they name the subschema itself or identified ones inside it.
    void targets(const J &s, std::set<int64_t> &refs, std::set<int64_t> &inside) {
        if (s.t == J::Obj) {
            if (const J *q = s.find("$ref")) refs.insert(q->i);
            if (const J *l = s.find(LABEL)) inside.insert(l->i);
        }
        forSub(s, g.draft, [&](const J &x, bool) { targets(x, refs, inside); });
    }
    void restrictEmbedded() {
        for (bool again = true; again;) {
            again = false;
            for (auto &kv : embedded) {
                std::set<int64_t> refs, inside;
                targets(*g.where[kv.first], refs, inside);
                bool ok = true;
                for (int64_t t : refs) if (!inside.count(t) || !embedded.count(t)) ok = false;
                if (!ok) { embedded.erase(kv.first); again = true; break; }
            }
        }
    }
    J render() {
        // place the trees: the root, the others in containers
        J root = g.trees[0];
        static const std::vector<std::string> containers = {"definitions", "definitions", "$defs", "x-defs", "defs/odd", "a~b", "%25"};
        std::set<std::string> used;
        for (size_t n = 1; n < g.trees.size(); n++) {
            std::string c = style == 0 && r.chance(30) ? r.pick(containers) : "definitions";
            J *cont = root.find(c);
            if (!cont) { root.set(c, J::obj()); cont = root.find(c); }
            std::string nm;
            do nm = r.chance(40) ? r.pick(oddNames()) : "d" + std::to_string(n);
            while (cont->find(nm) || nm == "$ref" || nm == "$id" || nm == "id");
            if (style == 0 && r.chance(15)) {   // one level deeper, or in an array
                J w;
                if (r.chance(50)) { w = J::obj(); w.set("inner", g.trees[n]); } else { w = J::arr(); w.a.push_back(J::integer(1)); w.a.push_back(g.trees[n]); }
                cont->set(nm, w);
            } else cont->set(nm, g.trees[n]);
        }
        if (style >= 1 && r.chance(60)) rootId = "http://example.org/schemas/root.json";
        if (style == 2) rootId = "http://example.org/schemas/root.json";
        bool rootIsRef = g.trees[0].find("$ref") != nullptr;
        if (rootIsRef) { rootId = ""; style = style == 2 ? 1 : style; }
        if (style >= 1)
            for (auto &kv : g.where) {
                if (kv.first == 0 || kv.second->find("$ref") || kv.second->find(LBOOL)) continue;
                if (style == 2 && r.chance(60)) {
                    std::string f = "e" + std::to_string(kv.first) + ".json";
                    embedded[kv.first] = {"http://example.org/schemas/" + f, r.chance(50) ? f : "http://example.org/schemas/" + f};
                } else if (style == 1 && r.chance(60)) plain[kv.first] = "#n" + std::to_string(kv.first);
            }
        restrictEmbedded();
        std::vector<std::string> p;
        locate(root, p, -1, 0);
        doc = strip(root, -1, true);
        return doc;
    }
};

static void one(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg;
    uint64_t dsel = r.below(10);
    cfg.draft = dsel < 6 ? 7 : dsel < 8 ? 4 : 3;
    cfg.integralDbl = cfg.draft == 7;
    cfg.oddPct = 30;
    cfg.keywordNames = false;
    SchemaGen g(cfg, r);
    Graph gr;
    gr.make(g, (int)r.range(1, 4), (int)r.range(1, 6), (int)r.range(0, 3));
    int nrefs = 0;
    for (auto &t : gr.trees) nrefs += gr.countRefs(t);
    if (!nrefs) { run.count("norefs"); return; }
    int style = run.mode == "ptr" ? 0 : (int)r.range(0, 2);
    Render rd(gr, r, style);
    J doc = rd.render();
    Opt opt; opt.draft = cfg.draft;
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    run.count("schemas");
    run.count("references", (uint64_t)nrefs);
    run.count(fmt("style%d", style));
    auto describe = [&]() { std::string s; for (size_t n = 0; n < gr.trees.size(); n++) s += fmt(" tree%d=", (int)n) + dump(gr.trees[n]); return s; };
    if (run.verbose) fprintf(stderr, "schema %s\n", dump(doc).c_str());
        CompileResult c = lib->compile(doc, opt);
    if (!c.c) {
        run.violation("rejected-schema", fmt("%s draft%d: well-formed schema rejected (%s): ", lib->name, cfg.draft, c.what.c_str()) + dump(doc));
        return;
    }
    int seen = 0;
    std::vector<uint64_t> hashes;
    Ref ix(cfg.draft);
    for (auto &t : gr.trees) ix.index(t);
    InstGen ig(g, &ix);
    J last;
    std::string ds = dump(doc);
    for (int n = 0; n < 14; n++) {
        J inst = n < 9 ? ig.make(gr.trees[0], 4) : ig.mutate(last, 3);
        last = inst;
        if (!cfg.integralDbl && hasIntegralDbl(inst)) continue;
        ix.steps = 0; ix.gaveUp = false; ix.depth = 0;
        bool want = ix.ok(gr.trees[0], inst);
        if (ix.gaveUp) { run.count("undecided"); continue; }
        bool res = r.chance(40);
        Outcome o = c.c->validate(inst, opt, res);
        run.count("evaluations");
        run.count(want ? "valid" : "invalid");
        seen |= want ? 1 : 2;
        hashes.push_back(hashStr(ds + "|" + dump(inst)));
        if (o.threw || o.valid != want) {
            run.violation("verdict", fmt("%s %s%s style%d: expected %s, got %s: schema ", lib->name, optText(opt).c_str(), res ? " with results" : "", style, tf(want), o.threw ? ("exception " + o.what).c_str() : tf(o.valid)) + ds + " instance " + dump(inst) + " meaning" + describe());
            return;
        }
    }
    if (seen == 3) for (uint64_t h : hashes) run.seen("pairs", h);
    if (idx % 499 == 5) run.sample("pairs", ds + "  <-  " + dump(last));
}


// Long chains of references, and recursive schemas on deep instances
static void deep(Run &run, uint64_t idx, Rng &r) {
    Opt opt; opt.draft = r.chance(60) ? 7 : r.chance(50) ? 4 : 3;
    const char *idKw = opt.draft == 7 ? "$id" : "id";
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    auto check = [&](const J &doc, const std::vector<std::pair<J, bool>> &cases, const std::string &what) {
        run.count("schemas");
        if (run.verbose) fprintf(stderr, "schema %s\n", dump(doc).c_str());
        CompileResult c = lib->compile(doc, opt);
        if (!c.c) { run.violation("rejected-schema", fmt("%s draft%d %s: rejected (%s): ", lib->name, opt.draft, what.c_str(), c.what.c_str()) + dump(doc)); return; }
        for (auto &k : cases) {
            Outcome o = c.c->validate(k.first, opt, r.chance(40));
            run.count("evaluations");
            run.count(k.second ? "valid" : "invalid");
            run.seen("pairs", hashStr(dump(doc) + dump(k.first)));
            if (o.threw || o.valid != k.second) { run.violation("verdict-deep", fmt("%s draft%d %s: expected %s, got %s: ", lib->name, opt.draft, what.c_str(), tf(k.second), o.threw ? o.what.c_str() : tf(o.valid)) + dump(doc).substr(0, 2000) + " instance " + dump(k.first).substr(0, 2000)); return; }
        }
    };
    switch (r.below(4)) {
    case 0: {   // chain of n references, in any order in the document
        int n = (int)r.range(2, run.thorough ? 400 : 120);
        std::vector<int> order;
        for (int k = 0; k < n; k++) order.push_back(k);
        for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[r.below(k)]);
        J defs = J::obj();
        std::string base = r.chance(30) ? "http://example.org/chain.json" : "";
        std::map<int, bool> named;
        std::map<int, std::string> key;
        for (int k = 0; k <= n; k++) { key[k] = "s" + std::to_string(k) + "_"; if (r.chance(20)) key[k] += r.pick(oddNames()); }
        auto refTo = [&](int k) { return (base.empty() || r.chance(70) ? "" : base) + "#/definitions/" + fragEncode(ptrEscape(key[k]), &r); };
        for (int k : order) {
            J s = J::obj();
            if (r.chance(85) || k == n - 1) s.set("$ref", J::str(refTo(k + 1)));
            else { J l = J::arr(), x = J::obj(); x.set("$ref", J::str(refTo(k + 1))); if (opt.draft == 3) s.set("extends", x); else { l.a.push_back(x); s.set(r.chance(50) ? "allOf" : "anyOf", l); } }
            defs.set(key[k], s);
        }
        J last = J::obj(); last.set("type", J::str("integer")); last.set("minimum", J::integer(3));
        defs.set(key[n], last);
        J doc = J::obj(), pr = J::obj(), x = J::obj();
        if (!base.empty()) doc.set(idKw, J::str(base));
        doc.set("definitions", defs);
        x.set("$ref", J::str(refTo(0)));
        pr.set("v", x); doc.set("properties", pr);
        auto in = [&](J v) { J o = J::obj(); o.set("v", v); return o; };
        check(doc, {{in(J::integer(3)), true}, {in(J::integer(2)), false}, {in(J::str("3")), false}, {J::obj(), true}}, fmt("chain of %d", n));
        break; }
    case 1: {   // recursive list
        int d = (int)r.range(1, run.thorough ? 400 : 150);
        std::string rec = r.chance(50) ? "#" : "#/definitions/node";
        J doc = parse(rec == "#" ? R"({"properties":{"v":{"type":"integer"},"next":{"$ref":"#"}},"additionalProperties":false})"
                                 : R"({"$ref":"#/definitions/node","definitions":{"node":{"properties":{"v":{"type":"integer"},"next":{"$ref":"#/definitions/node"}},"additionalProperties":false}}})");
        int bad = (int)r.range(0, d);
        auto make = [&](bool ok) { J v = J::obj(); for (int k = d; k >= 0; k--) { J o = J::obj(); o.set("v", !ok && k == bad ? J::str("x") : J::integer(k)); if (k < d) o.set("next", v); v = o; } return v; };
        check(doc, {{make(true), true}, {make(false), false}}, fmt("list of depth %d, defect at %d", d, bad));
        break; }
    case 2: {   // tree with arrays, mutually recursive
        int d = (int)r.range(1, 7);
        J doc = parse(R"({"$ref":"#/definitions/tree","definitions":{"tree":{"type":"object","properties":{"kids":{"$ref":"#/definitions/forest"},"n":{"type":"number"}}},"forest":{"type":"array","items":{"$ref":"#/definitions/tree"}}}})");
        int nodes = 0;
        std::function<J(int, int, bool)> mk = [&](int k, int badNode, bool inArr) {
            J o = J::obj();
            o.set("n", nodes++ == badNode ? J::str("bad") : J::dbl(0.5));
            J a = J::arr();
            if (k > 0) for (int64_t m = r.range(0, 3); m > 0; m--) a.a.push_back(mk(k - 1, badNode, true));
            o.set("kids", a);
            return o;
        };
        J good = mk(d, -1, false);
        int total = nodes;
        nodes = 0;
        J bad = mk(d, (int)r.below((uint64_t)total), false);
        bool isBad = dump(bad).find("\"bad\"") != std::string::npos;
        check(doc, {{good, true}, {bad, !isBad}}, "tree");
        break; }
    default: {  // a schema referring to itself in every branch position
        J doc = parse(opt.draft == 3 ? R"({"type":["integer",{"type":"array","items":{"$ref":"#"}},{"type":"object","additionalProperties":{"$ref":"#"}}]})"
                    : R"({"anyOf":[{"type":"integer"},{"type":"array","items":{"$ref":"#"}},{"type":"object","additionalProperties":{"$ref":"#"}}]})");
        std::function<J(int, bool)> mk = [&](int k, bool) -> J {
            if (k == 0 || r.chance(25)) return J::integer(k);
            J v = r.chance(50) ? J::arr() : J::obj();
            for (int64_t n = r.range(0, 2); n > 0; n--) if (v.t == J::Arr) v.a.push_back(mk(k - 1, true)); else v.set("k" + std::to_string(n), mk(k - 1, true));
            return v;
        };
        J good = mk(7, true);
        J bad = J::arr(); bad.a.push_back(good); J w = J::obj(); w.set("x", J::str("no")); bad.a.push_back(w);
        check(doc, {{good, true}, {bad, false}}, "any nesting");
    }
    }
}

// Every place where a schema may stand, referred to from elsewhere in the same document, before and after it is met
struct Slots {
    Rng &r;
    SchemaGen &g;
    int draft;
    int64_t next = 1;
    struct Slot { std::vector<std::string> path; J schema; int64_t k; };
    std::vector<Slot> all;
    Slots(SchemaGen &sg) : r(sg.r), g(sg), draft(sg.cfg.draft) {}

    J leaf(int64_t k) {
        J s = J::obj();
        switch (r.below(draft >= 7 ? 4 : 3)) {
        case 0: s.set("enum", J::arr({J::integer(k), J::str("s" + std::to_string(k))})); break;
        case 1: s.set("minimum", J::integer(k)); s.set("maximum", J::integer(k)); break;
        case 2: s.set("type", J::str(r.chance(50) ? "integer" : "number")); s.set("enum", J::arr({J::integer(k)})); break;
        default: s.set("const", J::integer(k)); break;
        }
        return s;
    }
    J sub(std::vector<std::string> path, int depth) {
        int64_t k = next++;
        J s = leaf(k);
        if (depth > 0 && r.chance(30)) { s = J::obj(); body(s, path, depth - 1); }
        if (draft >= 7 && r.chance(4)) s = J::boolean(r.chance(50));
        all.push_back({path, s, k});
        return s;
    }
    void body(J &s, const std::vector<std::string> &path, int depth) {
        auto at = [&](std::initializer_list<std::string> more) { std::vector<std::string> p = path; p.insert(p.end(), more); return p; };
        auto one = [&](const char *k) { s.set(k, sub(at({k}), depth)); };
        auto list = [&](const char *k, bool names) {
            J l = J::arr();
            for (int64_t n = r.range(2, 4), x = 0; x < n; x++)
                if (names && r.chance(40)) l.a.push_back(J::str(r.pick(std::vector<std::string>{"boolean", "null", "array"}))); else l.a.push_back(sub(at({k, std::to_string(x)}), depth));
            s.set(k, l);
        };
        auto map = [&](const char *k, bool lists) {
            J m = J::obj();
            for (int64_t n = r.range(1, 4); n > 0; n--) {
                std::string nm = std::string(k) == "patternProperties" ? g.pattern() : g.name();
                if (m.find(nm)) continue;
                if (lists && r.chance(40)) m.set(nm, g.names(0, 2)); else m.set(nm, sub(at({k, nm}), depth));
            }
            s.set(k, m);
        };
        for (int64_t n = r.range(1, 4); n > 0; n--)
            switch (r.below(draft == 3 ? 13 : draft == 4 ? 13 : 17)) {
            case 0: map("properties", false); break;
            case 1: map("patternProperties", false); break;
            case 2: one("additionalProperties"); break;
            case 3: one("items"); break;
            case 4: list("items", false); if (r.chance(50)) one("additionalItems"); break;
            case 5: map("dependencies", true); break;
            case 6: map("definitions", false); break;
            case 7: if (s.find("items") && s.find("items")->t == J::Arr) one("additionalItems"); break;
            case 8: if (draft == 3) one("extends"); else list("allOf", false); break;
            case 9: if (draft == 3) list("extends", false); else list("anyOf", false); break;
            case 10: if (draft == 3) list("type", true); else list("oneOf", false); break;
            case 11: if (draft == 3) list("type", true); else one("not"); break;
            case 12: if (draft == 3) one("type"); else map(r.pick(std::vector<std::string>{"x-other", "definitions", "$defs"}).c_str(), false); break;
            case 13: one("if"); if (r.chance(70)) one("then"); if (r.chance(70)) one("else"); break;
            case 14: one("contains"); break;
            case 15: one("propertyNames"); break;
            default: list(r.pick(std::vector<std::string>{"allOf", "anyOf", "oneOf"}).c_str(), false); break;
            }
        // a place can have been written over
        std::vector<Slot> keep;
        for (auto &q : all) {
            bool under = q.path.size() > path.size() && std::equal(path.begin(), path.end(), q.path.begin());
            if (under) {
                const J *j = &s;
                for (size_t n = path.size(); j && n < q.path.size(); n++) {
                    const std::string &k = q.path[n];
                    if (j->t != J::Arr) { j = j->find(k); continue; }
                    bool num = !k.empty() && k.size() < 9 && k.find_first_not_of("0123456789") == std::string::npos;
                    j = num && std::stoul(k) < j->a.size() ? &j->a[std::stoul(k)] : nullptr;
                }
                if (!j || dump(*j) != dump(q.schema)) continue;
            }
            keep.push_back(q);
        }
        all = keep;
    }
};
static void slots(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg;
    cfg.draft = r.chance(40) ? 7 : r.chance(60) ? 3 : 4;
    cfg.integralDbl = false;
    cfg.oddPct = 30;
    cfg.keywordNames = false;
    SchemaGen g(cfg, r);
    Slots sl(g);
    J zone = J::obj(), doc = J::obj(), props = J::obj();
    std::string zn = r.pick(std::vector<std::string>{"A", "zone", "m/~", "~1", "%41"});
    bool inl = r.chance(75);
    std::vector<std::string> zp = {inl ? "properties" : r.pick(std::vector<std::string>{"definitions", "x-zone"}), zn};
    sl.body(zone, zp, 2);
    if (sl.all.empty()) { run.count("norefs"); return; }
    sl.all.push_back({zp, zone, 0});
    std::string base = r.chance(30) ? "http://example.org/dir/slots.json" : "";
    std::vector<std::pair<std::string, Slots::Slot>> refs;
    for (int64_t n = r.range(2, 12); n > 0; n--) refs.push_back({(r.chance(50) ? "B" : "z") + std::to_string(n), r.pick(sl.all)});
    std::vector<std::pair<std::string, J>> members;
    for (auto &q : refs) {
        std::string t = "#";
        for (auto &k : q.second.path) t += "/" + fragEncode(ptrEscape(k), r.chance(30) ? &r : nullptr);
        if (!base.empty() && r.chance(30)) t = (r.chance(50) ? base : "slots.json") + t;
        J x = J::obj(); x.set("$ref", J::str(t));
        members.push_back({q.first, x});
    }
    size_t zat = r.below(members.size() + 1);
    for (size_t n = 0; n <= members.size(); n++) { if (n == zat && inl) props.set(zn, zone); if (n < members.size()) props.set(members[n].first, members[n].second); }
    if (!base.empty()) doc.set(cfg.draft == 7 ? "$id" : "id", J::str(base));
    doc.set("properties", props);
    if (!inl) { J z = J::obj(); z.set(zn, zone); doc.set(zp[0], z); }
    Opt opt; opt.draft = cfg.draft;
    Lib *lib = typedLibs()[idx % typedLibs().size()];
    run.count("schemas");
    run.count("references", refs.size());
    std::string ds = dump(doc);
    CompileResult c = lib->compile(doc, opt);
    if (!c.c) { run.violation("rejected-schema", fmt("%s draft%d: well-formed schema rejected (%s): ", lib->name, cfg.draft, c.what.c_str()) + ds); return; }
    InstGen ig(g, nullptr);
    auto check = [&](const std::string &name, const J &schema, const J &v) {
        if (hasIntegralDbl(v)) return true;
        Ref ref(cfg.draft);
        bool want = ref.ok(schema, v);
        if (ref.gaveUp) { run.count("undecided"); return true; }
        J inst = J::obj(); inst.set(name, v);
        Outcome o = c.c->validate(inst, opt, r.chance(40));
        run.count("evaluations");
        run.count(want ? "valid" : "invalid");
        run.seen("pairs", hashStr(ds + "|" + dump(inst)));
        if (o.threw || o.valid != want) {
            run.violation("verdict-slot", fmt("%s %s: expected %s, got %s: schema ", lib->name, optText(opt).c_str(), tf(want), o.threw ? ("exception " + o.what).c_str() : tf(o.valid)) + ds + " instance " + dump(inst));
            return false;
        }
        return true;
    };
    for (auto &q : refs) {
        std::vector<J> vs = {J::integer(q.second.k), J::integer(q.second.k + 1), J::integer(q.second.k - 1), J::str("s" + std::to_string(q.second.k)), ig.make(q.second.schema, 2), ig.make(q.second.schema, 3)};
        for (auto &v : vs) if (!check(q.first, q.second.schema, v)) return;
    }
    if (inl) for (int n = 0; n < 5; n++) { J v = ig.make(zone, 3); if (!check(zn, zone, v)) return; }
}

// Fixed documents, one per case; findings that are recorded rather than repaired carry their name as key
struct Fixed { const char *name; int draft; const char *schema; const char *ok; const char *bad; };
static const Fixed FIXED[] = {
    {"sibling-id", 7, R"({"$id":"http://example.org/r.json","properties":{"v":{"$ref":"a.json"}},"definitions":{"a":{"$id":"a.json","properties":{"w":{"$ref":"b.json"}}},"b":{"$id":"b.json","type":"integer"}}})", R"({"v":{"w":1}})", R"({"v":{"w":"x"}})"},
    {"root-from-embedded", 7, R"({"$id":"http://example.org/r.json","properties":{"v":{"$ref":"a.json"}},"definitions":{"a":{"$id":"a.json","properties":{"w":{"$ref":"r.json#/definitions/i"}}},"i":{"type":"integer"}}})", R"({"v":{"w":1}})", R"({"v":{"w":"x"}})"},
    {"own-pointer-in-embedded", 7, R"({"$id":"http://example.org/r.json","properties":{"v":{"$id":"a.json","properties":{"w":{"$ref":"#/definitions/i"}},"definitions":{"i":{"type":"integer"}}}}})", R"({"v":{"w":1}})", R"({"v":{"w":"x"}})"},
    {"own-uri-in-embedded", 7, R"({"$id":"http://example.org/r.json","properties":{"v":{"$id":"a.json","properties":{"w":{"$ref":"a.json#/definitions/i"}},"definitions":{"i":{"type":"integer"}}}}})", R"({"v":{"w":1}})", R"({"v":{"w":"x"}})"},
    {"empty-fragment-id", 7, R"({"$id":"http://example.org/r.json#","properties":{"v":{"$ref":"http://example.org/r.json#/definitions/i"},"n":{"$ref":"#"},"m":{"$ref":"http://example.org/r.json#"}},"definitions":{"i":{"type":"integer"}}})", R"({"v":1,"n":{"v":2},"m":{"v":3}})", R"({"v":"x"})"},
    {"plain-self", 7, R"({"$id":"http://example.org/r.json","properties":{"v":{"$ref":"#node"}},"definitions":{"n":{"$id":"#node","properties":{"next":{"$ref":"#node"},"x":{"$ref":"#/definitions/i"}}},"i":{"type":"integer"}}})", R"({"v":{"next":{"next":{"x":1}}}})", R"({"v":{"next":{"next":{"x":"1"}}}})"},
    {"ref-to-ref-target-keyword-names", 7, R"({"properties":{"properties":{"$ref":"#/properties/items"},"items":{"type":"integer"},"enum":{"$ref":"#/properties/properties"}}})", R"({"properties":1,"enum":2})", R"({"enum":"x"})"},
    {"ref-into-items-array", 4, R"({"items":[{"type":"integer"},{"$ref":"#/items/0"},{"$ref":"#/items/1"}]})", R"([1,2,3])", R"([1,2,"x"])"},
    {"ref-into-unknown-keyword", 7, R"({"x":{"y":[{"type":"string"}]},"properties":{"a":{"$ref":"#/x/y/0"}}})", R"({"a":"s"})", R"({"a":1})"},
    {"ref-next-to-definitions", 7, R"({"$ref":"#/definitions/a","definitions":{"a":{"type":"object","properties":{"r":{"$ref":"#"}}}}})", R"({"r":{"r":{}}})", R"({"r":{"r":1}})"},
    {"ref-as-property-name", 7, R"({"properties":{"$ref":{"type":"string"}}})", R"({"$ref":"x"})", R"({"$ref":1})"},
    {"draft3-id-chain", 3, R"({"id":"http://example.org/r.json","properties":{"v":{"$ref":"a.json"}},"definitions":{"a":{"id":"a.json","properties":{"w":{"$ref":"a.json"}},"additionalProperties":false}}})", R"({"v":{"w":{"w":{}}}})", R"({"v":{"w":{"z":{}}}})"},
};
static void fixedCase(Run &run, uint64_t idx, Rng &) {
    const Fixed &f = FIXED[idx];
    Opt opt; opt.draft = f.draft;
    for (Lib *lib : {libRapidJson(), libNlohmann(), libPoco()}) {
        CompileResult c = lib->compile(parse(f.schema), opt);
        run.count("evaluations", 2);
        run.seen("pairs", hashStr(f.schema));
        if (!c.c) { run.violation(std::string("fixed:") + f.name, fmt("%s: rejected (%s): ", lib->name, c.what.c_str()) + f.schema); continue; }
        Outcome a = c.c->validate(parse(f.ok), opt, false), b = c.c->validate(parse(f.bad), opt, true);
        if (a.threw || !a.valid || b.threw || b.valid) run.violation(std::string("fixed:") + f.name, fmt("%s: %s -> %s, %s -> %s: ", lib->name, f.ok, tf(a.valid), f.bad, tf(b.valid)) + f.schema);
    }
}

int main(int argc, char **argv) {
    return harnessMain(argc, argv, [](Run &run, uint64_t idx, Rng &r) {
        if (run.mode == "deep") deep(run, idx, r);
        else if (run.mode == "slots") slots(run, idx, r);
        else if (run.mode == "fixed") { if (idx < sizeof FIXED / sizeof *FIXED) fixedCase(run, idx, r); }
        else one(run, idx, r);
    });
}
