// Reference graphs: labels, placement, rendering of references in one or several documents
#pragma once
#include "sem.hpp"

namespace vh {

// Visit the direct subschemas of a schema. cb(sub, consumes)
template <class JT, class F>
void forSub(JT &s, int draft, const F &cb) {
    if (s.t != J::Obj || s.find("$ref") || s.find(LBOOL)) return;
    auto one = [&](const char *k, bool consumes) {
        for (auto &kv : s.o) if (kv.first == k && (kv.second.t == J::Obj || kv.second.t == J::Bool)) cb(kv.second, consumes);
    };
    auto list = [&](const char *k, bool consumes) {
        for (auto &kv : s.o) if (kv.first == k && kv.second.t == J::Arr) for (auto &e : kv.second.a) if (e.t == J::Obj || (e.t == J::Bool && draft >= 7)) cb(e, consumes);
    };
    auto map = [&](const char *k, bool consumes) {
        for (auto &kv : s.o) if (kv.first == k && kv.second.t == J::Obj) for (auto &m : kv.second.o) if (m.second.t == J::Obj || (m.second.t == J::Bool && draft >= 7)) cb(m.second, consumes);
    };
    map("properties", true); map("patternProperties", true); map("dependencies", false);
    one("items", true); list("items", true);
    if (draft >= 7) { one("contains", true); one("propertyNames", true); one("if", false); if (s.find("if")) { one("then", false); one("else", false); } }
    if (draft >= 4) { list("allOf", false); list("anyOf", false); list("oneOf", false); one("not", false); }
    if (draft == 3) { one("extends", false); list("extends", false); list("type", false); one("type", false); }
    // may be plain booleans in every draft; only objects are treated as subschemas here
    for (auto &kv : s.o) if ((kv.first == "additionalProperties" || kv.first == "additionalItems") && kv.second.t == J::Obj) cb(kv.second, true);
}

struct Graph {
    int draft = 7;
    std::vector<J> trees;                 // 0 is the root schema; each is labelled with its index
    int64_t nextLabel = 0;
    std::map<int64_t, J *> where;
    std::map<int64_t, int> treeOf;

    void reindex() {
        where.clear(); treeOf.clear();
        for (size_t n = 0; n < trees.size(); n++) idx(trees[n], (int)n);
    }
    void idx(J &s, int tree) {
        if (s.t == J::Obj) if (J *l = s.find(LABEL)) { where[l->i] = &s; treeOf[l->i] = tree; }
        forSub(s, draft, [&](J &x, bool) { idx(x, tree); });
    }
    // a cycle of subschemas that all apply to the same instance location
    std::map<const J *, int> color;
    bool cyc(const J *s) {
        int &c = color[s];
        if (c == 1) return true;
        if (c == 2) return false;
        c = 1;
        bool bad = false;
        if (s->t == J::Obj) {
            if (const J *r = s->find("$ref")) { auto it = where.find(r->i); if (it != where.end()) bad = cyc(it->second); }
            else forSub(*s, draft, [&](const J &x, bool consumes) { if (!bad && !consumes) bad = cyc(&x); });
        }
        color[s] = 2;
        return bad;
    }
    bool cyclicAll(const J *s) {
        if (cyc(s)) return true;
        bool bad = false;
        if (s->t == J::Obj) forSub(*s, draft, [&](const J &x, bool) { if (!bad) bad = cyclicAll(&x); });
        return bad;
    }
    bool cyclic() {
        color.clear();
        for (auto &t : trees) if (cyclicAll(&t)) return true;
        return false;
    }
    void positions(J &s, std::vector<J *> &out, bool root = true) {
        if (!root) out.push_back(&s);
        forSub(s, draft, [&](J &x, bool) { positions(x, out, false); });
    }

    void make(SchemaGen &g, int nTrees, int nRefs, int nNested) {
        Rng &r = g.r;
        draft = g.cfg.draft;
        trees.clear();
        for (int n = 0; n < nTrees; n++) {
            J s;
            if (n > 0 && draft >= 7 && r.chance(6)) { s = J::obj(); s.set(LBOOL, J::boolean(r.chance(50))); }
            else for (int k = 0; k < 20; k++) { s = g.schema(n == 0 ? 3 : (int)r.range(1, 2)); if (s.t == J::Obj && s.o.size() >= (n == 0 ? 1u : 1u)) break; }
            if (s.t != J::Obj) s = J::obj();
            s.set(LABEL, J::integer(nextLabel++));
            trees.push_back(s);
        }
        // nested labels
        for (int n = 0; n < nNested; n++) {
            std::vector<J *> pos;
            for (auto &t : trees) positions(t, pos);
            if (pos.empty()) break;
            J *p = r.pick(pos);
            if (p->t == J::Obj && !p->find(LABEL)) p->set(LABEL, J::integer(nextLabel++));
        }
        reindex();
        std::vector<int64_t> labels;
        for (auto &kv : where) labels.push_back(kv.first);
        // put references
        for (int n = 0; n < nRefs; n++) {
            std::vector<J *> pos;
            for (auto &t : trees) positions(t, pos);
            J *p = nullptr;
            // a whole tree may become a reference, too (chains)
            if (r.chance(12)) { p = &trees[r.below(trees.size())]; }
            else if (!pos.empty()) p = r.pick(pos);
            if (!p || (p->t == J::Obj && p->find("$ref"))) continue;
            if (p->t == J::Obj && p->find(LBOOL)) continue;
            int64_t target = r.chance(15) ? 0 : r.pick(labels);
            if (!where.count(target)) continue;
            J old = *p, ref = J::obj();
            ref.set("$ref", J::integer(target));
            if (old.t == J::Obj) { if (J *l = old.find(LABEL)) ref.set(LABEL, *l); }
            // 'required' of draft 3 belongs to the place, not to the schema: what a reference to it means is not defined
            if (draft == 3) if (const J *q = where[target]->find("required")) if (q->t == J::Bool) continue;
            // labels inside the replaced schema vanish: refuse if something refers to one of them
            std::vector<Graph> keep;
            *p = ref;
            reindex();
            bool dangling = false;
            for (auto &t : trees) if (hasDangling(t)) dangling = true;
            if (dangling || cyclic()) { *p = old; reindex(); }
            labels.clear();
            for (auto &kv : where) labels.push_back(kv.first);
        }
    }
    bool hasDangling(const J &s) {
        if (s.t == J::Obj) if (const J *q = s.find("$ref")) return !where.count(q->i);
        bool bad = false;
        forSub(s, draft, [&](const J &x, bool) { if (!bad) bad = hasDangling(x); });
        return bad;
    }
    // number of references below s
    int countRefs(const J &s) {
        if (s.t == J::Obj && s.find("$ref")) return 1;
        int n = 0;
        forSub(s, draft, [&](const J &x, bool) { n += countRefs(x); });
        return n;
    }
};

}  // namespace vh
