// Shared by the semantic harnesses: running a library against an expectation, shrinking.
#pragma once
#include "gen.hpp"
#include "lib.hpp"

namespace vh {

inline const std::vector<Lib *> &typedLibs() {
    static const std::vector<Lib *> v = {libRapidJson(), libRapidJson(), libRapidJson(), libNlohmann(), libJsonCpp(), libPicoJson(), libBoostJson(), libPoco(), libQtJson(), libQVariant(), libRapidJsonCrt(), libJson11()};
    return v;
}
// What a library cannot hold is not put into it. QtJson and QVariant: numbers may be doubles only;
// QJsonObject and std::map based libraries order members by name.
inline const char *tf(bool b) { return b ? "valid" : "invalid"; }
inline std::string optText(const Opt &o) { return fmt("draft%d %s types%s", o.draft, o.strict ? "strong" : "weak", o.strictDate ? "" : " permissive-dates"); }
inline std::string errText(const std::vector<Err> &v) {
    std::string o = "[";
    for (auto &e : v) { if (o.size() > 1) o += "; "; for (auto &c : e.ctx) o += c; o += " (" + e.ptr + "): " + e.desc; if (o.size() > 1500) break; }
    return o + "]";
}

// All ways to make j one step smaller
inline void smaller(const J &j, const std::function<bool(const J &)> &accept, bool &changed, J &best) {
    // returns through best the first accepted reduction
    std::function<bool(const J &, const std::function<bool(const J &)> &)> rec = [&](const J &x, const std::function<bool(const J &)> &put) -> bool {
        if (x.t == J::Obj) {
            for (size_t n = 0; n < x.o.size(); n++) { J y = x; y.o.erase(y.o.begin() + (long)n); if (put(y)) return true; }
            for (size_t n = 0; n < x.o.size(); n++)
                if (rec(x.o[n].second, [&](const J &z) { J y = x; y.o[n].second = z; return put(y); })) return true;
        } else if (x.t == J::Arr) {
            for (size_t n = 0; n < x.a.size(); n++) { J y = x; y.a.erase(y.a.begin() + (long)n); if (put(y)) return true; }
            for (size_t n = 0; n < x.a.size(); n++)
                if (rec(x.a[n], [&](const J &z) { J y = x; y.a[n] = z; return put(y); })) return true;
        } else if (x.t == J::Str && x.s.size() > 1) { J y = x; y.s = "a"; if (put(y)) return true; }
        return false;
    };
    changed = rec(j, [&](const J &y) { if (accept(y)) { best = y; return true; } return false; });
}
// fails(schema, inst) == true: still shows the violation. Exceptions count as "does not".
inline void shrink(J &schema, J &inst, const std::function<bool(const J &, const J &)> &fails) {
    auto safe = [&](const J &s, const J &i) { try { return fails(s, i); } catch (...) { return false; } };
    int budget = 1500;
    for (bool any = true; any && budget > 0;) {
        any = false;
        bool ch; J best;
        smaller(schema, [&](const J &s) { return --budget > 0 && safe(s, inst); }, ch, best);
        if (ch) { schema = best; any = true; continue; }
        smaller(inst, [&](const J &i) { return --budget > 0 && safe(schema, i); }, ch, best);
        if (ch) { inst = best; any = true; }
    }
}

}  // namespace vh
