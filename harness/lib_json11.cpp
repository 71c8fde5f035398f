#include "json11/json11.hpp"
#include <valijson/adapters/json11_adapter.hpp>
#include "libt.hpp"
namespace vh {
struct Json11Tr {
    using Doc = json11::Json;
    using Adapter = valijson::adapters::Json11Adapter;
    static constexpr bool strictTypes = true;
    static Doc build(const J &j) {
        switch (j.t) {
        case J::Null: return Doc();
        case J::Bool: return Doc(j.b);
        case J::Int: return j.i >= INT_MIN && j.i <= INT_MAX ? Doc((int)j.i) : Doc((double)j.i);
        case J::Dbl: return Doc(j.d);
        case J::Str: return Doc(j.s);
        case J::Arr: { Doc::array d; for (auto &e : j.a) d.push_back(build(e)); return Doc(d); }
        case J::Obj: { Doc::object d; for (auto &kv : j.o) d[kv.first] = build(kv.second); return Doc(d); }
        }
        return Doc();
    }
    static Doc *buildFetchDoc(const J &j) { return new Doc(build(j)); }
    static Adapter adapt(const Doc &d) { return Adapter(d); }
    static std::optional<Doc> parse(const std::string &t) {
        std::string err;
        Doc d = Doc::parse(t, err);
        if (!err.empty()) return {};
        return d;
    }
    static const char *name() { return "json11"; }
};
Lib *libJson11() { static LibT<Json11Tr> l; return &l; }
}
