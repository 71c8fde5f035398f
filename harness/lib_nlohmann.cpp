#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include "libt.hpp"
namespace vh {
struct NlohmannTr {
    using Doc = nlohmann::json;
    using Adapter = valijson::adapters::NlohmannJsonAdapter;
    static constexpr bool strictTypes = true;
    static Doc build(const J &j) {
        switch (j.t) {
        case J::Null: return nullptr;
        case J::Bool: return j.b;
        case J::Int: return j.i;
        case J::Dbl: return j.d;
        case J::Str: return j.s;
        case J::Arr: { Doc d = Doc::array(); for (auto &e : j.a) d.push_back(build(e)); return d; }
        case J::Obj: { Doc d = Doc::object(); for (auto &kv : j.o) d[kv.first] = build(kv.second); return d; }
        }
        return nullptr;
    }
    static Doc *buildFetchDoc(const J &j) { return new Doc(build(j)); }
    static Adapter adapt(const Doc &d) { return Adapter(d); }
    static std::optional<Doc> parse(const std::string &t) {
        Doc d = Doc::parse(t, nullptr, false);
        if (d.is_discarded()) return {};
        return d;
    }
    static const char *name() { return "nlohmann"; }
};
Lib *libNlohmann() { static LibT<NlohmannTr> l; return &l; }
}
