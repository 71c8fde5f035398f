#include <valijson/adapters/picojson_adapter.hpp>
#include "libt.hpp"
namespace vh {
struct PicoTr {
    using Doc = picojson::value;
    using Adapter = valijson::adapters::PicoJsonAdapter;
    static constexpr bool strictTypes = true;
    static Doc build(const J &j) {
        switch (j.t) {
        case J::Null: return Doc();
        case J::Bool: return Doc(j.b);
        case J::Int: return Doc(j.i);
        case J::Dbl: return Doc(j.d);
        case J::Str: return Doc(j.s);
        case J::Arr: { picojson::array d; for (auto &e : j.a) d.push_back(build(e)); return Doc(d); }
        case J::Obj: { picojson::object d; for (auto &kv : j.o) d[kv.first] = build(kv.second); return Doc(d); }
        }
        return Doc();
    }
    static Doc *buildFetchDoc(const J &j) { return new Doc(build(j)); }
    static Adapter adapt(const Doc &d) { return Adapter(d); }
    static std::optional<Doc> parse(const std::string &t) {
        Doc d; std::string err;
        // picojson reports numbers out of range by throwing
        try { picojson::parse(d, t.begin(), t.end(), &err); } catch (const std::overflow_error &) { return {}; }
        if (!err.empty()) return {};
        return d;
    }
    static const char *name() { return "picojson"; }
};
Lib *libPicoJson() { static LibT<PicoTr> l; return &l; }
}
