#include <valijson/adapters/jsoncpp_adapter.hpp>
#include "libt.hpp"
namespace vh {
struct JsonCppTr {
    using Doc = Json::Value;
    using Adapter = valijson::adapters::JsonCppAdapter;
    static constexpr bool strictTypes = true;
    static Doc build(const J &j) {
        switch (j.t) {
        case J::Null: return Doc();
        case J::Bool: return Doc(j.b);
        case J::Int: return Doc((Json::Int64)j.i);
        case J::Dbl: return Doc(j.d);
        case J::Str: return Doc(j.s);
        case J::Arr: { Doc d(Json::arrayValue); for (auto &e : j.a) d.append(build(e)); return d; }
        case J::Obj: { Doc d(Json::objectValue); for (auto &kv : j.o) d[kv.first] = build(kv.second); return d; }
        }
        return Doc();
    }
    static Doc *buildFetchDoc(const J &j) { return new Doc(build(j)); }
    static Adapter adapt(const Doc &d) { return Adapter(d); }
    static std::optional<Doc> parse(const std::string &t) {
        Json::CharReaderBuilder b;
        b["allowComments"] = false; b["strictRoot"] = false; b["failIfExtra"] = true; b["rejectDupKeys"] = false;
        b["stackLimit"] = 100000;
        std::unique_ptr<Json::CharReader> r(b.newCharReader());
        Doc d; std::string errs;
        if (!r->parse(t.data(), t.data() + t.size(), &d, &errs)) return {};
        return d;
    }
    static const char *name() { return "jsoncpp"; }
};
Lib *libJsonCpp() { static LibT<JsonCppTr> l; return &l; }
}
