#include <boost/json/src.hpp>
#include <valijson/adapters/boost_json_adapter.hpp>
#include "libt.hpp"
namespace vh {
struct BoostJsonTr {
    using Doc = boost::json::value;
    using Adapter = valijson::adapters::BoostJsonAdapter;
    static constexpr bool strictTypes = true;
    static Doc build(const J &j) {
        switch (j.t) {
        case J::Null: return nullptr;
        case J::Bool: return Doc(j.b);
        case J::Int: return Doc(j.i);
        case J::Dbl: return Doc(j.d);
        case J::Str: return Doc(boost::json::string(j.s));
        case J::Arr: { boost::json::array d; for (auto &e : j.a) d.push_back(build(e)); return d; }
        case J::Obj: { boost::json::object d; for (auto &kv : j.o) d[kv.first] = build(kv.second); return d; }
        }
        return nullptr;
    }
    static Doc *buildFetchDoc(const J &j) { return new Doc(build(j)); }
    static Adapter adapt(const Doc &d) { return Adapter(d); }
    static std::optional<Doc> parse(const std::string &t) {
        boost::json::error_code ec;
        boost::json::parse_options o; o.max_depth = 100000;
        Doc d = boost::json::parse(t, ec, {}, o);
        if (ec) return {};
        return d;
    }
    static const char *name() { return "boost_json"; }
};
Lib *libBoostJson() { static LibT<BoostJsonTr> l; return &l; }
}
