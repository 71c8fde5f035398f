#include <valijson/adapters/property_tree_adapter.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <sstream>
#include "libt.hpp"
namespace vh {
struct PtreeTr {
    using Doc = boost::property_tree::ptree;
    using Adapter = valijson::adapters::PropertyTreeAdapter;
    static constexpr bool strictTypes = false;
    static Doc build(const J &j) {
        Doc d;
        switch (j.t) {
        case J::Null: d.data() = "null"; break;
        case J::Bool: d.data() = j.b ? "true" : "false"; break;
        case J::Int: case J::Dbl: d.data() = dump(j); break;
        case J::Str: d.data() = j.s; break;
        case J::Arr: for (auto &e : j.a) d.push_back({"", build(e)}); break;
        case J::Obj: for (auto &kv : j.o) d.push_back({kv.first, build(kv.second)}); break;
        }
        return d;
    }
    static Doc *buildFetchDoc(const J &j) { return new Doc(build(j)); }
    static Adapter adapt(const Doc &d) { return Adapter(d); }
    static std::optional<Doc> parse(const std::string &t) {
        try { std::istringstream is(t); Doc d; boost::property_tree::read_json(is, d); return d; } catch (const std::exception &) { return {}; }
    }
    static const char *name() { return "property_tree"; }
};
Lib *libPropertyTree() { static LibT<PtreeTr> l; return &l; }
}
