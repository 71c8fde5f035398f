#include <valijson/adapters/yaml_cpp_adapter.hpp>
#include "libt.hpp"
namespace vh {
struct YamlTr {
    using Doc = YAML::Node;
    using Adapter = valijson::adapters::YamlCppAdapter;
    static constexpr bool strictTypes = false;
    static Doc build(const J &j) {
        switch (j.t) {
        case J::Null: return YAML::Node(YAML::NodeType::Null);
        case J::Bool: return YAML::Node(j.b ? "true" : "false");
        case J::Int: case J::Dbl: return YAML::Node(dump(j));
        case J::Str: return YAML::Node(j.s);
        case J::Arr: { YAML::Node d(YAML::NodeType::Sequence); for (auto &e : j.a) d.push_back(build(e)); return d; }
        case J::Obj: { YAML::Node d(YAML::NodeType::Map); for (auto &kv : j.o) d.force_insert(kv.first, build(kv.second)); return d; }
        }
        return YAML::Node();
    }
    static Doc *buildFetchDoc(const J &j) { return new Doc(build(j)); }
    static Adapter adapt(const Doc &d) { return Adapter(d); }
    static std::optional<Doc> parse(const std::string &t) {
        try { return YAML::Load(t); } catch (const YAML::Exception &) { return {}; }
    }
    static const char *name() { return "yaml_cpp"; }
};
Lib *libYaml() { static LibT<YamlTr> l; return &l; }
}
