#include <valijson/adapters/poco_json_adapter.hpp>
#include <Poco/JSON/Parser.h>
#include "libt.hpp"
namespace vh {
struct PocoTr {
    using Doc = Poco::Dynamic::Var;
    using Adapter = valijson::adapters::PocoJsonAdapter;
    static constexpr bool strictTypes = true;
    static Doc build(const J &j) {
        switch (j.t) {
        case J::Null: return Doc();
        case J::Bool: return Doc(j.b);
        case J::Int: return Doc((Poco::Int64)j.i);
        case J::Dbl: return Doc(j.d);
        case J::Str: return Doc(j.s);
        case J::Arr: { Poco::JSON::Array::Ptr d(new Poco::JSON::Array); for (auto &e : j.a) d->add(build(e)); return Doc(d); }
        case J::Obj: { Poco::JSON::Object::Ptr d(new Poco::JSON::Object); for (auto &kv : j.o) d->set(kv.first, build(kv.second)); return Doc(d); }
        }
        return Doc();
    }
    static Doc *buildFetchDoc(const J &j) { return new Doc(build(j)); }
    static Adapter adapt(const Doc &d) { return Adapter(d); }
    static std::optional<Doc> parse(const std::string &t) {
        // Poco parses objects and arrays only
        size_t k = t.find_first_not_of(" \t\r\n");
        bool scalar = k != std::string::npos && t[k] != '{' && t[k] != '[';
        try {
            Poco::JSON::Parser p;
            if (!scalar) return p.parse(t);
            Doc d = p.parse("[" + t + "]");
            Poco::JSON::Array::Ptr a = d.extract<Poco::JSON::Array::Ptr>();
            if (a->size() != 1) return {};
            return a->get(0);
        } catch (const Poco::Exception &) { return {}; }
    }
    static const char *name() { return "poco"; }
};
Lib *libPoco() { static LibT<PocoTr> l; return &l; }
}
