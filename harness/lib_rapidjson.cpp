#include <valijson/adapters/rapidjson_adapter.hpp>
#include "libt.hpp"
namespace vh {
template <class Value>
struct RapidTr {
    using Doc = typename valijson::adapters::AdapterTraits<valijson::adapters::GenericRapidJsonAdapter<Value>>::DocumentType;
    using Adapter = valijson::adapters::GenericRapidJsonAdapter<Value>;
    static constexpr bool strictTypes = true;
    template <class A> static Value val(const J &j, A &al) {
        Value v;
        switch (j.t) {
        case J::Null: break;
        case J::Bool: v.SetBool(j.b); break;
        case J::Int: v.SetInt64(j.i); break;
        case J::Dbl: v.SetDouble(j.d); break;
        case J::Str: v.SetString(j.s.data(), (rapidjson::SizeType)j.s.size(), al); break;
        case J::Arr: v.SetArray(); for (auto &e : j.a) { Value x = val(e, al); v.PushBack(x, al); } break;
        case J::Obj: v.SetObject(); for (auto &kv : j.o) { Value k; k.SetString(kv.first.data(), (rapidjson::SizeType)kv.first.size(), al); Value x = val(kv.second, al); v.AddMember(k, x, al); } break;
        }
        return v;
    }
    static Doc build(const J &j) { Doc d; Value v = val(j, d.GetAllocator()); v.Swap(d); return d; }
    static Doc *buildFetchDoc(const J &j) { Doc *d = new Doc; Value v = val(j, d->GetAllocator()); v.Swap(*d); return d; }
    static Adapter adapt(const Doc &d) { return Adapter(d); }
    static std::optional<Doc> parse(const std::string &t) {
        Doc d; d.template Parse<rapidjson::kParseFullPrecisionFlag | rapidjson::kParseIterativeFlag>(t.c_str(), t.size());
        if (d.HasParseError()) return {};
        return std::optional<Doc>(std::move(d));
    }
    static const char *name() { return std::is_same_v<typename Value::AllocatorType, rapidjson::CrtAllocator> ? "rapidjson-crt" : "rapidjson"; }
};
#ifdef VH_CRT
Lib *libRapidJsonCrt() { static LibT<RapidTr<valijson::adapters::RapidJsonCrt>> l; return &l; }
#else
Lib *libRapidJson() { static LibT<RapidTr<rapidjson::Value>> l; return &l; }
#endif
}
