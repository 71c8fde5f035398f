// Template behind the per-library wrappers. Includes valijson from the tree under test.
#pragma once
#include "lib.hpp"
#include <optional>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>

namespace vh {

inline valijson::SchemaParser::Version draftOf(int d) {
    return d == 3 ? valijson::SchemaParser::kDraft3 : d == 4 ? valijson::SchemaParser::kDraft4 : valijson::SchemaParser::kDraft7;
}

template <class T, class = void> struct HasDecrement : std::false_type {};
template <class T> struct HasDecrement<T, std::void_t<decltype(--std::declval<T &>())>> : std::true_type {};

template <class Tr>
struct LibT : Lib {
    using Doc = typename Tr::Doc;
    using Adapter = typename Tr::Adapter;
    using FetchPtrs = valijson::SchemaParser::FunctionPtrs<Adapter>;
    using FetchDocT = typename valijson::adapters::AdapterTraits<Adapter>::DocumentType;

    LibT() { name = Tr::name(); strictTypes = Tr::strictTypes; }

    struct CompiledT : Compiled {
        valijson::Schema schema;
        std::map<int, std::unique_ptr<valijson::Validator>> validators;

        valijson::Validator &validator(const Opt &o) {
            auto &v = validators[(o.strict ? 1 : 0) | (o.strictDate ? 2 : 0)];
            if (!v) v.reset(new valijson::Validator(o.strict ? valijson::Validator::kStrongTypes : valijson::Validator::kWeakTypes,
                        o.strictDate ? valijson::Validator::kStrictDateTime : valijson::Validator::kPermissiveDateTime));
            return *v;
        }
        Outcome run(const Adapter &a, const Opt &o, bool results) { return runWith(validator(o), schema, a, results); }
        static Outcome runWith(valijson::Validator &vd, const valijson::Schema &schema, const Adapter &a, bool results) {
            Outcome out;
            try {
                if (results) {
                    valijson::ValidationResults r;
                    out.valid = vd.validate(schema, a, &r);
                    for (auto &e : r) out.errs.push_back({e.context, e.description, e.jsonPointer});
                    // the queue yields the same errors in the same order
                    if (r.numErrors() != out.errs.size()) out.bad = "numErrors() differs from the number of errors iterated over";
                    valijson::ValidationResults::Error e;
                    for (auto &x : out.errs) if (!r.popError(e) || e.jsonPointer != x.ptr || e.description != x.desc || e.context != x.ctx) { out.bad = "popError() differs from iteration"; break; }
                    if (r.popError(e) || r.numErrors()) out.bad = "popError() yields more errors than iteration";
                } else {
                    out.valid = vd.validate(schema, a, nullptr);
                }
            } catch (const std::exception &e) { out.threw = true; out.what = e.what(); }
            return out;
        }
        Outcome validate(const J &inst, const Opt &o, bool results) override {
            Doc d = Tr::build(inst);
            return run(Tr::adapt(d), o, results);
        }
        void validate2(const J &inst, const Opt &o, Outcome &noRes, Outcome &withRes) override {
            Doc d = Tr::build(inst);
            noRes = run(Tr::adapt(d), o, false);
            withRes = run(Tr::adapt(d), o, true);
        }
        bool validateText(const std::string &text, const Opt &o, bool results, Outcome &out) override {
            std::optional<Doc> d = Tr::parse(text);
            if (!d) return false;
            out = run(Tr::adapt(*d), o, results);
            return true;
        }
        void freshValidators() override { validators.clear(); }
        void *schemaPtr() override { return &schema; }
    };

    CompileResult compileDoc(std::unique_ptr<Doc> d, const Opt &o, FetchEnv *env) {
        // the parser object is gone before the schema is used
        valijson::SchemaParser parser(draftOf(o.draft));
        return compileWith(parser, std::move(d), env);
    }
    CompileResult compileWith(valijson::SchemaParser &parser, std::unique_ptr<Doc> d, FetchEnv *env) {
        CompileResult r;
        auto c = std::make_unique<CompiledT>();
        typename FetchPtrs::FetchDoc fetch;
        typename FetchPtrs::FreeDoc freed;
        if (env && env->enabled) {
            env->parsing = true;
            fetch = [env](const std::string &uri) -> const FetchDocT * {
                int n = (int)env->fetched.size();
                env->fetched.push_back(uri);
                env->events.push_back("fetch " + uri);
                if (n == env->throwAt) throw FetchEnv::Thrown("injected fetch failure");
                if (n == env->failAt) return nullptr;
                auto it = env->docs.find(uri);
                if (it == env->docs.end()) return nullptr;
                FetchDocT *p = Tr::buildFetchDoc(it->second);
                env->live.insert(p);
                env->handed++;
                env->served[uri]++;
                return p;
            };
            freed = [env](const FetchDocT *p) {
                env->events.push_back("free");
                auto it = env->live.find(p);
                if (it == env->live.end()) { env->badFrees++; return; }
                env->live.erase(it);
                env->freed++;
                delete p;
            };
        }
        {
            if (env && env->only == 1) freed = nullptr;
            if (env && env->only == 2) fetch = nullptr;
            try {
                if (env && env->enabled) parser.populateSchema(Tr::adapt(*d), c->schema, fetch, freed);
                else parser.populateSchema(Tr::adapt(*d), c->schema);
                r.c = std::move(c);
            } catch (const FetchEnv::Thrown &e) { r.threw = true; r.kind = "injected"; r.what = e.what(); }
            catch (const std::runtime_error &e) { r.threw = true; r.kind = "runtime_error"; r.what = e.what(); }
            catch (const std::logic_error &e) { r.threw = true; r.kind = "logic_error"; r.what = e.what(); }
            catch (const std::exception &e) { r.threw = true; r.kind = "exception"; r.what = e.what(); }
        }
        if (env) env->parsing = false;
        d.reset();   // the source document is gone before the schema is used
        return r;
    }
    CompileResult compile(const J &schema, const Opt &o, FetchEnv *env) override {
        return compileDoc(std::unique_ptr<Doc>(new Doc(Tr::build(schema))), o, env);
    }
    bool compileText(const std::string &text, const Opt &o, CompileResult &r) override {
        std::optional<Doc> d = Tr::parse(text);
        if (!d) return false;
        r = compileDoc(std::unique_ptr<Doc>(new Doc(std::move(*d))), o, nullptr);
        return true;
    }

    static bool scalarOf(const valijson::adapters::Adapter &e, J &out) {
        if (e.isNull()) out = J();
        else if (e.isBool()) out = J::boolean(e.getBool());
        else if (e.isInteger()) out = J::integer(e.getInteger());
        else if (e.isDouble()) out = J::dbl(e.getDouble());
        else if (e.isString()) out = J::str(e.getString());
        else return false;
        return true;
    }
    static bool same(const J &x, const J &y) { return x.t == y.t && (jeq(x, y) || (x.t == J::Dbl && x.d != x.d && y.d != y.d)); }
    // the value, without cross-checks
    static J plainOf(const Adapter &a) {
        J out;
        if (scalarOf(a, out)) return out;
        if (a.isArray()) {
            out = J::arr();
            auto arr = a.getArray();
            for (auto it = arr.begin(); it != arr.end(); ++it) out.a.push_back(plainOf(*it));
        } else {
            out = J::obj();
            auto obj = a.getObject();
            for (auto it = obj.begin(); it != obj.end(); ++it) { auto m = *it; out.o.emplace_back(m.first, plainOf(m.second)); }
        }
        return out;
    }
    // Rebuild a J from what the adapter exposes, cross-checking its access paths on the way.
    static J walk(const Adapter &a, std::string &bad) {
        {
            // exactly one type; what is not of a type has no value of it
            // (a library may not distinguish integers from doubles)
            int types = a.isNull() + a.isBool() + a.isNumber() + a.isString() + a.isArray() + a.isObject();
            if (types != 1) bad = "value has " + std::to_string(types) + " types";
            if (a.isNumber() != (a.isInteger() || a.isDouble())) bad = "isNumber disagrees with isInteger and isDouble";
            bool b; int64_t i; double d; std::string s; size_t z;
            if (!Tr::strictTypes) { (void)a.getBool(b); (void)a.getInteger(i); (void)a.getDouble(d); }
            else if (a.getBool(b) != a.isBool() || (a.isBool() && a.getBool() != b)) bad = "getBool disagrees with isBool";
            if (!Tr::strictTypes) {}
            else if (a.getInteger(i) != a.isInteger() || (a.isInteger() && a.getInteger() != i)) bad = "getInteger disagrees with isInteger";
            if (!Tr::strictTypes) {}
            else if (a.getDouble(d) != a.isDouble() || (a.isDouble() && !(a.getDouble() == d || d != d))) bad = "getDouble disagrees with isDouble";
            if (a.getNumber(d) != a.isNumber()) bad = "getNumber disagrees with isNumber";
            if (a.getString(s) != a.isString() || (a.isString() && a.getString() != s)) bad = "getString disagrees with isString";
            if (a.getArraySize(z) != a.isArray()) bad = "getArraySize disagrees with isArray";
            if (a.getObjectSize(z) != a.isObject()) bad = "getObjectSize disagrees with isObject";
            if (a.hasStrictTypes() != Tr::strictTypes) bad = "hasStrictTypes is wrong";
            auto throws = [&](const char *what, auto fn, bool want) {
                bool t = false;
                try { fn(); } catch (const std::runtime_error &) { t = true; }
                if (t != want) bad = std::string(what) + (t ? " throws for a value of its type" : " does not throw for a value of another type");
            };
            if (!a.isArray()) throws("getArray", [&] { (void)a.getArray(); }, true);
            if (!a.isObject()) throws("getObject", [&] { (void)a.getObject(); }, true);
            if (!a.isString()) throws("getString", [&] { (void)a.getString(); }, true);
            if (Tr::strictTypes) {
            if (!a.isBool()) throws("getBool", [&] { (void)a.getBool(); }, true);
            if (!a.isInteger()) throws("getInteger", [&] { (void)a.getInteger(); }, true);
            if (!a.isDouble()) throws("getDouble", [&] { (void)a.getDouble(); }, true);
            if (!a.isNumber()) throws("getNumber", [&] { (void)a.getNumber(); }, true);
            }
        }
        if (a.isArray()) {
            J out = J::arr();
            auto arr = a.getArray();
            size_t n = 0, sz = arr.size();
            if (a.getArraySize() != sz) bad = "getArraySize differs from Array::size";
            for (auto it = arr.begin(); it != arr.end(); ++it, ++n) {
                out.a.push_back(walk(*it, bad));
                if (n > sz) { bad = "array iteration runs past size()"; break; }
                auto jt = arr.begin();
                jt.advance((std::ptrdiff_t)n);
                if (!(jt == it)) bad = "advance(n) is not the n-th element";
                if constexpr (HasDecrement<decltype(it)>::value) {
                    if (n > 0) { auto kt = it; --kt; ++kt; if (!(kt == it)) bad = "--it, ++it does not return to it"; }
                }
                if (it != arr.end() ? false : true) bad = "iterator equals end() before the last element";
                auto old = jt++;
                if (!(old == it)) bad = "it++ does not return the old position";
            }
            if (n != sz) bad = "array iteration count differs from size()";
            size_t m = 0;
            bool all = a.applyToArray([&](const valijson::adapters::Adapter &e) {
                J s;
                if (m < out.a.size() && scalarOf(e, s) && !same(s, out.a[m])) bad = "applyToArray shows another element than iteration";
                m++;
                return true;
            });
            if (m != sz || !all) bad = "applyToArray visits a different number of elements";
            if (sz > 1) { m = 0; if (a.applyToArray([&](const valijson::adapters::Adapter &) { m++; return m < sz - 1; }) || m != sz - 1) bad = "applyToArray does not stop when told to"; }
            return out;
        }
        if (a.isObject()) {
            J out = J::obj();
            auto obj = a.getObject();
            size_t n = 0, sz = obj.size();
            if (a.getObjectSize() != sz) bad = "getObjectSize differs from Object::size";
            for (auto it = obj.begin(); it != obj.end(); ++it, ++n) {
                if (n > sz) { bad = "object iteration runs past size()"; break; }
                auto m = *it;
                J v = walk(m.second, bad);
                auto f = obj.find(m.first);
                if (f == obj.end()) bad = "find() misses a member that iteration shows";
                else {
                    auto fm = *f;
                    J x;
                    bool eq = v.t == J::Arr ? fm.second.isArray() && fm.second.getArraySize() == v.a.size()
                            : v.t == J::Obj ? fm.second.isObject() && fm.second.getObjectSize() == v.o.size() : scalarOf(fm.second, x) && same(x, v);
                    if (fm.first != m.first) bad = "find() returns a member with another name";
                    else if (!eq) bad = "find() returns another value than iteration";
                    if (it->first != m.first) bad = "operator-> and operator* disagree";
                }
                std::string miss = m.first + "\x01?";
                if (obj.find(miss) != obj.end()) bad = "find() finds a member that does not exist";
                out.o.emplace_back(m.first, v);
            }
            if (n != sz) bad = "object iteration count differs from size()";
            size_t m = 0;
            bool all = a.applyToObject([&](const std::string &k, const valijson::adapters::Adapter &e) {
                J s;
                const J *v = out.find(k);
                if (!v || (scalarOf(e, s) && !same(s, *v))) bad = "applyToObject shows another member than iteration";
                m++;
                return true;
            });
            if (m != sz || !all) bad = "applyToObject visits a different number of members";
            if (sz > 1) { m = 0; if (a.applyToObject([&](const std::string &, const valijson::adapters::Adapter &) { m++; return m < sz - 1; }) || m != sz - 1) bad = "applyToObject does not stop when told to"; }
            return out;
        }
        if (a.isNull()) return J();
        if (a.isBool()) return J::boolean(a.getBool());
        if (a.isInteger()) return J::integer(a.getInteger());
        if (a.isDouble()) return J::dbl(a.getDouble());
        if (a.isString()) return J::str(a.getString());
        bad = "value has no type";
        return J();
    }

    struct NativeT : Native {
        std::unique_ptr<Doc> d;
        std::unique_ptr<Adapter> ad;
        explicit NativeT(Doc &&x) : d(new Doc(std::move(x))), ad(new Adapter(Tr::adapt(*d))) {}
        explicit NativeT(const J &j) : d(new Doc(Tr::build(j))), ad(new Adapter(Tr::adapt(*d))) {}
        const valijson::adapters::Adapter &adapter() const override { return *ad; }
        void destroyDoc() override { ad.reset(); d.reset(); }
        std::string roundTrip(J &out) override { std::string bad; out = walk(*ad, bad); return bad; }
        bool pointer(const std::string &ptr, bool strictTokens, J &out, std::string &err) override {
            try {
                Adapter res = strictTokens ? valijson::internal::json_pointer::resolveJsonPointerStrict(*ad, ptr)
                                           : valijson::internal::json_pointer::resolveJsonPointer(*ad, ptr);
                out = plainOf(res);
                return true;
            } catch (const std::runtime_error &e) { err = std::string("runtime_error: ") + e.what(); return false; }
            catch (const std::exception &e) { err = std::string("OTHER: ") + e.what(); return false; }
        }
    };
    struct ParserBoxT : ParserBox {
        LibT *lib;
        valijson::SchemaParser p;
        ParserBoxT(LibT *l, int draft) : lib(l), p(draftOf(draft)) {}
        CompileResult compile(const J &schema, FetchEnv *env) override { return lib->compileWith(p, std::unique_ptr<Doc>(new Doc(Tr::build(schema))), env); }
    };
    std::unique_ptr<ParserBox> parser(int draft) override { return std::unique_ptr<ParserBox>(new ParserBoxT(this, draft)); }

    std::unique_ptr<Native> nativeText(const std::string &t) override {
        std::optional<Doc> d = Tr::parse(t);
        if (!d) return nullptr;
        return std::unique_ptr<Native>(new NativeT(std::move(*d)));
    }
    Outcome validateSchema(void *schema, const J &inst, const Opt &o, bool results) override {
        valijson::Validator v(o.strict ? valijson::Validator::kStrongTypes : valijson::Validator::kWeakTypes,
                o.strictDate ? valijson::Validator::kStrictDateTime : valijson::Validator::kPermissiveDateTime);
        Doc d = Tr::build(inst);
        return CompiledT::runWith(v, *static_cast<valijson::Schema *>(schema), Tr::adapt(d), results);
    }
    Outcome validateWith(void *validator, void *schema, const J &inst, bool results) override {
        Doc d = Tr::build(inst);
        return CompiledT::runWith(*static_cast<valijson::Validator *>(validator), *static_cast<valijson::Schema *>(schema), Tr::adapt(d), results);
    }
    std::unique_ptr<Native> native(const J &j) override { return std::unique_ptr<Native>(new NativeT(j)); }
};

}  // namespace vh
