// C21: loads a schema and instances from files, answers with verdicts and errors
#include "conf_lib.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <typeinfo>
#include <unistd.h>
#ifdef CONF_SINGLE
#include "conf_second.cpp"
#else
size_t second(const valijson::Schema &);
#endif
using Doc = CONF_DOC;
using Adapter = valijson::adapters::CONF_ADAPTER;
using FetchDoc = valijson::adapters::AdapterTraits<Adapter>::DocumentType;
static std::string remote;

static const FetchDoc *fetch(const std::string &uri) {
    if (uri.find("missing") != std::string::npos) return nullptr;
    FetchDoc *d = new FetchDoc();
    if (!valijson::utils::loadDocument(remote, *d)) { delete d; return nullptr; }
    return d;
}
static void freeDoc(const FetchDoc *d) { delete d; }

static void errors(std::string &o, valijson::ValidationResults &r) {
    valijson::ValidationResults::Error e;
    while (r.popError(e)) {
        o += "  " + e.jsonPointer + " |";
        for (auto &c : e.context) o += " " + c;
        o += " | " + e.description + "\n";
    }
}
static void work(std::string &o, int draft, int mode, const std::string &schemaPath, const std::string &instPath) {
    Doc sd{}, id{};
    if (!valijson::utils::loadDocument(schemaPath, sd)) { o += "schema not loaded\n"; return; }
    if (!valijson::utils::loadDocument(instPath, id)) { o += "instances not loaded\n"; return; }
    valijson::Schema schema;
    valijson::SchemaParser parser(draft == 3 ? valijson::SchemaParser::kDraft3 : draft == 4 ? valijson::SchemaParser::kDraft4 : valijson::SchemaParser::kDraft7);
    Adapter sa(sd);
#if VALIJSON_USE_EXCEPTIONS
    try {
#endif
        parser.populateSchema(sa, schema, fetch, freeDoc);
        o += "parsed\n";
        (void)second(schema);
        valijson::Validator v(mode & 1 ? valijson::Validator::kWeakTypes : valijson::Validator::kStrongTypes, mode & 2 ? valijson::Validator::kPermissiveDateTime : valijson::Validator::kStrictDateTime);
        Adapter ia(id);
        if (!ia.isArray()) { o += "instances are no array\n"; return; }
        for (auto e : ia.getArray()) {
            valijson::ValidationResults r;
            bool with = v.validate(schema, e, &r), without = v.validate(schema, e, nullptr);
            o += with ? "valid" : "invalid";
            o += without ? " valid\n" : " invalid\n";
            errors(o, r);
        }
#if VALIJSON_USE_EXCEPTIONS
    } catch (const std::exception &e) {
        o += std::string("threw ") + (typeid(e) == typeid(std::runtime_error) || typeid(e) == typeid(std::logic_error) ? "own " : "other ") + e.what() + "\n";
    } catch (...) { o += "threw something\n"; }
#endif
}
static bool in(void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(0, c, n); if (k <= 0) return false; c += k; n -= (size_t)k; } return true; }
static void out(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(7); c += k; n -= (size_t)k; } }
static std::string text() { uint32_t n; if (!in(&n, 4)) _exit(0); std::string s(n, 0); if (n && !in(&s[0], n)) _exit(0); return s; }
int main() {
    int fd = dup(1);
    dup2(2, 1);
    for (;;) {
        unsigned char h[2];
        if (!in(h, 2)) _exit(0);
        std::string s = text(), i = text();
        remote = text();
        std::string o;
        work(o, h[0], h[1], s, i);
        uint32_t n = (uint32_t)o.size();
        out(fd, &n, 4);
        out(fd, o.data(), n);
    }
}
