// C20: loading documents from files
#include "gen.hpp"
#include "libt.hpp"
#include "lib_rapidjson.cpp"
#include "lib_nlohmann.cpp"
#include "lib_jsoncpp.cpp"
#include "lib_picojson.cpp"
#include "lib_boostjson.cpp"
#include "lib_poco.cpp"
#include "lib_qtjson.cpp"
#include "lib_qvariant.cpp"
#include "lib_json11.cpp"
#include "lib_yaml.cpp"
#include "lib_ptree.cpp"
#include <valijson/utils/rapidjson_utils.hpp>
#include <valijson/utils/nlohmann_json_utils.hpp>
#include <valijson/utils/jsoncpp_utils.hpp>
#include <valijson/utils/picojson_utils.hpp>
#include <valijson/utils/boost_json_utils.hpp>
#include <valijson/utils/poco_json_utils.hpp>
#include <valijson/utils/qtjson_utils.hpp>
#include <valijson/utils/qvariant_utils.hpp>
#include <valijson/utils/json11_utils.hpp>
#include <valijson/utils/yaml_cpp_utils.hpp>
#include <valijson/utils/property_tree_utils.hpp>
#include <sys/stat.h>
#include <dirent.h>
#include <sstream>
#include <iostream>
#include <fstream>
#include <unistd.h>
using namespace vh;
namespace vu = valijson::utils;

struct Result { bool ok = false, odd = false; std::string threw; J value; std::string out; };
struct Loader {
    const char *name;
    std::function<void(const std::string &path, const std::string *before, Result &)> load;     // before: a file loaded into the same document first
    std::function<bool(const std::string &text, J &, bool &odd)> parse;     // the library's own parser, by way of its own interface
};
template <class Tr> static J shown(const typename Tr::Doc &d) { return LibT<Tr>::plainOf(Tr::adapt(d)); }

template <class Tr, class D> static void loadInto(const std::string &path, const std::string *before, Result &res) {
    D doc{};
    std::ostringstream out;
    auto *e = std::cerr.rdbuf(out.rdbuf());
    auto *c = std::cout.rdbuf(out.rdbuf());
    try {
        if (before) { (void)vu::loadDocument(*before, doc); out.str(""); }
        res.ok = vu::loadDocument(path, doc);
    } catch (const std::exception &x) { res.threw = x.what(); if (res.threw.empty()) res.threw = "?"; }
    catch (...) { res.threw = "not a std::exception"; }
    std::cerr.rdbuf(e);
    std::cout.rdbuf(c);
    res.out = out.str();
    // (YAML documents with keys that are no strings cannot be read as JSON)
    if (res.ok && res.threw.empty()) try { res.value = shown<Tr>(doc); } catch (...) { res.odd = true; }
}
template <class Tr, class D> static Loader make(std::function<bool(const std::string &, D &)> p) {
    return {Tr::name(), loadInto<Tr, D>, [p](const std::string &t, J &j, bool &odd) {
        D d{};
        odd = false;
        try { if (!p(t, d)) return false; } catch (...) { return false; }
        try { j = shown<Tr>(d); } catch (...) { odd = true; }
        return true;
    }};
}
static const std::vector<Loader> &loaders() {
    static const std::vector<Loader> v = {
        make<RapidTr<rapidjson::Value>, rapidjson::Document>([](const std::string &t, rapidjson::Document &d) { d.Parse<rapidjson::kParseIterativeFlag>(t.data(), t.size()); return !d.HasParseError(); }),
        make<NlohmannTr, nlohmann::json>([](const std::string &t, nlohmann::json &d) { d = nlohmann::json::parse(t, nullptr, false); return !d.is_discarded(); }),
        make<JsonCppTr, Json::Value>([](const std::string &t, Json::Value &d) { Json::CharReaderBuilder b; std::unique_ptr<Json::CharReader> r(b.newCharReader()); std::string e; return r->parse(t.data(), t.data() + t.size(), &d, &e); }),
        make<PicoTr, picojson::value>([](const std::string &t, picojson::value &d) { std::string e; picojson::parse(d, t.begin(), t.end(), &e); return e.empty(); }),
        make<BoostJsonTr, boost::json::value>([](const std::string &t, boost::json::value &d) { boost::system::error_code ec; d = boost::json::parse(t, ec); return !ec; }),
        make<PocoTr, Poco::Dynamic::Var>([](const std::string &t, Poco::Dynamic::Var &d) { Poco::JSON::Parser p; d = p.parse(t); return true; }),
        make<QtJsonTr, QJsonValue>([](const std::string &t, QJsonValue &d) { QJsonDocument q = QJsonDocument::fromJson(QByteArray(t.data(), (qsizetype)t.size())); if (q.isNull()) return false; d = q.isArray() ? QJsonValue(q.array()) : QJsonValue(q.object()); return true; }),
        make<QVariantTr, QVariant>([](const std::string &t, QVariant &d) { QJsonDocument q = QJsonDocument::fromJson(QByteArray(t.data(), (qsizetype)t.size())); if (q.isNull()) return false; d = q.toVariant(); return true; }),
        make<Json11Tr, json11::Json>([](const std::string &t, json11::Json &d) { std::string e; d = json11::Json::parse(t, e); return e.empty(); }),
        make<YamlTr, YAML::Node>([](const std::string &t, YAML::Node &d) { d = YAML::Load(t); return true; }),
        make<PtreeTr, boost::property_tree::ptree>([](const std::string &t, boost::property_tree::ptree &d) { std::istringstream s(t); boost::property_tree::read_json(s, d); return true; }),
    };
    return v;
}
static J sorted(J j) {
    for (auto &e : j.a) e = sorted(e);
    for (auto &kv : j.o) kv.second = sorted(kv.second);
    std::stable_sort(j.o.begin(), j.o.end(), [](auto &x, auto &y) { return x.first < y.first; });
    return j;
}
static bool same(const J &x, const J &y) { return dump(sorted(x)) == dump(sorted(y)); }     // the same types, too; NaN equals NaN

static const std::string &dir() {
    static const std::string d = [] {
        const char *s = getenv("VH_SCRATCH");
        std::string x = (s ? std::string(s) : std::string("/tmp")) + "/load." + std::to_string(getpid());
        mkdir(x.c_str(), 0700);
        return x;
    }();
    return d;
}
static void put(const std::string &path, const std::string &text) {
    FILE *f = fopen(path.c_str(), "wb");
    if (!f || fwrite(text.data(), 1, text.size(), f) != text.size()) { perror("harness: write"); exit(3); }
    fclose(f);
}
// leaves a pattern where the next call's locals will be
static volatile char sink;
__attribute__((noinline)) static void dirty(int byte) {
    volatile char b[96 * 1024];
    for (size_t n = 0; n < sizeof b; n++) b[n] = (char)byte;
    sink = b[(size_t)byte];
}
__attribute__((noinline)) static void loadOn(const Loader &l, int byte, const std::string &path, const std::string *before, Result &r) {
    dirty(byte);
    std::vector<void *> h;       // fresh heap blocks hold it, too
    for (size_t n = 16; n < 4096; n *= 2) for (int k = 0; k < 4; k++) { void *p = malloc(n); memset(p, byte, n); h.push_back(p); }
    for (void *p : h) free(p);
    l.load(path, before, r);
}
static std::string hexHead(const std::string &s) {
    std::string o;
    for (unsigned char c : s.substr(0, 300)) { if (c >= 32 && c < 127) o += (char)c; else o += fmt("\\x%02x", c); }
    if (s.size() > 300) o += fmt("... (%zu bytes)", s.size());
    return o;
}

// renders a document with any white space and spelling
struct Render {
    Rng &r;
    int mode;       // 0 compact, 1 spread
    std::string o;
    void ws() { if (!mode) return; for (uint64_t n = r.below(3); n > 0; n--) o += " \t\n\r"[r.below(4)]; if (r.chance(3)) o += "\r\n"; }
    void str(const std::string &s) {
        o += '"';
        for (size_t n = 0; n < s.size();) {
            unsigned char c = (unsigned char)s[n];
            size_t len = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
            if (n + len > s.size()) len = s.size() - n;
            uint32_t cp = len == 1 ? c : len == 2 ? (c & 31u) << 6 | ((unsigned char)s[n + 1] & 63u) : len == 3 ? (c & 15u) << 12 | ((unsigned char)s[n + 1] & 63u) << 6 | ((unsigned char)s[n + 2] & 63u)
                : (c & 7u) << 18 | ((unsigned char)s[n + 1] & 63u) << 12 | ((unsigned char)s[n + 2] & 63u) << 6 | ((unsigned char)s[n + 3] & 63u);
            if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
            else if (c < 0x20 || r.chance(mode ? 10 : 1)) {
                if (cp >= 0x10000) { cp -= 0x10000; o += fmt("\\u%04x\\u%04X", 0xD800 + (cp >> 10), 0xDC00 + (cp & 1023)); }
                else if (c == '\n' && r.chance(50)) o += "\\n";
                else o += fmt(r.chance(50) ? "\\u%04x" : "\\u%04X", cp);
            } else if (c == '/' && r.chance(30)) o += "\\/";
            else o.append(s, n, len);
            n += len;
        }
        o += '"';
    }
    void val(const J &j) {
        switch (j.t) {
        case J::Str: str(j.s); break;
        case J::Arr: { o += '['; bool f = true; for (auto &e : j.a) { if (!f) o += ','; f = false; ws(); val(e); ws(); } if (f) ws(); o += ']'; break; }
        case J::Obj: { o += '{'; bool f = true; for (auto &kv : j.o) { if (!f) o += ','; f = false; ws(); str(kv.first); ws(); o += ':'; ws(); val(kv.second); ws(); } if (f) ws(); o += '}'; break; }
        default: dumpTo(o, j);
        }
    }
};
static J document(Rng &r, SchemaGen &g, bool big) {
    J j = g.value((int)r.range(1, 4));
    if (j.t != J::Obj && j.t != J::Arr) j = r.chance(50) ? J::arr({j, g.value(2)}) : [&] { J o = J::obj(); o.set(g.name(), j); o.set("z", g.value(2)); return o; }();
    if (big) {
        // sizes around the buffers of streams
        static const std::vector<size_t> sizes = {511, 1023, 4095, 8190, 8191, 8192, 16383, 32768, 65535, 65536, 131071, 300000};
        size_t n = r.pick(sizes) + r.below(6);
        std::string s(n, 'x');
        for (size_t k = 0; k < 20; k++) s[r.below(n)] = (char)('a' + r.below(26));
        J w = J::arr({j, J::str(s), J::integer(r.range(-5, 5))});
        if (r.chance(50)) { J o = J::obj(); o.set("first", j); for (int k = 0; k < 200; k++) o.set("k" + std::to_string(k), g.value(2)); w.a.push_back(o); }
        return w;
    }
    return j;
}

// loads with every library and compares with what the library makes of the same text
static bool check(Run &run, Rng &r, const std::string &path, const std::string &text, const J *doc, const std::string &about) {
    for (auto &l : loaders()) {
        if (r.chance(text.size() > 50000 ? 75 : 40)) continue;
        J want;
        bool odd;
        bool ok = l.parse(text, want, odd);
        std::string before = dir() + "/before";
        bool twice = r.chance(20);
        if (twice) put(before, r.chance(70) ? "{\"left\":[\"over\",1],\"a\":{\"b\":[]}}" : "[\"left\",{\"over\":2.5},[]]");
        Result a, b;
        loadOn(l, 0xA5, path, twice ? &before : nullptr, a);
        loadOn(l, 0x5A, path, twice ? &before : nullptr, b);
        run.count("evaluations");
        run.count(ok ? "valid" : "invalid");
        run.count(std::string("loads_") + l.name);
        auto say = [&](const std::string &what) { run.violation(fmt("%s:%s", l.name, what.substr(0, what.find(':')).c_str()), fmt("%s loader: ", l.name) + what + " (" + about + "): " + hexHead(text)); return false; };
        if (!a.threw.empty() || !b.threw.empty()) return say("throws: " + a.threw + b.threw);
        if (a.ok != b.ok || a.odd != b.odd || (a.ok && !same(a.value, b.value))) return say("answers differ between two loads");
        if (a.out != b.out) return say("prints uninitialised data: '" + hexHead(a.out) + "' and '" + hexHead(b.out) + "'");
        if (a.ok != ok) return say(a.ok ? "succeeds: the library rejects the text" : "fails: the library accepts the text");
        if (a.ok && (a.odd != odd || !same(a.value, want))) return say("wrong document: " + dump(a.value).substr(0, 1500) + " instead of " + dump(want).substr(0, 1500));
        if (a.ok && !a.out.empty()) return say("prints on success: " + hexHead(a.out));
        if (!a.ok && a.out.empty()) return say("fails silently");
        if (doc && ok && jeq(want, *doc)) run.count("as_generated");
        if (doc && !ok) run.count("library_limits");
    }
    return true;
}

static void one(Run &run, uint64_t idx, Rng &r) {
    GenCfg cfg; cfg.oddPct = 25;
    SchemaGen g(cfg, r);
    std::string path = dir() + "/" + r.pick(std::vector<std::string>{"doc.json", "with space.json", "d\xC3\xA9j\xC3\xA0.json", "x", "'quo\"te", "%41.json", "a.b.c"});
    if (run.mode == "docs") {
        J doc = document(r, g, r.chance(12));
        Render rd{r, r.chance(70), ""};
        if (r.chance(30)) rd.ws();
        rd.val(doc);
        if (r.chance(60)) { rd.ws(); if (r.chance(50)) rd.o += "\n"; }
        put(path, rd.o);
        run.seen("texts", hashStr(rd.o));
        if (rd.o.size() > 4000) run.count("large_files");
        check(run, r, path, rd.o, &doc, "well-formed");
    } else if (run.mode == "spoilt") {
        J doc = document(r, g, r.chance(5));
        Render rd{r, r.chance(50), ""};
        rd.val(doc);
        std::string t = rd.o;
        std::string about;
        auto at = [&] { return (size_t)r.below(t.size() + 1); };
        for (uint64_t n = 1 + r.below(2); n > 0; n--) {
            switch (r.below(12)) {
            case 0: case 1: t.resize(at()); about += " truncated"; break;
            case 2: if (!t.empty()) t.erase(r.below(t.size()), 1); about += " byte removed"; break;
            case 3: t.insert(at(), 1, "\"{}[],:0-.eE\\ntf/#"[r.below(18)]); about += " byte inserted"; break;
            case 4: t.insert(at(), 1, '\0'); about += " null character"; break;
            case 5: t += std::string(1, '\0') + (r.chance(50) ? "garbage" : "{}"); about += " null character at the end"; break;
            case 6: { static const std::vector<std::string> bad = {"\xFF", "\xC3", "\xED\xA0\x80", "\xF5\x80\x80\x80", "\xC0\xAF", "\x80", "\xEF\xBB\xBF", "\x01", "\x1a"}; t.insert(at(), r.pick(bad)); about += " odd bytes"; break; }
            case 7: { static const std::vector<std::string> junk = {"x", " {}", ",", "]", "}", "//c\n", "/*c*/", "\n\n1", "\xEF\xBB\xBF"}; t += r.pick(junk); about += " trailing text"; break; }
            case 8: t = r.pick(std::vector<std::string>{"\xEF\xBB\xBF", "//c\n", "/*c*/", " ", "\n", "\xFF\xFE", ","}) + t; about += " leading text"; break;
            case 9: { static const std::vector<std::string> nums = {"1e999", "-1e999", "1e-999", "123456789012345678901234567890", "01", "1.", ".5", "-", "+1", "1e", "0x10", "NaN", "Infinity", "-0", "18446744073709551615", "9223372036854775808", "1E400", "1e308"};
                t = r.chance(50) ? "[" + r.pick(nums) + "]" : "{\"a\":" + r.pick(nums) + "}"; about += " odd number"; break; }
            case 10: { size_t d = r.chance(80) ? (size_t)r.range(10, 90) : (size_t)r.range(100, 1100); bool open = r.chance(40);
                bool obj = r.chance(40);
                t = ""; for (size_t k = 0; k < d; k++) t += obj ? "{\"a\":" : "["; t += "1"; if (!open) for (size_t k = 0; k < d; k++) t += obj ? "}" : "]"; about += " deep nesting"; break; }
            default: { static const std::vector<std::string> w = {"", " ", "null", "true", "5", "\"x\"", "\"", "{", "[", "nul", "{\"a\"}", "{\"a\":}", "[1,]", "{\"a\":1,}", "{'a':1}", "{a:1}", "[1 2]", "\"\\x\"", "[\"\\u12\"]", "[\"\\ud800\"]", "[\"\t\"]", "a: b\nc", "- a\n- b\n", "[&a [1], *a]", "{\"a\":1,\"a\":2}", "!!int x", "%YAML 1.2\n---\na", "*x", "a: *x", "? ", "{{}: 1}", "- - :", "@", "`", "\t- a"};
                t = r.pick(w); about += " fixed text"; }
            }
        }
        put(path, t);
        run.seen("texts", hashStr(t));
        check(run, r, path, t, nullptr, about);
    } else {
        // what is no readable file
        std::string p, about;
        bool yamlToo = true;
        std::string d = dir();
        switch (idx % 12) {
        case 0: p = d + "/missing.json"; about = "missing file"; break;
        case 1: p = ""; about = "empty path"; break;
        case 2: p = d + "/nodir/x.json"; about = "missing directory"; break;
        case 3: put(d + "/file", "{}"); p = d + "/file/x.json"; about = "file used as a directory"; break;
        case 4: p = d; about = "directory"; yamlToo = false; break;
        case 5: unlink((d + "/dangling").c_str()); if (symlink((d + "/missing.json").c_str(), (d + "/dangling").c_str())) return; p = d + "/dangling"; about = "dangling link"; break;
        case 6: unlink((d + "/loop").c_str()); if (symlink("loop", (d + "/loop").c_str())) return; p = d + "/loop"; about = "link to itself"; break;
        case 7: p = d + "/" + std::string(300, 'n'); about = "name too long"; break;
        case 8: p = d + std::string("/") + std::string(5000, 'p'); about = "path too long"; break;
        case 9: p = "/dev/null"; about = "/dev/null"; yamlToo = false; break;
        case 10: p = "/proc/self/mem"; about = "file whose reading fails"; yamlToo = false; break;
        default: put(d + "/empty", ""); p = d + "/empty"; about = "empty file"; yamlToo = false;
        }
        for (auto &l : loaders()) {
            bool yaml = !strcmp(l.name, "yaml_cpp");
            if (yaml && !yamlToo) continue;       // (yaml-cpp takes no text for null, and does not notice read errors)
            Result a, b;
            std::string before = d + "/before";
            bool twice = r.chance(50);
            if (twice) put(before, "{\"left\":[\"over\",1]}");
            loadOn(l, 0xA5, p, twice ? &before : nullptr, a);
            loadOn(l, 0x5A, p, twice ? &before : nullptr, b);
            run.count("evaluations");
            run.count("no_file");
            std::string what = !a.threw.empty() ? "throws: " + a.threw : a.ok ? "succeeds" : a.out != b.out ? "prints uninitialised data: " + hexHead(a.out) + " and " + hexHead(b.out) : a.out.empty() ? "fails silently" : "";
            if (!what.empty()) run.violation(fmt("%s:file:%s", l.name, what.substr(0, what.find(':')).c_str()), fmt("%s loader, %s: ", l.name, about.c_str()) + what);
            run.seen("files", hashStr(about + l.name));
        }
    }
}
static void done(Run &) {
    if (DIR *d = opendir(dir().c_str())) {
        while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((dir() + "/" + e->d_name).c_str());
        closedir(d);
        rmdir(dir().c_str());
    }
}
int main(int argc, char **argv) { return harnessMain(argc, argv, one, done); }
