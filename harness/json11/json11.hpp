// A stand-in for the json11 library, which is not installed here: the same public interface and number representation
// (int or double, converted to int by a cast), written from its documentation. It exists to compile and run valijson's
// json11 adapter and loader.
#pragma once
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace json11 {

enum JsonParse { STANDARD, COMMENTS };

class Json final {
public:
    enum Type { NUL, NUMBER, BOOL, STRING, ARRAY, OBJECT };
    typedef std::vector<Json> array;
    typedef std::map<std::string, Json> object;

    Json() noexcept {}
    Json(std::nullptr_t) noexcept {}
    Json(double v) : p(std::make_shared<V>()) { p->t = NUMBER; p->d = v; }
    Json(int v) : p(std::make_shared<V>()) { p->t = NUMBER; p->isInt = true; p->i = v; p->d = v; }
    Json(bool v) : p(std::make_shared<V>()) { p->t = BOOL; p->b = v; }
    Json(const std::string &v) : p(std::make_shared<V>()) { p->t = STRING; p->s = v; }
    Json(std::string &&v) : p(std::make_shared<V>()) { p->t = STRING; p->s = std::move(v); }
    Json(const char *v) : Json(std::string(v)) {}
    Json(const array &v) : p(std::make_shared<V>()) { p->t = ARRAY; p->a = v; }
    Json(array &&v) : p(std::make_shared<V>()) { p->t = ARRAY; p->a = std::move(v); }
    Json(const object &v) : p(std::make_shared<V>()) { p->t = OBJECT; p->o = v; }
    Json(object &&v) : p(std::make_shared<V>()) { p->t = OBJECT; p->o = std::move(v); }
    Json(void *) = delete;

    Type type() const { return p ? p->t : NUL; }
    bool is_null() const { return type() == NUL; }
    bool is_number() const { return type() == NUMBER; }
    bool is_bool() const { return type() == BOOL; }
    bool is_string() const { return type() == STRING; }
    bool is_array() const { return type() == ARRAY; }
    bool is_object() const { return type() == OBJECT; }
    double number_value() const { return is_number() ? p->d : 0; }
    int int_value() const { return is_number() ? (p->isInt ? p->i : static_cast<int>(p->d)) : 0; }
    bool bool_value() const { return is_bool() && p->b; }
    const std::string &string_value() const { static const std::string e; return is_string() ? p->s : e; }
    const array &array_items() const { static const array e; return is_array() ? p->a : e; }
    const object &object_items() const { static const object e; return is_object() ? p->o : e; }

    static Json parse(const std::string &in, std::string &err, JsonParse = STANDARD) {
        Ps s{in, 0, err, false};
        Json r = s.value(0);
        s.ws();
        if (!s.failed && s.i != in.size()) return s.fail("unexpected trailing text");
        return s.failed ? Json() : r;
    }
    static Json parse(const char *in, std::string &err, JsonParse st = STANDARD) {
        if (in) return parse(std::string(in), err, st);
        err = "null input";
        return nullptr;
    }

private:
    struct V { Type t = NUL; bool isInt = false, b = false; int i = 0; double d = 0; std::string s; array a; object o; };
    std::shared_ptr<V> p;

    struct Ps {
        const std::string &in;
        size_t i;
        std::string &err;
        bool failed;
        Json fail(const char *m) { if (!failed) err = m; failed = true; return Json(); }
        void ws() { while (i < in.size() && (in[i] == ' ' || in[i] == '\t' || in[i] == '\r' || in[i] == '\n')) i++; }
        char next() { ws(); if (failed) return 0; if (i == in.size()) { fail("unexpected end of input"); return 0; } return in[i++]; }
        static void utf8(long c, std::string &o) {
            if (c < 0x80) o += (char)c;
            else if (c < 0x800) { o += (char)(c >> 6 | 0xC0); o += (char)((c & 0x3F) | 0x80); }
            else if (c < 0x10000) { o += (char)(c >> 12 | 0xE0); o += (char)((c >> 6 & 0x3F) | 0x80); o += (char)((c & 0x3F) | 0x80); }
            else { o += (char)(c >> 18 | 0xF0); o += (char)((c >> 12 & 0x3F) | 0x80); o += (char)((c >> 6 & 0x3F) | 0x80); o += (char)((c & 0x3F) | 0x80); }
        }
        bool hex(long &v) {
            if (in.size() - i < 4) { fail("bad \\u escape"); return false; }
            v = 0;
            for (int k = 0; k < 4; k++) { char c = in[i++]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) { fail("bad \\u escape"); return false; } v = v * 16 + d; }
            return true;
        }
        std::string str() {
            std::string o;
            for (;;) {
                if (i == in.size()) { fail("unexpected end of input in string"); return ""; }
                char c = in[i++];
                if (c == '"') return o;
                if ((unsigned char)c < 0x20) { fail("unescaped control character in string"); return ""; }
                if (c != '\\') { o += c; continue; }
                if (i == in.size()) { fail("unexpected end of input in string"); return ""; }
                c = in[i++];
                switch (c) {
                case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case '"': case '\\': case '/': o += c; break;
                case 'u': {
                    long v, w;
                    if (!hex(v)) return "";
                    if (v >= 0xD800 && v < 0xDC00 && in.compare(i, 2, "\\u") == 0) { size_t k = i; i += 2; if (!hex(w)) return ""; if (w >= 0xDC00 && w < 0xE000) v = ((v - 0xD800) << 10 | (w - 0xDC00)) + 0x10000; else i = k; }
                    utf8(v, o);
                    break; }
                default: fail("invalid escape character"); return "";
                }
            }
        }
        Json number() {
            size_t b = i;
            auto dig = [&] { return i < in.size() && in[i] >= '0' && in[i] <= '9'; };
            if (i < in.size() && in[i] == '-') i++;
            if (!dig()) return fail("invalid number");
            if (in[i] == '0') { i++; if (dig()) return fail("leading 0s not permitted in numbers"); } else while (dig()) i++;
            if ((i == in.size() || (in[i] != '.' && in[i] != 'e' && in[i] != 'E')) && i - b <= 9) return Json((int)std::atoi(in.substr(b, i - b).c_str()));
            if (i < in.size() && in[i] == '.') { i++; if (!dig()) return fail("at least one digit required in fractional part"); while (dig()) i++; }
            if (i < in.size() && (in[i] == 'e' || in[i] == 'E')) { i++; if (i < in.size() && (in[i] == '+' || in[i] == '-')) i++; if (!dig()) return fail("at least one digit required in exponent"); while (dig()) i++; }
            return Json(std::strtod(in.substr(b, i - b).c_str(), nullptr));
        }
        Json lit(const char *w, Json v) { size_t n = std::strlen(w); if (in.compare(i, n, w) != 0) return fail("expected a literal"); i += n; return v; }
        Json value(int depth) {
            if (depth > 200) return fail("exceeded maximum nesting depth");
            char c = next();
            if (failed) return Json();
            i--;
            if (c == '-' || (c >= '0' && c <= '9')) return number();
            if (c == 't') return lit("true", Json(true));
            if (c == 'f') return lit("false", Json(false));
            if (c == 'n') return lit("null", Json());
            i++;
            if (c == '"') return Json(str());
            if (c == '{') {
                object o;
                c = next();
                if (c == '}') return o;
                for (;;) {
                    if (c != '"') return fail("expected '\"' in object");
                    std::string k = str();
                    if (failed) return Json();
                    if (next() != ':') return fail("expected ':' in object");
                    o[std::move(k)] = value(depth + 1);
                    if (failed) return Json();
                    c = next();
                    if (c == '}') return o;
                    if (c != ',') return fail("expected ',' in object");
                    c = next();
                }
            }
            if (c == '[') {
                array a;
                c = next();
                if (c == ']') return a;
                for (;;) {
                    i--;
                    a.push_back(value(depth + 1));
                    if (failed) return Json();
                    c = next();
                    if (c == ']') return a;
                    if (c != ',') return fail("expected ',' in list");
                    c = next();
                }
            }
            return fail("expected value");
        }
    };
};

}  // namespace json11
