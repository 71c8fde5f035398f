#include <valijson/adapters/qvariant_adapter.hpp>
#include <QJsonDocument>
#include <QJsonArray>
#include <QJsonValue>
#include "libt.hpp"
namespace vh {
struct QVariantTr {
    using Doc = QVariant;
    using Adapter = valijson::adapters::QtVariantAdapter;
    static constexpr bool strictTypes = true;
    static QString qs(const std::string &s) { return QString::fromUtf8(s.data(), (qsizetype)s.size()); }
    static Doc build(const J &j) {
        switch (j.t) {
        case J::Null: return QVariant::fromValue(nullptr);
        case J::Bool: return Doc(j.b);
        case J::Int: return Doc((qlonglong)j.i);
        case J::Dbl: return Doc(j.d);
        case J::Str: return Doc(qs(j.s));
        case J::Arr: { QVariantList d; for (auto &e : j.a) d.append(build(e)); return Doc(d); }
        case J::Obj: { QVariantMap d; for (auto &kv : j.o) d.insert(qs(kv.first), build(kv.second)); return Doc(d); }
        }
        return Doc();
    }
    static Doc *buildFetchDoc(const J &j) { return new Doc(build(j)); }
    static Adapter adapt(const Doc &d) { return Adapter(d); }
    static std::optional<Doc> parse(const std::string &t) {
        QJsonParseError e;
        QJsonDocument d = QJsonDocument::fromJson(QByteArray::fromStdString("[" + t + "]"), &e);
        if (e.error != QJsonParseError::NoError || d.array().size() != 1) return {};
        return d.array().at(0).toVariant();
    }
    static const char *name() { return "qvariant"; }
};
Lib *libQVariant() { static LibT<QVariantTr> l; return &l; }
}
