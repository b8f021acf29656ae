// Histories of addField against a model of the layout; every lookup, in and out of range, and the iterator.
#include "common/base/Base.h"
#include "common/meta/NebulaSchemaProvider.h"
#include <sys/wait.h>
#include <random>
using namespace nebula; using namespace nebula::meta; using T = cpp2::PropertyType;
struct Rec { std::string name; T type; bool nullable; Expression* def; size_t size, off, pos; };
static const std::vector<std::pair<T, size_t>> W = {{T::BOOL, 1}, {T::INT8, 1}, {T::INT16, 2}, {T::INT32, 4}, {T::INT64, 8}, {T::VID, 8}, {T::FLOAT, 4}, {T::DOUBLE, 8}, {T::STRING, 8}, {T::TIMESTAMP, 8}, {T::DATE, 4}, {T::TIME, 7}, {T::DATETIME, 11}, {T::FIXED_STRING, 0}};
#define BAD(...) do { printf("FAIL "); printf(__VA_ARGS__); printf(" [after %s]\n", hist.c_str()); return 1; } while (0)
static bool dies(T t, size_t n) { fflush(stdout); pid_t c = fork(); if (!c) { fclose(stderr); NebulaSchemaProvider::fieldSize(t, n); _exit(0); } int s; waitpid(c, &s, 0); return !(WIFEXITED(s) && WEXITSTATUS(s) == 0); }
int main(int, char** v) {
    long runs = atol(v[1]); std::mt19937_64 g(getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1); std::string hist = "nothing"; FLAGS_minloglevel = 3;
    for (auto& w : W) for (size_t n : {0, 1, 7, 300}) if (w.first != T::FIXED_STRING || n) { size_t want = w.first == T::FIXED_STRING ? n : w.second; if (NebulaSchemaProvider::fieldSize(w.first, n) != want) BAD("fieldSize(type %d, %zu) is %zu and not %zu", int(w.first), n, NebulaSchemaProvider::fieldSize(w.first, n), want); }
    if (!dies(T::FIXED_STRING, 0)) BAD("fieldSize(FIXED_STRING, 0) gives a size"); if (!dies(T::UNKNOWN, 3)) BAD("fieldSize(UNKNOWN) gives a size");
    for (long r = 0; r < runs; r++) {
        int64_t ver = g() % 5; NebulaSchemaProvider p(ver); std::vector<Rec> m; std::map<std::string, int64_t> ix; size_t nn = 0; int n = g() % 8; hist = "";
        for (int i = 0; i <= n; i++) {
            if (i) {
                auto& w = W[g() % W.size()]; size_t len = w.first == T::FIXED_STRING ? 1 + g() % 40 : g() % 3; bool nul = g() % 2; Expression* d = g() % 3 ? nullptr : reinterpret_cast<Expression*>(8 * (1 + g() % 100)); std::string nm = g() % 4 ? "a_long_name_of_property_" + std::to_string(g() % 6) : std::string(1, 'a' + g() % 3);
                p.addField(nm, w.first, len, nul, d); size_t sz = w.first == T::FIXED_STRING ? len : w.second; size_t off = m.empty() ? 0 : m.back().off + m.back().size;
                m.push_back({nm, w.first, nul, d, sz, off, nul ? nn++ : 0}); ix.emplace(nm, int64_t(m.size()) - 1); hist += "addField(" + nm + ", type " + std::to_string(int(w.first)) + ", " + std::to_string(len) + (nul ? ", nullable" : "") + (d ? ", default" : "") + ") ";
            }
            size_t end = m.empty() ? 0 : m.back().off + m.back().size;
            if (p.getVersion() != ver) BAD("the version is %ld and not %ld", long(p.getVersion()), long(ver)); if (p.getNumFields() != m.size()) BAD("getNumFields() is %zu", p.getNumFields()); if (p.getNumNullableFields() != nn) BAD("getNumNullableFields() is %zu and not %zu", p.getNumNullableFields(), nn);
            if (p.size() != end) BAD("size() is %zu and not %zu", p.size(), end);
            for (int64_t k : {int64_t(-1), INT64_MIN, int64_t(m.size()), int64_t(m.size()) + 1, INT64_MAX}) if (p.getFieldName(k) || p.getFieldType(k) != T::UNKNOWN || p.field(k)) BAD("there is a field at %ld", long(k));
            for (size_t k = 0; k < m.size(); k++) {
                auto* f = p.field(int64_t(k)); auto& e = m[k]; if (!f) BAD("no field at %zu", k); if (e.name != f->name() || e.name != p.getFieldName(k)) BAD("the name of field %zu is %s", k, f->name()); if (f->type() != e.type || p.getFieldType(int64_t(k)) != e.type) BAD("the type of field %zu is %d", k, int(f->type()));
                if (f->nullable() != e.nullable || f->hasDefault() != (e.def != nullptr) || f->defaultValue() != e.def) BAD("nullable or default of field %zu", k); if (f->size() != e.size || f->offset() != e.off) BAD("field %zu has size %zu at offset %zu and not %zu at %zu", k, f->size(), f->offset(), e.size, e.off); if (e.nullable && f->nullFlagPos() != e.pos) BAD("field %zu has the null flag %zu and not %zu", k, f->nullFlagPos(), e.pos);
            }
            for (std::string nm : {"", "none", "a", "b", "c", "a_long_name_of_property_0", "a_long_name_of_property_3", "a_long_name_of_property_5"}) {
                auto it = ix.find(nm); int64_t want = it == ix.end() ? -1 : it->second; if (p.getFieldIndex(nm) != want) BAD("getFieldIndex(%s) is %ld and not %ld", nm.c_str(), long(p.getFieldIndex(nm)), long(want));
                if (p.field(nm) != (want < 0 ? nullptr : p.field(want)) || p.getFieldType(nm) != (want < 0 ? T::UNKNOWN : m[want].type)) BAD("field or type of the name %s", nm.c_str());
            }
            size_t k = 0; auto it = p.begin(); for (; it && k < 100; ++it, ++k) { if (it == p.end()) BAD("the iterator is at the end at %zu", k); if (&*it != p.field(int64_t(k)) || it.operator->() != p.field(int64_t(k))) BAD("the iterator shows another field at %zu", k); }
            if (k != m.size() || !(it == p.end())) BAD("the iterator ends after %zu fields of %zu", k, m.size());
            for (uint16_t x : {0, 1, 2, 5, 9, 12}) for (uint16_t y : {0, 1, 2, 5, 9, 12}) { auto a = p.begin(), b = p.begin(); a + x; b + y; bool want = std::min<size_t>(x, m.size()) == std::min<size_t>(y, m.size()); if ((a == b) != want) BAD("begin() + %d == begin() + %d is %d", int(x), int(y), int(!want)); }
            for (uint16_t s : {0, 1, 2, 3, 9}) { auto j = p.begin(); auto& q = j + s; if (&q != &j) BAD("+ gives another iterator"); const SchemaProviderIf::Field* want = s < m.size() ? p.field(int64_t(s)) : nullptr; if (bool(j) != (want != nullptr) || (want && &*j != want)) BAD("begin() + %d", int(s)); }
        }
        cpp2::SchemaProp sp; bool hc = g() % 2; bool hd = g() % 2; std::string col = g() % 3 ? "column" : ""; int64_t du[] = {0, 1, -1, 100, INT64_MIN, INT64_MAX}; int64_t d = du[g() % 6]; if (hc) sp.set_ttl_col(col); if (hd) sp.set_ttl_duration(d); p.setProp(sp);
        auto got = p.getProp(); if (got.has_ttl_col != hc || got.has_ttl_duration != hd || (hc && got.ttl_col != col) || (hd && got.ttl_duration != d)) BAD("getProp() is not what setProp took");
        auto t = p.getTTLInfo(); bool want = hc && !col.empty() && hd && d > 0; if (t.ok() != want || (want && (t.value().first != col || t.value().second != d))) BAD("getTTLInfo() with ttl_col %s, ttl_duration %s", hc ? ("'" + col + "'").c_str() : "unset", hd ? std::to_string(d).c_str() : "unset");
    }
    printf("no counterexample in %ld histories\n", runs); return 0;
}
