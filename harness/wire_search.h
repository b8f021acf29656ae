// Concrete search over the real codecs. The oracle is the schema generated from the .thrift files: a random message of a record is
// decoded (fields in any order, unknown fields in between, by id or by name), the members are compared with the message, and the record
// encoded again gives the message in canonical order; the announced size covers it; a missing required field is reported.
#include <thrift/lib/cpp2/token_protocol.h>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
using namespace apache::thrift; using TP = TokenProtocol; using Toks = std::vector<TP::Tok>;
struct F { int id; std::string name, type; bool req, opt; int64_t lo, hi; int wire; };
struct S { bool uni; std::vector<F> f; };
extern std::map<std::string, S> schema;
static std::mt19937_64 rng(7);
static int64_t pick(int64_t lo, int64_t hi) { switch (rng() % 4) { case 0: return lo; case 1: return hi; case 2: if (lo <= -7 && hi >= 7) return int64_t(rng() % 15) - 7; } uint64_t span = uint64_t(hi) - uint64_t(lo); return int64_t(uint64_t(lo) + (span == UINT64_MAX ? rng() : rng() % (span + 1))); }
struct Fv { F f; Toks v; };
static void putField(Toks& out, const F& f, const Toks& v, int& last) { TP::Tok x{'f', f.name, f.wire}; x.i = f.id - last; x.w = f.id; last = f.id; out.push_back(x); out.insert(out.end(), v.begin(), v.end()); }
static Toks emit(const std::vector<Fv>& fs) { Toks out; int last = 0; out.push_back({'{'}); for (auto& f : fs) putField(out, f.f, f.v, last); out.push_back({'.'}); return out; }
static Toks gen(const std::string& t, int depth, int64_t lo = 0, int64_t hi = -1);
static std::vector<Fv> genFields(const std::string& rec, int depth) {
    std::vector<Fv> out; auto& s = schema.at(rec);
    if (s.uni) { if (rng() % 8 == 0) return out; for (int tries = 0; tries < 50; tries++) { auto& f = s.f[rng() % s.f.size()]; bool deep = schema.count(f.type) && !(f.type == "Date" || f.type == "Time" || f.type == "DateTime"); if (deep && depth <= 0) continue; out.push_back({f, gen(f.type, depth, f.lo, f.hi)}); return out; } return out; }
    for (auto& f : s.f) { if (f.opt && rng() % 3 == 0) continue; out.push_back({f, gen(f.type, depth - 1, f.lo, f.hi)}); }
    return out;
}
static Toks gen(const std::string& t, int depth, int64_t lo, int64_t hi) {
    Toks o; auto in = [&](int w) { TP::Tok x{'i'}; x.w = w; int64_t a = w == 8 ? INT64_MIN : -(int64_t(1) << (8 * w - 1)), b = w == 8 ? INT64_MAX : (int64_t(1) << (8 * w - 1)) - 1; x.i = lo <= hi ? pick(lo, hi) : pick(a, b); o.push_back(x); };
    if (t == "bool") { TP::Tok x{'b'}; x.i = rng() & 1; o.push_back(x); }
    else if (t == "byte") in(1); else if (t == "i16") in(2); else if (t == "i32" || t == "enum") in(4); else if (t == "i64") in(8);
    else if (t == "double") { static const double c[] = {0.0, -0.0, 1.5, -2.75e300, 5e-324, HUGE_VAL}; TP::Tok x{'d'}; x.d = c[rng() % 6]; o.push_back(x); }
    else if (t == "string" || t == "binary") { static const char* c[] = {"", "a", "_src", "name", "0123456789abcdef", "longer than the sixteen bytes kept inline"}; TP::Tok x{'s'}; x.s = c[rng() % 6]; if (rng() % 5 == 0) x.s += std::string("\0z", 2); o.push_back(x); }
    else if (t.compare(0, 5, "list<") == 0 || t.compare(0, 4, "set<") == 0) { bool l = t[0] == 'l'; std::string e = t.substr(l ? 5 : 4); e.pop_back(); int n = depth <= 0 && schema.count(e) ? 0 : rng() % (l ? 4 : 2); TP::Tok x{'n'}; x.i = n; o.push_back(x); while (n--) { auto v = gen(e, l ? depth - 1 : 0); o.insert(o.end(), v.begin(), v.end()); } }
    else if (t.compare(0, 4, "map<") == 0) { std::string k = t.substr(4, t.find(',') - 4), v = t.substr(t.find(',') + 1); v.pop_back(); int n = depth <= 0 && schema.count(v) ? 0 : rng() % 2; TP::Tok x{'n'}; x.i = n; o.push_back(x); if (n) { auto a = gen(k, depth - 1), b = gen(v, depth - 1); o.insert(o.end(), a.begin(), a.end()); o.insert(o.end(), b.begin(), b.end()); } }
    else { auto v = emit(genFields(t, depth)); o.insert(o.end(), v.begin(), v.end()); }
    return o;
}
static std::string show(const Toks& t) { std::string s; for (auto& x : t) { char b[400]; switch (x.op) { case 'f': snprintf(b, sizeof b, "%d(+%ld)%s/%d:", x.w, long(x.i), x.s.c_str(), x.type); break; case 'i': snprintf(b, sizeof b, "%ldi%d ", long(x.i), x.w * 8); break; case 'd': snprintf(b, sizeof b, "%g ", x.d); break; case 's': snprintf(b, sizeof b, "'%s'(%zu) ", x.s.c_str(), x.s.size()); break; default: snprintf(b, sizeof b, "%c%ld ", x.op, long(x.i)); } s += b; if (s.size() > 700) { s += "..."; break; } } return s; }
static bool same(const Toks& a, const Toks& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); k++) if (a[k].op != b[k].op || a[k].s != b[k].s || a[k].type != b[k].type || a[k].i != b[k].i || a[k].w != b[k].w || memcmp(&a[k].d, &b[k].d, 8)) return false; return true; }
static void fail(const std::string& rec, const std::string& what, const Toks& msg, const Toks* got = nullptr) { printf("FAIL %s: %s\n  message %s\n", rec.c_str(), what.c_str(), show(msg).c_str()); if (got) printf("  encoded %s\n", show(*got).c_str()); exit(1); }
template <class T> using Check = std::function<std::string(const T&, const std::map<std::string, Toks>&)>;
template <class T> static void record(const std::string& rec, int rounds, const Check<T>& members) {
    auto& s = schema.at(rec); auto kept = std::make_unique<T>(); std::vector<Fv> had; bool fresh = true;
    for (int r = 0; r < rounds; r++) {
        auto fs = genFields(rec, 3); auto sent = fs; if (fresh || rng() % 3) { kept = std::make_unique<T>(); had.clear(); } fresh = false;
        if (!s.uni) for (auto& h : had) { bool again = false; for (auto& f : fs) again |= f.f.id == h.f.id; if (!again) { fs.push_back(h); std::sort(fs.begin(), fs.end(), [](const Fv& a, const Fv& b) { return a.f.id < b.f.id; }); } }
        auto canon = emit(fs); bool names = rng() % 3 == 0; std::map<std::string, Toks> want; for (auto& f : fs) want[f.f.name] = f.v;
        if (!s.uni) {
            if (rng() % 3 == 0) std::shuffle(sent.begin(), sent.end(), rng);
            for (int n = rng() % 3; n--;) { F u; Toks v; static const char* ty[] = {"bool", "i32", "i64", "string", "double", "byte", "i16", "list<i64>"}; static const int wt[] = {2, 8, 10, 11, 4, 3, 6, 15}; int k = rng() % 8; u.type = ty[k]; u.wire = wt[k]; u.name = "unknown"; u.id = rng() % 3 ? int(s.f.size()) + 1 + rng() % 4 : rng() % 2 ? 300 : -5;
                if (!names && s.f.size() && rng() % 3 == 0) { auto& q = s.f[rng() % s.f.size()]; if (q.wire != u.wire) u.id = q.id; }
                v = gen(u.type, 0); if (u.type[0] == 'l') { v.resize(1); v[0].i = 0; } sent.insert(sent.begin() + rng() % (sent.size() + 1), Fv{u, v}); }
        }
        std::string missing; if (!s.uni && rng() % 5 == 0 && sent.size()) { size_t k = rng() % sent.size(); if (sent[k].f.name != "unknown" && sent[k].f.req) { missing = sent[k].f.name; sent.erase(sent.begin() + k); } }
        auto msg = emit(sent); TP in; in.t = msg; in.t.push_back({'e'}); in.names = names; T& o = *kept; bool thrown = false;
        try { Cpp2Ops<T>::read(&in, &o); } catch (const TProtocolException& e) { thrown = true; if (missing.empty()) fail(rec, std::string("decoding fails: ") + e.what(), msg); } catch (const std::runtime_error& e) { fail(rec, std::string("decoding loses the message: ") + e.what(), msg); }
        if (!missing.empty()) { fresh = true; if (!thrown) fail(rec, "a missing required field is not reported: " + missing, msg); continue; }
        if (in.at != msg.size()) fail(rec, "the message is not used up", msg);
        had = fs; auto bad = members(o, want); if (!bad.empty()) fail(rec, bad + " does not hold what the message says", msg);
        TP out; uint32_t n = Cpp2Ops<T>::write(&out, &o); if (!same(out.t, canon)) fail(rec, "encoding the decoded record gives another message", canon, &out.t);
        if (Cpp2Ops<T>::serializedSize(&out, &o) < n || Cpp2Ops<T>::serializedSizeZC(&out, &o) < n) fail(rec, "the announced size is less than the bytes written", canon);
        if (Cpp2Ops<T>::thriftType() != protocol::T_STRUCT) fail(rec, "not a struct", canon);
    }
}
