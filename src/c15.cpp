// C15: JSON and string forms are well formed and decode to exactly the records, for any data and every mode.
#include "enumx.hpp"
#include "json.hpp"
#include "MVault.h"
#include <climits>
#include <cfloat>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
using namespace mvlt; using namespace mc;
#ifdef MC_SMALL
constexpr int SHRINK = 1;
#else
constexpr int SHRINK = 0;
#endif
// A field: kind (S string, N number, B boolean, Z not-a-number/infinity, as null), decoded text
struct Fld { char kind; std::string text; };
using Recs = std::vector<std::vector<std::pair<std::string, Fld>>>;   // key order preserved
static std::string show(const std::vector<std::pair<std::string, Fld>>& r) { std::string o = "{"; for (auto& f : r) o += vis(f.first) + "=" + f.second.kind + ":" + vis(f.second.text) + " "; return o + "}"; }
static bool sameNum(const std::string& a, const std::string& b) { if (a == b) return true; if (a.find_first_of(".eE") == a.npos && b.find_first_of(".eE") == b.npos) return false; return strtod(a.c_str(), nullptr) == strtod(b.c_str(), nullptr); }
static bool matches(const JVal& j, const std::vector<std::pair<std::string, Fld>>& r)
{
    if (j.k != JVal::OBJ || j.o.size() != r.size()) return false;
    for (size_t i = 0; i < r.size(); ++i)
    {
        if (j.o[i].first != r[i].first) return false; auto& v = j.o[i].second; auto& f = r[i].second;
        switch (f.kind) { case 'S': if (v.k != JVal::STR || v.s != f.text) return false; break; case 'N': if (v.k != JVal::NUM || !sameNum(v.s, f.text)) return false; break; case 'B': if (v.k != JVal::BOOL || v.s != f.text) return false; break; case 'Z': if (v.k != JVal::NUL) return false; break; }
    }
    return true;
}
static void oneToOne(const std::vector<const JVal*>& objs, const Recs& recs, const std::string& at, const std::string& text)
{
    if (objs.size() != recs.size()) fail(at + "has " + std::to_string(objs.size()) + " records, not " + std::to_string(recs.size()) + ": " + vis(text));
    std::vector<bool> used(recs.size()); for (auto* o : objs) { bool f = false; for (size_t i = 0; i < recs.size() && !f; ++i) if (!used[i] && matches(*o, recs[i])) { used[i] = true; f = true; } if (!f) { std::string w; for (auto& r : recs) w += show(r); fail(at + "does not decode to the records " + w + ": " + vis(text)); } }
}
static unsigned long g_docs = 0;
static JVal parse(const std::string& t, const std::string& at) { ++g_docs; JVal j; if (!JParser(t).parse(j)) fail(at + "is not valid JSON: " + vis(t)); return j; }
// every mode of a vault or set
template <class B> static void container(const B& b, const Recs& recs, const std::vector<std::string>& templates, const std::string& nm, const std::vector<VaultRecordRef>& refs)
{
    std::set<std::string> ids; for (auto& r : refs) ids.insert(r.GetRecordUniqueId());
    for (bool fmt : {false, true}) for (size_t tab : {size_t(0), size_t(1), size_t(2), size_t(5)})
    {
        if (!fmt && tab != 2 && tab != 0) continue; std::string m = nm + ".ToJson(" + (fmt ? "formatted" : "compact") + "," + std::to_string(tab);
        { std::string t = b.ToJson(fmt, tab, true, "x", true); JVal j = parse(t, m + ",array) "); ok(j.k == JVal::ARR, m + ",array) is not an array"); std::vector<const JVal*> o; for (auto& x : j.a) o.push_back(&x); oneToOne(o, recs, m + ",array) ", t); }
        { std::string t = b.ToJson(fmt, tab, false, "x", false); std::string at = m + ",object,ids) "; JVal j = parse(t, at); ok(j.k == JVal::OBJ, at + "is not an object"); std::vector<const JVal*> o; std::set<std::string> names; for (auto& x : j.o) { o.push_back(&x.second); ok(names.insert(x.first).second, at + "has two records of one name"); } oneToOne(o, recs, at, t); }
        for (auto& tp : templates)
        {
            std::string t = b.ToJson(fmt, tab, true, tp, false); std::string at = m + ",object,\"" + vis(tp) + "\") "; JVal j = parse(t, at); ok(j.k == JVal::OBJ, at + "is not an object"); std::vector<const JVal*> o; size_t k = 0;
            for (auto& x : j.o) { o.push_back(&x.second); if (x.first != tp + std::to_string(k)) fail(at + "record " + std::to_string(k) + " is named \"" + vis(x.first) + "\""); ++k; } oneToOne(o, recs, at, t);
        }
    }
    // ToStrings
    auto s = b.ToStrings(); ok(s.size() == recs.size(), nm + ".ToStrings() size"); std::multiset<std::vector<std::pair<std::string, std::string>>> got(s.begin(), s.end()), want; for (auto& r : recs) { std::vector<std::pair<std::string, std::string>> x; for (auto& f : r) x.emplace_back(f.first, f.second.text); want.insert(x); } ok(got == want, nm + ".ToStrings() differs from the records");
    // default arguments
    JVal j = parse(b.ToJson(), nm + ".ToJson() "); ok(j.o.size() == recs.size(), nm + ".ToJson() number of records");
}
static void reference(const VaultRecordRef& r, const std::vector<std::pair<std::string, Fld>>& rec)
{
    for (bool fmt : {false, true}) for (size_t tab : {size_t(0), size_t(2), size_t(3)}) { std::string t = r.ToJson(fmt, tab), at = std::string("reference ToJson(") + (fmt ? "formatted," : "compact,") + std::to_string(tab) + ") "; JVal j = parse(t, at); if (!matches(j, rec)) fail(at + "does not decode to " + show(rec) + ": " + vis(t)); }
    auto s = r.ToStrings(); ok(s.size() == rec.size(), "reference ToStrings size"); for (size_t i = 0; i < s.size(); ++i) ok(s[i].first == rec[i].first && s[i].second == rec[i].second.text, "reference ToStrings differs from the record");
}
// names: key names in order; each record a list of strings, plus optionally an int and a bool key around
static void strings(const std::vector<std::string>& names, const std::vector<std::vector<std::string>>& vals, const std::vector<std::string>& templates, bool around)
{
    Vault v; if (around) ok((bool)v.AddKey("n", 0), "harness"); for (auto& n : names) ok((bool)v.AddKey(n, std::string("def")), "harness: AddKey"); if (around) ok((bool)v.AddKey("b", false), "harness");
    VaultRecordSet all, one; Recs recs; std::vector<VaultRecordRef> refs;
    for (size_t k = 0; k < vals.size(); ++k)
    {
        std::vector<std::pair<std::string, VaultParamInput>> p; std::vector<std::pair<std::string, Fld>> r; if (around) { p.emplace_back("n", VaultParamInput((int)k - 1)); r.push_back({"n", {'N', std::to_string((int)k - 1)}}); }
        for (size_t i = 0; i < names.size(); ++i) { p.emplace_back(names[i], VaultParamInput(vals[k][i])); r.push_back({names[i], {'S', vals[k][i]}}); } if (around) { p.emplace_back("b", VaultParamInput(k == 0)); r.push_back({"b", {'B', k == 0 ? "true" : "false"}}); }
        VaultRecordRef ref; ok(v.CreateRecord(ref, p).IsOperationSuccess, "harness: CreateRecord"); refs.push_back(ref); recs.push_back(r);
    }
    if (around) { v.RequestGreaterOrEqual("n", -5, all); v.RequestEqual("n", -1, one); } else { v.RequestGreaterOrEqual(names[0], std::string(), all); v.RequestLess(names[0], std::string(), one); if (!refs.empty()) one.AddRecord(refs[0]); }
    container(v, recs, templates, "vault", refs); container(all, recs, {templates[0]}, "set", refs); Recs first(recs.begin(), recs.begin() + (recs.empty() ? 0 : 1)); container(one, first, {templates[0]}, "set of one", {refs.begin(), refs.begin() + (refs.empty() ? 0 : 1)});
    for (size_t k = 0; k < refs.size(); ++k) reference(refs[k], recs[k]);
}
static const std::vector<std::string> UNITS{"a", "\"", "\\", "/", "\n", "\r", "\t", "\b", "\f", std::string(1, '\0'), "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "{", ",", "u", "0"};
static std::string nth(size_t i, size_t nu) { size_t len = 0, cnt = 1; while (i >= cnt) { i -= cnt; cnt *= nu; ++len; } std::vector<std::string> s(len); for (size_t k = len; k-- > 0;) { s[k] = UNITS[i % nu]; i /= nu; } std::string o; for (auto& x : s) o += x; return o; }
static size_t upTo(size_t a, int len) { size_t t = 0, c = 1; for (int i = 0; i <= len; ++i) { t += c; c *= a; } return t; }
template <class T> struct TagOf { using type = T; };
int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        const int len = (g_thorough ? 4 : 3) - SHRINK; const size_t nu = UNITS.size(), n = upTo(nu, len); auto sh = [](const char* w, std::string s) { return std::string(w) + " \"" + vis(s) + "\""; };
        auto done = [](unsigned long nt) { evals(g_docs, nt ? g_docs : 0); g_docs = 0; };
        e.secs.push_back({"values", n, [=](size_t i) { std::string x = nth(i, nu); g_docs = 0; strings({"k"}, {{x}}, {"Record"}, true); done(x.find_first_of("\"\\\n\r\t\b\f") != x.npos); }, [=](size_t i) { return sh("value", nth(i, nu)); }, "every string of up to " + std::to_string(len) + " units over 20 units (quotes, backslash, control characters, UTF-8 of 2-4 bytes) as a value, every mode", 20, 64});
        e.secs.push_back({"names", n, [=](size_t i) { std::string x = nth(i, nu); if (x == "z") return; g_docs = 0; strings({x, "z"}, {{"1", x}, {"", "v"}}, {x}, false); done(x.find_first_of("\"\\\n\r\t\b\f") != x.npos); }, [=](size_t i) { return sh("key name and record template", nth(i, nu)); }, "the same strings as key name, second value and record-name template", 20, 64});
        // every single byte value below 0x80 and every pair of control characters
        e.secs.push_back({"bytes", 128 * 34, [=](size_t i) { std::string x(1, (char)(i % 128)); size_t j = i / 128; if (j < 33) x += (char)j; g_docs = 0; strings({"k" + x}, {{x}, {"x" + x + "0"}}, {x}, false); done(1); }, [=](size_t i) { std::string x(1, (char)(i % 128)); size_t j = i / 128; if (j < 33) x += (char)j; return sh("bytes", x); }, "every ASCII byte alone and followed by every byte up to 0x20, as value, name and template", 20, 64});
        // keys / records counts
        e.secs.push_back({"shapes", 5 * 5 * 2, [=](size_t i)
        {
            size_t nk = i % 5, nr = i / 5 % 5; bool ar = i / 25; g_docs = 0; std::vector<std::string> names; for (size_t k = 0; k < nk; ++k) names.push_back("key" + std::to_string((k * 7 + 3) % 10)); std::vector<std::vector<std::string>> vals; for (size_t r = 0; r < nr; ++r) { vals.emplace_back(); for (size_t k = 0; k < nk; ++k) vals.back().push_back(r % 2 ? "" : "v" + std::to_string(r * nk + k)); }
            if (nk || ar) strings(names, vals, {"Record", "", "r\"", "9"}, ar);
            else { Vault v; for (size_t r = 0; r < nr; ++r) { VaultRecordRef ref; v.CreateRecord(ref, {}); reference(ref, {}); } Recs recs(nr); container(v, recs, {"R"}, "keyless vault", {}); }
            done(nr * nk);
        }, [](size_t i) { return std::to_string(i % 5) + " string keys, " + std::to_string(i / 5 % 5) + " records" + (i / 25 ? " between an int and a bool key" : ""); }, "0-4 keys x 0-4 records", 20, 1});
        // numbers
        struct NumCase { std::function<void(Vault&, std::vector<std::pair<std::string, VaultParamInput>>&)> add; char kind; std::string text; };
        auto nums = std::make_shared<std::vector<NumCase>>();
        auto num = [&](auto x, char kind, std::string text) { using T = decltype(x); nums->push_back({[x](Vault& v, std::vector<std::pair<std::string, VaultParamInput>>& p) { ok((bool)v.AddKey("N", T()), "harness"); p.emplace_back("N", VaultParamInput(x)); }, kind, text}); };
        auto ints = [&](auto z) { using T = decltype(z); std::set<T> s{T(0), T(1), T(9), T(10), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(std::numeric_limits<T>::max() - 1), T(std::numeric_limits<T>::min() + 1)}; if (sizeof(T) == 1) for (int k = 0; k < 256; ++k) s.insert(T(k)); for (int k = 0; k < 64 && k < (int)sizeof(T) * 8; ++k) { T y = T(std::uint64_t(1) << k); s.insert(y); s.insert(T(y - 1)); s.insert(T(~y)); } for (T y : s) num(y, 'N', std::to_string(y)); };
        ints(std::int8_t()); ints(std::uint8_t()); ints(std::int16_t()); ints(std::uint16_t()); ints(std::int32_t()); ints(std::uint32_t()); ints(std::int64_t()); ints(std::uint64_t());
        num(true, 'B', "true"); num(false, 'B', "false");
        for (double d : {0.0, 1.0, -1.0, 0.5, -0.25, 1e-6, -1e-6, 123456.789, 1e15, -1e15, 1e20, DBL_MAX, -DBL_MAX, DBL_MIN, 9007199254740993.0}) num(d, 'N', std::to_string(d));
        for (float d : {0.0f, 1.0f, -1.5f, 0.1f, 1e10f, FLT_MAX, FLT_MIN, -FLT_MAX}) num(d, 'N', std::to_string(d));
        for (int k = 0; k < 1000; ++k) { double m = k * 1e-6 + 1e-9; num(m, 'N', std::to_string(m)); num(-m, 'N', std::to_string(-m)); num((float)m, 'N', std::to_string((float)m)); double w = k * 1001.0; num(w, 'N', std::to_string(w)); num(w + 0.999999, 'N', std::to_string(w + 0.999999)); }
        for (double d : {(double)INFINITY, (double)-INFINITY, (double)NAN}) { num(d, 'Z', std::to_string(d)); num((float)d, 'Z', std::to_string((float)d)); }
        e.secs.push_back({"numbers", nums->size(), [=](size_t i)
        {
            auto& c = (*nums)[i]; g_docs = 0; Vault v; ok((bool)v.AddKey("S", std::string()), "harness"); std::vector<std::pair<std::string, VaultParamInput>> p; c.add(v, p); ok((bool)v.AddKey("T", true), "harness"); p.emplace_back("S", VaultParamInput(std::string("1"))); VaultRecordRef r; ok(v.CreateRecord(r, p).IsOperationSuccess, "harness"); VaultRecordSet s; v.RequestEqual("T", true, s);
            std::vector<std::pair<std::string, Fld>> rec{{"S", {'S', "1"}}, {"N", {c.kind, c.text}}, {"T", {'B', "true"}}}; container(v, {rec}, {"Record"}, "vault", {r}); container(s, {rec}, {"Record"}, "set", {r}); reference(r, rec); done(1);
        }, [=](size_t i) { return "number " + (*nums)[i].text; }, "every 8-bit value, boundaries and powers of two of the wider integers, booleans, floats and doubles ending in every three digits, infinities and NaN", 20, 16});
        // states: empty, detached, invalid, updated, key removed
        e.secs.push_back({"states", 12, [=](size_t i)
        {
            g_docs = 0; auto emptyDoc = [](const std::string& t, const std::string& at) { JVal j = parse(t, at + " "); ok(j.o.empty() && j.a.empty() && (j.k == JVal::OBJ || j.k == JVal::ARR), at + " is not an empty document: " + vis(t)); };
            auto emptyAll = [&](const auto& b, const std::string& at) { for (bool f : {false, true}) for (bool t : {false, true}) for (bool a : {false, true}) emptyDoc(b.ToJson(f, 2, t, "R", a), at); ok(b.ToStrings().empty(), at + " ToStrings"); };
            auto emptyRef = [&](const VaultRecordRef& r, const std::string& at) { for (bool f : {false, true}) emptyDoc(r.ToJson(f), at); ok(r.ToStrings().empty(), at + " ToStrings"); };
            std::unique_ptr<Vault> v(new Vault); VaultRecordSet s; VaultRecordRef r, r2; v->AddKey("A", 1); v->AddKey("B", std::string("x")); v->CreateRecord(r, {{"A", 5}}); v->CreateRecord(r2, {{"A", 6}}); v->RequestGreater("A", 0, s);
            auto rec = [](int a, std::string b) { return std::vector<std::pair<std::string, Fld>>{{"A", {'N', std::to_string(a)}}, {"B", {'S', b}}}; };
            switch (i)
            {
            case 0: emptyAll(Vault(), "a new vault"); break;
            case 1: emptyAll(VaultRecordSet(), "a detached set"); break;
            case 2: emptyRef(VaultRecordRef(), "a null reference"); break;
            case 3: v->EraseRecord(r); emptyRef(r, "a reference to an erased record"); container(*v, {rec(6, "x")}, {"R"}, "vault", {}); container(s, {rec(6, "x")}, {"R"}, "set", {}); break;
            case 4: v->DropData(); emptyAll(*v, "a vault without data"); emptyAll(s, "its set"); emptyRef(r, "a reference after DropData"); break;
            case 5: v->DropVault(); emptyAll(*v, "a dropped vault"); emptyAll(s, "a set of a dropped vault"); emptyRef(r, "a reference after DropVault"); break;
            case 6: v.reset(); emptyAll(s, "a set of a destroyed vault"); emptyRef(r, "a reference of a destroyed vault"); break;
            case 7: r.SetData("B", std::string("\"new\"")); r2.SetData("A", -1); container(*v, {rec(5, "\"new\""), rec(-1, "x")}, {"R"}, "vault", {}); container(s, {rec(5, "\"new\""), rec(-1, "x")}, {"R"}, "set", {}); reference(r, rec(5, "\"new\"")); break;
            case 8: { v->RemoveKey("A"); auto one = std::vector<std::pair<std::string, Fld>>{{"B", {'S', "x"}}}; container(*v, {one, one}, {"R"}, "vault", {}); container(s, {one, one}, {"R"}, "set", {}); reference(r, one); break; }
            case 9: { v->AddKey("A0", 2.5); auto x = rec(5, "x"), y = rec(6, "x"); x.push_back({"A0", {'N', "2.500000"}}); y.push_back({"A0", {'N', "2.500000"}}); container(*v, {x, y}, {"R"}, "vault", {}); container(s, {x, y}, {"R"}, "set", {}); reference(r, x); break; }
            case 10: { v->RemoveKey("A"); v->AddKey("A", std::string("s")); auto x = std::vector<std::pair<std::string, Fld>>{{"B", {'S', "x"}}, {"A", {'S', "s"}}}; container(*v, {x, x}, {"R"}, "vault", {}); container(s, {x, x}, {"R"}, "set", {}); reference(r, x); break; }
            case 11: { Vault c(*v), d; d = c; c.DropVault(); container(d, {rec(5, "x"), rec(6, "x")}, {"R"}, "copied vault", {}); s.RemoveRecord(r); container(s, {rec(6, "x")}, {"R"}, "set", {}); r.Reset(); emptyRef(r, "a reset reference"); break; }
            }
            done(1);
        }, [](size_t i) { return "state scenario " + std::to_string(i); }, "empty, detached, dropped, destroyed, updated and re-keyed objects", 20, 1});
    });
}
