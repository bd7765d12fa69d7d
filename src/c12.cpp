// C12: save -> load reproduces the records; the written text is also read by an independent RFC 4180 reader.
#include "enumx.hpp"
#include "csvref.hpp"
#include "MVault.h"
#include <cfloat>
#include <climits>
#include <cmath>
#include <fstream>
#include <memory>
#include <sstream>
using namespace mvlt; using namespace mc;
#ifdef MC_SMALL
constexpr int SHRINK = 1;
#else
constexpr int SHRINK = 0;
#endif
static std::string fname() { return g_scratch + "/c12_" + std::to_string(getpid()) + ".csv"; }
static std::string slurp(const std::string& f) { std::string o; int d = open(f.c_str(), O_RDONLY); char b[65536]; ssize_t n; while ((n = read(d, b, sizeof b)) > 0) o.append(b, n); close(d); return o; }
static std::string nth(const std::string& al, size_t i) { size_t len = 0, cnt = 1; while (i >= cnt) { i -= cnt; cnt *= al.size(); ++len; } std::string s(len, 0); for (size_t k = len; k-- > 0;) { s[k] = al[i % al.size()]; i /= al.size(); } return s; }
static size_t upTo(size_t a, int len) { size_t t = 0, c = 1; for (int i = 0; i <= len; ++i) { t += c; c *= a; } return t; }

// One typed cell, known by its type tag and the exact text it must have
enum T { INT, STR, BOOL, DBL, FLT, I8, U8, I16, U16, U32, I64, U64, NT };
struct Cell { T t; std::string text; };
using Rec = std::vector<Cell>;
struct KeyDef { std::string name; T t; std::string def; bool uniq; };
template <class X> static X conv(const std::string& s) { X x{}; std::istringstream(s) >> x; return x; }
template <class F> static void withT(T t, const std::string& s, F f)
{
    switch (t)
    {
    case STR: f(s); break;
    case BOOL: f(s == "true"); break;
    case DBL: f(strtod(s.c_str(), nullptr)); break;
    case FLT: f(strtof(s.c_str(), nullptr)); break;
    case INT: f((std::int32_t)strtol(s.c_str(), nullptr, 10)); break;
    case I8: f((std::int8_t)strtol(s.c_str(), nullptr, 10)); break;
    case U8: f((std::uint8_t)strtol(s.c_str(), nullptr, 10)); break;
    case I16: f((std::int16_t)strtol(s.c_str(), nullptr, 10)); break;
    case U16: f((std::uint16_t)strtol(s.c_str(), nullptr, 10)); break;
    case U32: f((std::uint32_t)strtoul(s.c_str(), nullptr, 10)); break;
    case I64: f((std::int64_t)strtoll(s.c_str(), nullptr, 10)); break;
    case U64: f((std::uint64_t)strtoull(s.c_str(), nullptr, 10)); break;
    default: break;
    }
}
static void addKeys(Vault& v, const std::vector<KeyDef>& ks)
{
    for (auto& k : ks) withT(k.t, k.def, [&](auto x) { bool s = k.uniq ? v.AddUniqueKey<decltype(x)>(k.name).IsOperationSuccess : (bool)v.AddKey(k.name, x); ok(s, "harness: AddKey"); });
}
static VaultRecordRef add(Vault& v, const std::vector<KeyDef>& ks, const Rec& r)
{
    std::vector<std::pair<std::string, VaultParamInput>> p; for (size_t i = 0; i < ks.size(); ++i) withT(r[i].t, r[i].text, [&](auto x) { p.emplace_back(ks[i].name, VaultParamInput(x)); });
    VaultRecordRef ref; VaultOperationResult res = v.CreateRecord(ref, p); ok(res.IsOperationSuccess, "harness: CreateRecord " + res.ResultCodeString()); return ref;
}
// Values through the typed interface, as text
static std::string typed(const VaultRecordRef& r, const KeyDef& k)
{
    std::string o = "?"; withT(k.t, k.def, [&](auto x) { if (r.GetData(k.name, x).IsOperationSuccess) { std::ostringstream ss; if constexpr (std::is_same_v<decltype(x), std::string>) o = "s" + x; else { if constexpr (sizeof(x) == 1) ss << (int)x; else { ss.precision(17); ss << x; } o = ss.str(); } } });
    return o;
}
using Multi = std::multiset<std::vector<std::string>>;
static Multi rowsOf(const Vault& v, const std::vector<KeyDef>& ks)
{
    Multi m; size_t n = 0; if (ks.empty()) return m; for (auto& r : v.GetSortedRecords(ks[0].name)) { std::vector<std::string> row; for (auto& k : ks) row.push_back(typed(r, k)); m.insert(row); ++n; } ok(n == v.Size(), "size and traversal differ"); return m;
}
static std::string show(const Multi& m) { std::string o; for (auto& r : m) { o += "("; for (auto& f : r) o += vis(f) + "|"; o += ")"; } return o.substr(0, 500); }
// saves v (or a set of it) and loads into a fresh vault; want: expected contents
struct Opt { char sep = ','; bool header = true; std::vector<std::string> keys; bool set = false; };
static void trip(const std::vector<KeyDef>& ks, const std::vector<Rec>& recs, const Opt& o, const std::vector<bool>& inSet = {})
{
    Vault v; addKeys(v, ks); VaultRecordSet s; if (o.set && !ks.empty()) { withT(ks[0].t, ks[0].def, [&](auto x) { v.RequestEqual(ks[0].name, x, s); }); }
    std::vector<Rec> chosen; for (size_t i = 0; i < recs.size(); ++i) { auto r = add(v, ks, recs[i]); if (o.set) { if (inSet[i]) { ok(s.AddRecord(r).IsOperationSuccess, "harness: AddRecord"); chosen.push_back(recs[i]); } } else chosen.push_back(recs[i]); }
    std::vector<std::string> sk = o.keys; if (sk.empty()) for (auto& k : ks) sk.push_back(k.name);
    Multi before = rowsOf(v, ks);
    ok(o.set ? s.SaveToFile(fname(), o.keys, std::string(1, o.sep), o.header) : v.SaveToFile(fname(), o.keys, std::string(1, o.sep), o.header), "SaveToFile failed");
    ok(rowsOf(v, ks) == before, "saving changed the vault");
    // independent reader
    std::string text = slurp(fname()); Rows rows; if (!csvRef(text, o.sep, rows)) fail("the written file is not well-formed CSV: \"" + vis(text) + "\"");
    std::multiset<std::vector<std::string>> want, got; size_t from = 0;
    if (o.header) { ok(!rows.empty() && rows[0] == sk, "header line is not the saved keys: \"" + vis(text) + "\""); from = 1; }
    for (size_t i = from; i < rows.size(); ++i) got.insert(rows[i]);
    for (auto& r : chosen) { std::vector<std::string> row; for (auto& k : sk) for (size_t i = 0; i < ks.size(); ++i) if (ks[i].name == k) row.push_back(r[i].text); want.insert(row); }
    if (got != want) fail("the written file denotes " + show(got) + " want " + show(want) + ": \"" + vis(text) + "\"");
    // the library's own reader
    Vault l; addKeys(l, ks); ok(l.ReadFile(fname(), o.sep, o.header, o.header ? std::vector<std::string>{} : o.keys), "ReadFile failed");
    if (!l.GetErrorsInLastReadedFile().empty()) fail("loading reports an error at line " + std::to_string(l.GetErrorsInLastReadedFile()[0].first) + ": \"" + vis(text) + "\"");
    Vault w; addKeys(w, ks); for (auto r : chosen) { for (size_t i = 0; i < ks.size(); ++i) if (std::find(sk.begin(), sk.end(), ks[i].name) == sk.end()) r[i] = Cell{ks[i].t, ks[i].uniq ? "" : ks[i].def}; add(w, ks, r); }
    Multi a = rowsOf(l, ks), b = rowsOf(w, ks); if (a != b) fail("loaded " + show(a) + " want " + show(b) + " from \"" + vis(text) + "\"");
    unlink(fname().c_str());
}
static Cell S(const std::string& s) { return {STR, s}; }
static std::string sepName(char c) { return vis(std::string(1, c)); }
int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        static const std::string seps(",;\t |:a1-.t\0\xff\x01", 14);
        const int TL = g_thorough ? 1 : 0;
        // 1. one string field alone / first / last / middle
        {
            const std::string al = "a,;\"\r\n \t"; const int len = 4 + TL - SHRINK * 2; size_t n = upTo(al.size(), len); size_t ns = SHRINK ? 2 : 4;
            e.secs.push_back({"string", n * ns, [=](size_t i)
            {
                std::string x = nth(al, i / ns); Opt o; o.sep = seps[i % ns]; std::vector<KeyDef> one{{"S", STR, "d", false}}, two{{"I", INT, "7", false}, {"S", STR, "d", false}}, rev{{"S", STR, "d", false}, {"T", STR, "e", false}};
                for (bool h : {true, false}) { o.header = h; trip(one, {{S(x)}}, o); trip(one, {{S(x)}, {S("")}}, o); trip(two, {{{INT, "-3"}, S(x)}}, o); trip(rev, {{S(x), S("")}, {S(""), S(x)}}, o); }
                evals(8, x.find_first_of(std::string(",\"\r\n") + o.sep) != x.npos ? 8 : 0);
            }, [=](size_t i) { return "string \"" + vis(nth(al, i / ns)) + "\" separator '" + sepName(seps[i % ns]) + "'"; }, "every string of up to " + std::to_string(len) + " characters over \"" + vis(al) + "\" in every field position, with/without header", 30, 64});
        }
        // 2. every separator
        {
            const std::string al = std::string("x,\"\n0", 5); const int len = 3 + TL - SHRINK; size_t n = upTo(al.size() + 1, len);
            e.secs.push_back({"separators", n * seps.size(), [=](size_t i)
            {
                char sp = seps[i % seps.size()]; std::string x = nth(al + sp, i / seps.size()); Opt o; o.sep = sp; std::vector<KeyDef> ks{{"S", STR, "d", false}, {"I", INT, "7", false}, {"B", BOOL, "true", false}, {"D", DBL, "1.5", false}};
                for (bool h : {true, false}) { o.header = h; trip(ks, {{S(x), {INT, "-110"}, {BOOL, "true"}, {DBL, "-1.100000"}}, {S(x + sp), {INT, "1"}, {BOOL, "false"}, {DBL, "0.000001"}}}, o); }
                evals(2, 2);
            }, [=](size_t i) { return "string \"" + vis(nth(al + seps[i % seps.size()], i / seps.size())) + "\" separator '" + sepName(seps[i % seps.size()]) + "'"; }, "14 separators including control characters, digits and letters occurring in numbers and booleans x every short string containing them", 30, 64});
        }
        // 3. pairs of fields / of records
        {
            const std::string al = ",\"\n\ra"; const int len = 2; size_t n = upTo(al.size(), len);
            e.secs.push_back({"pairs", n * n, [=](size_t i)
            {
                std::string x = nth(al, i / n), y = nth(al, i % n); Opt o; std::vector<KeyDef> ks{{"S", STR, "d", false}, {"T", STR, "e", false}}, one{{"S", STR, "d", false}};
                for (bool h : {true, false}) { o.header = h; trip(ks, {{S(x), S(y)}}, o); trip(ks, {{S(x), S(y)}, {S(y), S(x)}, {S(x), S(y)}}, o); trip(one, {{S(x)}, {S(y)}}, o); }
                evals(6, 6);
            }, [=](size_t i) { return "fields \"" + vis(nth(al, i / n)) + "\" and \"" + vis(nth(al, i % n)) + "\""; }, "every pair of strings of up to 2 characters as two fields, two records", 30, 64});
        }
        // 4. key names
        {
            const std::string al = ",;\"\r\nk "; const int len = 3 + TL - SHRINK; size_t n = upTo(al.size(), len);
            e.secs.push_back({"names", n * 2, [=](size_t i)
            {
                std::string x = nth(al, i / 2); Opt o; o.sep = ",;"[i % 2]; if (x.empty()) return; std::vector<KeyDef> one{{x, STR, "d", false}}, two{{"I", INT, "7", false}, {x, STR, "d", false}};
                trip(one, {{S("v")}, {S("")}}, o); trip(two, {{{INT, "1"}, S("v")}}, o); o.keys = {x}; trip(two, {{{INT, "1"}, S("v,")}}, o); evals(3, 3);
            }, [=](size_t i) { return "key name \"" + vis(nth(al, i / 2)) + "\" separator '" + sepName(",;"[i % 2]) + "'"; }, "every key name of 1-3 special characters", 30, 64});
        }
        // 5. typed values at their boundaries
        {
            auto vals = std::make_shared<std::vector<Cell>>();
            auto ints = [&](T t, std::int64_t lo, std::uint64_t hi) { std::set<std::string> s; for (std::int64_t d : {0, 1, 2, 9, 10, 99, 100}) { if ((std::uint64_t)d <= hi) { s.insert(std::to_string(d)); s.insert(std::to_string(hi - d)); } if (lo < 0) { s.insert(std::to_string(lo + d)); if (-d >= lo) s.insert(std::to_string(-d)); } } for (std::uint64_t p = 1; p && p <= hi; p *= 2) { s.insert(std::to_string(p)); s.insert(std::to_string(p - 1)); if (lo < 0) s.insert("-" + std::to_string(p)); if (p > hi / 2) break; } s.erase("-0"); for (auto& x : s) vals->push_back({t, x}); };
            ints(INT, INT_MIN, INT_MAX); ints(I8, -128, 127); ints(U8, 0, 255); ints(I16, -32768, 32767); ints(U16, 0, 65535); ints(U32, 0, UINT_MAX); ints(I64, INT64_MIN, INT64_MAX); ints(U64, 0, UINT64_MAX);
            vals->push_back({BOOL, "true"}); vals->push_back({BOOL, "false"});
            for (const char* d : {"0.000000", "-0.500000", "0.000001", "-0.000001", "0.250000", "123456.789000", "-999999.999999", "100000000000000.000000", "4503599627370496.000000", "-9007199254740992.000000", "0.100000", "0.300000"}) vals->push_back({DBL, d});
            for (const char* d : {"0.000000", "0.500000", "-0.250000", "1024.000000", "-16777216.000000", "0.125000", "340282346638528859811704183484516925440.000000"}) vals->push_back({FLT, d});
            e.secs.push_back({"values", vals->size(), [=](size_t i)
            {
                Cell c = (*vals)[i]; for (char sp : std::string(",;-1t.")) for (bool h : {true, false}) for (bool u : {false, true}) { Opt o; o.sep = sp; o.header = h; std::vector<KeyDef> a{{"K", c.t, "0", u}}, b{{"K", c.t, "0", u}, {"S", STR, "d", false}}; trip(a, {{c}}, o); trip(b, {{c, S("")}}, o); }
                evals(48, 48);
            }, [=](size_t i) { return "value " + (*vals)[i].text + " of type " + std::to_string((*vals)[i].t); }, "boundary and power-of-two values of 10 number types and both booleans as plain and unique keys", 30, 4});
        }
        // 6. key subsets and orders x contents x vault/set x header
        {
            static const std::vector<KeyDef> ks{{"I", INT, "7", false}, {"S", STR, "d", false}, {"U", U16, "0", true}, {"B", BOOL, "true", false}};
            auto lists = std::make_shared<std::vector<std::vector<std::string>>>(); std::function<void(std::vector<std::string>)> go = [&](std::vector<std::string> c) { lists->push_back(c); for (auto& k : ks) if (std::find(c.begin(), c.end(), k.name) == c.end()) { auto d = c; d.push_back(k.name); go(d); } }; go({});
            static const std::vector<Rec> pool{{{INT, "1"}, S("x"), {U16, "0"}, {BOOL, "true"}}, {{INT, "-5"}, S("a,b"), {U16, "3"}, {BOOL, "false"}}, {{INT, "1"}, S(""), {U16, "9"}, {BOOL, "false"}}};
            size_t nc = 15;   // which records exist (non-empty) and, for sets, which of them are members: 3^3 states reduced below
            (void)nc;
            e.secs.push_back({"keys", lists->size() * 27 * 4, [=](size_t i)
            {
                auto& l = (*lists)[i / 108]; size_t st = i / 4 % 27; Opt o; o.header = i & 1; o.keys = l; o.set = i & 2; std::vector<Rec> recs; std::vector<bool> in;
                for (int k = 0; k < 3; ++k, st /= 3) if (st % 3) { recs.push_back(pool[k]); in.push_back(st % 3 == 2); }
                bool savesU = l.empty() || std::find(l.begin(), l.end(), "U") != l.end(); size_t saved = o.set ? std::count(in.begin(), in.end(), true) : recs.size();
                if (!o.set && std::count(in.begin(), in.end(), true)) return;   // same case as without membership
                if (!savesU && saved > 1) return;   // the default of a unique key can be taken once
                trip(ks, recs, o, in); evals(1, saved > 0);
            }, [=](size_t i) { std::string s; for (auto& k : (*lists)[i / 108]) s += k; return "keys [" + s + "] contents " + std::to_string(i / 4 % 27) + (i & 2 ? " set" : " vault") + (i & 1 ? " header" : " no header"); }, "every ordered subset of 4 keys of different types x every sub-multiset of 3 records and of set members x header x vault/set", 30, 64});
        }
        // 7. files beyond the large-file threshold
        e.secs.push_back({"large", SHRINK ? 0 : 2, [=](size_t i)
        {
            std::vector<KeyDef> ks{{"I", INT, "7", false}, {"S", STR, "d", false}}; std::vector<Rec> recs; size_t bytes = 0; for (int k = 0; bytes < 10700000; ++k) { std::string x(1500 + k * 37 % 5000, 'q'); for (size_t p = k % 7; p < x.size(); p += 3 + k % 11) x[p] = ",\"\r\n;a"[(p + k) % 6]; bytes += x.size(); recs.push_back({{INT, std::to_string(k)}, S(x)}); }
            Opt o; o.header = i; trip(ks, recs, o); evals(1, 1);
        }, [=](size_t i) { return "10.7 MB of quoted text, header " + std::to_string(i); }, "two files larger than 10 MiB full of quotes, separators and line breaks", 120, 1});
    });
}
