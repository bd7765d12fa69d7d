// C23: callbacks are called exactly once per candidate with a valid, current reference and may re-enter the vault.
// Every callback-taking call x every content x every re-entrant operation inside the callback.
#include "enumx.hpp"
#include "MVault.h"
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
using namespace mvlt; using namespace mc;
using RC = VaultOperationResultCode;
struct R { int a; std::string s; };
using Contents = std::vector<std::vector<R>>;
static Contents contents(int maxN)
{
    Contents out; std::vector<R> cur; static const R kinds[] = {{0, "a"}, {1, "a"}, {1, "b"}, {2, "b"}};
    std::function<void(int)> go = [&](int from) { out.push_back(cur); if ((int)cur.size() == maxN) return; for (int k = from; k < 4; ++k) { cur.push_back(kinds[k]); go(k); cur.pop_back(); } };
    go(0); return out;
}
struct Bed
{
    Vault v; VaultRecordSet all, part; std::map<std::string, R> by; std::map<std::string, VaultRecordRef> refs; std::string err; std::vector<R> rec; std::string json;
    explicit Bed(const std::vector<R>& c) : rec(c)
    {
        v.AddKey("A", 0); v.AddKey("S", std::string());
        for (auto& r : c) { VaultRecordRef ref; v.CreateRecord(ref, {{"A", r.a}, {"S", r.s}}); by[ref.GetRecordUniqueId()] = r; refs[ref.GetRecordUniqueId()] = ref; }
        v.RequestGreaterOrEqual("A", 0, all); v.RequestGreaterOrEqual("A", 1, part); json = sortedJson(v);
    }
    template <class B> static std::string sortedJson(B& b) { auto s = b.ToStrings(); std::sort(s.begin(), s.end()); std::string o; for (auto& r : s) { for (auto& f : r) o += f.first + "=" + f.second + ","; o += ";"; } return o; }
    void bad(bool c, const std::string& m) { if (!c && err.empty()) err = m; }
    std::multiset<int> as(const std::vector<VaultRecordRef>& v) { std::multiset<int> o; for (auto& r : v) { int a = -1; r.GetData("A", a); o.insert(a); } return o; }
    std::multiset<int> want(const std::function<bool(const R&)>& f) { std::multiset<int> o; for (auto& r : rec) if (f(r)) o.insert(r.a); return o; }
    void ref(const VaultRecordRef& r, const std::string& at)
    {
        bad(r.IsValid(), at + ": invalid reference"); auto it = by.find(r.GetRecordUniqueId()); if (it == by.end()) { bad(false, at + ": unknown record"); return; }
        int a = -1; std::string s; bad(r.GetData("A", a).IsOperationSuccess && a == it->second.a && r.GetData("S", s).IsOperationSuccess && s == it->second.s, at + ": reference shows other values than the record");
        bad(r == refs[it->first], at + ": reference not equal to another reference of the record");
    }
    static constexpr int NOPS = 22;
    // one re-entrant read operation
    void op(int i, const VaultRecordRef* cur)
    {
        std::string at = "re-entrant operation " + std::to_string(i); VaultRecordSet t, t2; VaultRecordRef r; std::vector<VaultRecordRef> rs; size_t ones = want([](const R& x) { return x.a == 1; }).size();
        switch (i)
        {
        case 0: break;
        case 1: bad(v.Size() == rec.size() && all.Size() == rec.size(), at + " Size"); break;
        case 2: bad(v.GetRecord("A", 1, r).IsOperationSuccess == (ones > 0), at + " GetRecord"); if (ones) ref(r, at + " GetRecord"); break;
        case 3: v.GetRecords("A", 1, rs); bad(rs.size() == ones, at + " GetRecords"); break;
        case 4: v.RequestEqual("A", 1, t); bad(t.Size() == ones, at + " RequestEqual"); break;
        case 5: v.RequestInterval("A", 0, 1, t, false, true); bad(t.Size() == ones, at + " RequestInterval"); break;
        case 6: bad(as(v.GetSortedRecords("A", true)) == want([](const R&) { return true; }), at + " GetSortedRecords"); break;
        case 7: { size_t n = 0; v.SortBy("S", [&](const VaultRecordRef& x) { ref(x, at); ++n; return true; }); bad(n == rec.size(), at + " SortBy"); break; }
        case 8: bad(sortedJson(v) == json, at + " ToStrings"); break;
        case 9: { std::string j = v.ToJson(); bad(std::count(j.begin(), j.end(), '{') >= (long)rec.size(), at + " ToJson"); break; }
        case 10: { std::type_index ti = typeid(void); int d = 5; bad(v.IsKeyExist("A") && v.GetKeyType("S", ti) && ti == typeid(std::string) && v.GetKeyValue("A", d).IsOperationSuccess && d == 0 && v.GetKeys() == std::vector<std::string>{"A", "S"} && v.GetUniqueKeys().empty(), at + " key queries"); break; }
        case 11: if (cur) { bad(cur->GetKeys() == std::vector<std::string>{"A", "S"} && cur->ToStrings().size() == 2 && !cur->ToJson().empty(), at + " reference reads"); std::string s; bad(cur->GetDataAsString("A", s).IsOperationSuccess, at + " GetDataAsString"); } break;
        case 12: if (cur) bad(all.CheckRecord(*cur), at + " CheckRecord"); break;
        case 13: bad(as(all.GetSortedRecords("A")) == want([](const R&) { return true; }), at + " set GetSortedRecords"); break;
        case 14: all.RequestLess("A", 1, t); bad(as(t.GetSortedRecords("A")) == want([](const R& x) { return x.a < 1; }), at + " set RequestLess"); break;
        case 15: { size_t n = 0; v.RequestGreaterOrEqual("A", 0, t, -1, [&](const VaultRecordRef& x) { ref(x, at); ++n; VaultRecordSet in; v.RequestEqual("S", std::string("b"), in); bad(in.Size() == want([](const R& y) { return y.s == "b"; }).size(), at + " request inside predicate"); return true; }); bad(n == rec.size() && t.Size() == n, at + " nested predicates"); break; }
        case 16: v.Request((Greater("A", 0) && Less("A", 2)) || Equal("S", std::string("b")), t); bad(as(t.GetSortedRecords("A")) == want([](const R& x) { return x.a == 1 || x.s == "b"; }), at + " complex request"); break;
        case 17: { VaultRecordSet c(all); bad(c.Size() == rec.size() && c == all, at + " copying a set"); break; }
        case 18: v.RequestEqual("A", 1, t); Union(t, part, t2); bad(as(t2.GetSortedRecords("A")) == want([](const R& x) { return x.a >= 1; }), at + " Union"); break;
        case 19: if (cur) { VaultRecordRef c(*cur), d; d = c; VaultRecordRef e(std::move(c)); bad(d == *cur && e == *cur && !c.IsValid(), at + " copying references"); } break;
        case 20: { Vault c(v); bad(c.Size() == rec.size() && sortedJson(c) == json, at + " copying the vault"); break; }
        case 21: { std::string f = g_scratch + "/c23_" + std::to_string(getpid()) + ".csv"; bad(v.SaveToFile(f), at + " SaveToFile"); unlink(f.c_str()); bad(part.SaveToFile(f), at + " set SaveToFile"); unlink(f.c_str()); break; }
        }
    }
    // candidate bookkeeping of one outer call
    struct Calls { std::map<std::string, int> n; int total = 0; };
    void called(Calls& c, const VaultRecordRef& r, int inner, const std::string& at) { ref(r, at); if (c.n[r.GetRecordUniqueId()]++) bad(false, at + ": called twice for one record"); ++c.total; op(inner, &r); ref(r, at + " after the re-entrant operation"); }
    std::multiset<int> aset(const Calls& c) { std::multiset<int> o; for (auto& p : c.n) if (by.count(p.first)) o.insert(by[p.first].a); return o; }
};
static const int OUTER = 26;
static const char* outerName[OUTER] = {"RequestEqual", "RequestGreater", "RequestGreaterOrEqual", "RequestLess", "RequestLessOrEqual", "RequestInterval", "Request(Equal)", "Request(Less)", "Request(interval And)", "Request(And)", "Request(Or)", "SortBy", "SortBy reverse, stopped at 2", "SortBy, limit 1",
    "RequestGreaterOrEqual limit 1", "set RequestEqual", "set RequestGreaterOrEqual", "set RequestInterval", "set Request(Or)", "set SortBy", "set SortBy reverse", "AddUniqueKey(counter)", "AddUniqueKey(from record)", "AddUniqueKey(duplicates)", "ReadFile", "predicate from a moved-in std::function, rejecting"};
static void runCase(const std::vector<R>& content, int outer, int inner)
{
    Bed b(content); Bed::Calls c, c2; VaultRecordSet d; std::string at = outerName[outer]; auto& v = b.v; size_t N = content.size();
    Bed* B = &b; auto P = [&, B](const VaultRecordRef& r) { B->called(c, r, inner, at); return true; }; auto P2 = [&, B](const VaultRecordRef& r) { B->called(c2, r, inner, at); return true; };
    auto all = [](const R&) { return true; }; std::function<bool(const R&)> w = all; bool exact = true;
    switch (outer)
    {
    case 0: v.RequestEqual("A", 1, d, -1, P); w = [](const R& r) { return r.a == 1; }; break;
    case 1: v.RequestGreater("A", 0, d, -1, P); w = [](const R& r) { return r.a > 0; }; break;
    case 2: v.RequestGreaterOrEqual("A", 1, d, -1, P); w = [](const R& r) { return r.a >= 1; }; break;
    case 3: v.RequestLess("A", 2, d, -1, P); w = [](const R& r) { return r.a < 2; }; break;
    case 4: v.RequestLessOrEqual("S", std::string("a"), d, -1, P); w = [](const R& r) { return r.s <= "a"; }; break;
    case 5: v.RequestInterval("A", 0, 1, d, true, true, -1, P); w = [](const R& r) { return r.a <= 1; }; break;
    case 6: v.Request(Equal("A", 1, P), d); w = [](const R& r) { return r.a == 1; }; break;
    case 7: v.Request(Less("A", 2, P), d); w = [](const R& r) { return r.a < 2; }; break;
    case 8: v.Request(Greater("A", 0, P) && Less("A", 3, P2), d); w = [](const R& r) { return r.a > 0; }; b.bad(b.aset(c2) == b.want(w), at + ": second predicate not called once per candidate"); break;
    case 9: v.Request(Equal("A", 1, P) && Equal("S", std::string("a"), P2), d); w = [](const R& r) { return r.a == 1; }; b.bad(b.aset(c2) == b.want([](const R& r) { return r.s == "a"; }), at + ": second predicate not called once per candidate"); break;
    case 10: v.Request(Or(Equal("A", 1, P), GreaterOrEqual("A", 1, P2)), d); w = [](const R& r) { return r.a == 1; }; b.bad(b.aset(c2) == b.want([](const R& r) { return r.a >= 1; }), at + ": second predicate not called once per candidate"); break;
    case 11: v.SortBy("A", P); break;
    case 12: v.SortBy("A", [&](const VaultRecordRef& r) { b.called(c, r, inner, at); return c.total < 2; }, true); exact = false; b.bad(c.total == (int)std::min<size_t>(2, N), at + ": number of calls"); break;
    case 13: v.SortBy("S", P, false, 1); exact = false; b.bad(c.total == (int)std::min<size_t>(1, N), at + ": number of calls"); break;
    case 14: v.RequestGreaterOrEqual("A", 1, d, 1, P); exact = false; b.bad(d.Size() == std::min<size_t>(1, b.want([](const R& r) { return r.a >= 1; }).size()), at + ": result size"); for (auto& p : c.n) b.bad(b.by.count(p.first) && b.by[p.first].a >= 1, at + ": called for a record that is no candidate"); break;
    case 15: b.all.RequestEqual("A", 1, d, -1, P); w = [](const R& r) { return r.a == 1; }; break;
    case 16: b.all.RequestGreaterOrEqual("A", 1, d, -1, P); w = [](const R& r) { return r.a >= 1; }; break;
    case 17: b.part.RequestInterval("A", 0, 1, d, true, true, -1, P); w = [](const R& r) { return r.a == 1; }; break;
    case 18: b.part.Request(Or(Equal("A", 2, P2), LessOrEqual("A", 1, P)), d); w = [](const R& r) { return r.a == 1; }; break;
    case 19: b.all.SortBy("A", P); break;
    case 20: b.all.SortBy("S", P, true); break;
    case 21: case 22: case 23:
    {
        std::map<std::string, int> given; size_t expectCounter = 0; std::set<int> seen; bool dup = false;
        auto res = v.AddUniqueKey<int>("U", {[&](const std::size_t& n, const VaultRecordRef& r) -> int
        {
            b.called(c, r, inner, at); b.bad(n == expectCounter, at + ": counter is not 0,1,2,..."); ++expectCounter; int a = 0; r.GetData("A", a); std::string s; r.GetData("S", s);
            int x = outer == 21 ? (int)n : outer == 22 ? a * 10 + (s == "b") : 7; given[r.GetRecordUniqueId()] = x; if (!seen.insert(x).second) dup = true; return x;
        }});
        exact = !dup; b.bad(res.IsOperationSuccess == !dup, at + ": result " + res.ResultCodeString());
        if (!dup)
        {
            for (auto& p : b.refs) { int u = -1; b.bad(p.second.GetData("U", u).IsOperationSuccess && u == given[p.first], at + ": record does not hold the value generated for it"); VaultRecordRef f; b.bad(v.GetRecord("U", given[p.first], f).IsOperationSuccess && f == p.second, at + ": lookup by the generated value finds another record"); VaultRecordRef g; b.bad(b.all.GetRecord("U", given[p.first], g).IsOperationSuccess && g == p.second, at + ": set lookup by the generated value finds another record"); }
            if (N) b.bad(v.GetUniqueKeys() == std::vector<std::string>{"U"}, at + ": unique keys");
        }
        else { b.bad(v.GetKeys().size() == 2 && v.GetUniqueKeys().empty(), at + ": refused key left behind"); }
        break;
    }
    case 24:
    {
        std::string f = g_scratch + "/c23r_" + std::to_string(getpid()) + ".csv"; { std::ofstream o(f); o << "A,S\n5,x\n6,y\nbad,z\n7,\"\"\n"; }
        int calls = 0; std::vector<std::string> rows; size_t added = 0;
        bool ok2 = v.ReadFile(f, ',', [&](const std::vector<std::string>& k, std::vector<std::string>& x)
        {
            ++calls; b.bad(k == std::vector<std::string>{"A", "S"}, at + ": keys given to the handler"); rows.push_back(x.empty() ? "" : x[0]); b.bad(v.Size() == N + added, at + ": rows added before the handler was called"); if (inner == 1 || inner == 6 || inner == 8 || inner == 13) v.GetSortedRecords("A"); else if (inner < 6 && calls == 1) b.op(inner, nullptr); else if (calls == 1 && inner != 20) b.op(inner, nullptr);
            if (!x.empty() && x[0] == "6") x[0] = "66"; if (!x.empty() && x[0] != "bad") ++added;
        });
        unlink(f.c_str()); b.bad(ok2, at + ": returned false"); b.bad(calls == 4, at + ": handler called " + std::to_string(calls) + " times for 4 rows"); b.bad(rows == std::vector<std::string>{"5", "6", "bad", "7"}, at + ": handler rows"); b.bad(v.Size() == N + 3, at + ": number of records"); VaultRecordRef r; b.bad(v.GetRecord("A", 66, r).IsOperationSuccess && !v.GetRecord("A", 6, r).IsOperationSuccess, at + ": the handler's change was not loaded"); exact = false; break;
    }
    case 25: { std::function<bool(const VaultRecordRef&)> q = [&](const VaultRecordRef& r) { b.called(c, r, inner, at); return false; }; v.RequestGreaterOrEqual("A", 0, d, -1, std::move(q)); b.bad(d.Size() == 0, at + ": rejected records in the result"); break; }
    }
    if (exact) b.bad(b.aset(c) == b.want(w), at + ": callback not called exactly once per candidate");
    if (outer < 21) b.bad(Bed::sortedJson(v) == b.json, at + ": vault changed");
    for (auto& p : b.refs) b.bad(p.second.IsValid(), at + ": reference invalid afterwards");
    if (!b.err.empty()) fail(b.err);
    evals(1, c.total > 0);
}
int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        auto cs = std::make_shared<Contents>(contents(
#ifdef MC_SMALL
            2
#else
            g_thorough ? 6 : 4
#endif
        ));
        e.secs.push_back({"reentrancy", cs->size() * OUTER * Bed::NOPS, [cs](size_t i) { runCase((*cs)[i / (OUTER * Bed::NOPS)], i % OUTER, i / OUTER % Bed::NOPS); },
            [cs](size_t i) { std::string o = "records ["; for (auto& r : (*cs)[i / (OUTER * Bed::NOPS)]) o += "(" + std::to_string(r.a) + "," + r.s + ")"; return o + "] callback of " + outerName[i % OUTER] + " performing read operation " + std::to_string(i / OUTER % Bed::NOPS); },
            "every content of up to 4 records (thorough 6) over 4 record kinds x 26 callback-taking calls x 22 re-entrant operations", 20, 16});
    });
}
