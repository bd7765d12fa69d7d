// C26: operation results hold, compare and print exactly what they were given.
#include "enumx.hpp"
#include "MVault.h"
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
using namespace mvlt; using namespace mc; using RC = VaultOperationResultCode;
static const std::vector<RC> CODES{RC::OtherParentVaultNotValid, RC::SameVaultRecordSet, RC::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda, RC::DuplicateKey, RC::UniqueKey, RC::RecordAlredyInSet, RC::ParentVaultNotMatch, RC::ParentVaultNotValid, RC::DataRecordNotValid, RC::WrongKey, RC::WrongType, RC::Idle, RC::WrongValue, RC::UniqueKeyValueAlredyInSet, RC::Success};
static const std::vector<std::string> KEYS{"", "a", "A", "ab", "a b", std::string("a\0b", 3), std::string("a\0c", 3), std::string(40, 'k')};
static const std::vector<std::type_index> TYPES{typeid(void), typeid(int), typeid(std::string), typeid(double)};
struct Val { size_t s, c, k, q, t; bool operator==(const Val& o) const { return s == o.s && c == o.c && k == o.k && q == o.q && t == o.t; } };
static const size_t TOTAL = 2 * 15 * 8 * 4 * 4;
static Val val(size_t i) { Val v; v.s = i % 2; i /= 2; v.c = i % 15; i /= 15; v.k = i % 8; i /= 8; v.q = i % 4; v.t = i / 4; return v; }
static VaultOperationResult make(const Val& v) { VaultOperationResult r; r.IsOperationSuccess = v.s; r.ResultCode = CODES[v.c]; r.Key = KEYS[v.k]; r.RequestedType = TYPES[v.q]; r.SavedType = TYPES[v.t]; return r; }
static bool holds(const VaultOperationResult& r, const Val& v) { return r.IsOperationSuccess == bool(v.s) && r.ResultCode == CODES[v.c] && r.Key == KEYS[v.k] && r.RequestedType == TYPES[v.q] && r.SavedType == TYPES[v.t]; }
static std::string show(size_t i) { Val v = val(i); return std::string(v.s ? "success" : "failure") + ", code " + std::to_string(v.c) + ", key " + vis(KEYS[v.k]) + ", requested " + TYPES[v.q].name() + ", saved " + TYPES[v.t].name(); }
static std::string printed(const VaultOperationResult& r) { std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); r.Print(); std::cout.rdbuf(b); return o.str(); }
static std::string texts(RC c) { VaultOperationResult r; r.ResultCode = c; return r.ResultCodeString(); }
static void printOne(const VaultOperationResult& r)
{   // one line: outcome, the code's text, the key, both types
    std::string t = printed(r), text = texts(r.ResultCode); size_t p = 0; auto need = [&](const std::string& w) { size_t q = t.find(w, p); ok(q != std::string::npos, "printed " + vis(t) + " without " + vis(w)); p = q + w.size(); };
    std::string first = r.IsOperationSuccess ? "Success!" : "Failed!"; ok(t.compare(0, first.size(), first) == 0, "printed " + vis(t)); p = first.size(); need(text); need("Key: " + r.Key); need("Saved type: " + std::string(r.SavedType.name()) + " "); need("Requested type: " + std::string(r.RequestedType.name())); ok(t.substr(p) == "\n", "printed " + vis(t));
    for (RC c : CODES) if (c != r.ResultCode) ok(t.find(texts(c)) == std::string::npos, "printed the text of another code: " + vis(t));
}
// ---- results of real calls ----
struct W { Vault v, other; VaultRecordRef r, gone, x; VaultRecordSet s, t, os, dead; std::vector<VaultRecordRef> xs; };
struct Call { std::string name; std::function<VaultOperationResult(W&)> f; RC code; std::string key; std::type_index req, saved; };
static std::vector<Call> calls()
{
    std::type_index V = typeid(void), I = typeid(int), D = typeid(double), S = typeid(std::string); const std::string q("q");
    return {
        {"CreateRecord", [](W& w) { return w.v.CreateRecord({{"Num", 1}, {"Uni", 7}}); }, RC::Success, "", V, V},
        {"CreateRecord(unknown key)", [](W& w) { return w.v.CreateRecord({{"No", 1}}); }, RC::WrongKey, "No", I, V},
        {"CreateRecord(wrong type)", [](W& w) { return w.v.CreateRecord({{"Num", 2.5}}); }, RC::WrongType, "Num", D, I},
        {"CreateRecord(used unique value)", [](W& w) { return w.v.CreateRecord({{"Uni", 1}}); }, RC::UniqueKeyValueAlredyInSet, "Uni", I, V},
        {"GetRecord", [](W& w) { return w.v.GetRecord("Num", 1, w.x); }, RC::Success, "Num", I, I},
        {"GetRecord(unknown key)", [](W& w) { return w.v.GetRecord("No", 1, w.x); }, RC::WrongKey, "No", I, V},
        {"GetRecord(wrong type)", [q](W& w) { return w.v.GetRecord("Num", q, w.x); }, RC::WrongType, "Num", S, I},
        {"GetRecord(no such value)", [](W& w) { return w.v.GetRecord("Num", 99, w.x); }, RC::WrongValue, "Num", I, I},
        {"RequestEqual", [](W& w) { return w.v.RequestEqual("Num", 1, w.t); }, RC::Success, "Num", I, I},
        {"RequestEqual(wrong type)", [](W& w) { return w.v.RequestEqual("Str", 2.5, w.t); }, RC::WrongType, "Str", D, S},
        {"RequestEqual(itself)", [](W& w) { return w.s.RequestEqual("Num", 1, w.s); }, RC::SameVaultRecordSet, "Num", I, V},
        {"AddUniqueKey(existing)", [](W& w) { return w.v.AddUniqueKey<int>("Num"); }, RC::DuplicateKey, "Num", I, V},
        {"AddUniqueKey(records, no function)", [](W& w) { return w.v.AddUniqueKey<int>("New"); }, RC::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda, "New", I, V},
        {"UpdateKey(unique)", [](W& w) { return w.v.UpdateKey("Uni", 3); }, RC::UniqueKey, "Uni", I, I},
        {"SetData(invalid reference)", [](W& w) { return w.gone.SetData("Num", 1); }, RC::DataRecordNotValid, "Num", I, V},
        {"SetData", [](W& w) { return w.r.SetData("Num", 4); }, RC::Success, "Num", I, I},
        {"SetData(used unique value)", [](W& w) { return w.r.SetData("Uni", 2); }, RC::UniqueKeyValueAlredyInSet, "Uni", I, I},
        {"GetData(wrong type)", [](W& w) { double d; return w.r.GetData("Num", d); }, RC::WrongType, "Num", D, I},
        {"AddRecord(already there)", [](W& w) { return w.s.AddRecord(w.r); }, RC::RecordAlredyInSet, "", V, V},
        {"AddRecord(of another vault)", [](W& w) { return w.os.AddRecord(w.r); }, RC::ParentVaultNotMatch, "", V, V},
        {"Join(of another vault)", [](W& w) { return w.s.Join(w.os); }, RC::ParentVaultNotMatch, "", V, V},
        {"Join(detached)", [](W& w) { return w.s.Join(w.dead); }, RC::OtherParentVaultNotValid, "", V, V},
        {"Join(itself)", [](W& w) { return w.s.Join(w.s); }, RC::SameVaultRecordSet, "", V, V},
        {"detached.GetRecord", [](W& w) { return w.dead.GetRecord("Num", 1, w.x); }, RC::ParentVaultNotValid, "Num", I, V},
        {"EraseRecord", [](W& w) { return w.v.EraseRecord("Num", 2); }, RC::Success, "Num", I, I},
        {"EraseRecord(no such value)", [](W& w) { return w.v.EraseRecord("Num", 99); }, RC::WrongValue, "Num", I, I},
    };
}
static void setup(W& w)
{
    for (Vault* v : {&w.v, &w.other}) { v->AddKey("Num", 5); v->AddKey("Str", std::string("s")); v->AddUniqueKey<int>("Uni"); }
    w.v.CreateRecord(w.r, {{"Num", 1}, {"Uni", 1}}); w.v.CreateRecord({{"Num", 2}, {"Uni", 2}}); w.v.CreateRecord(w.gone, {{"Num", 3}, {"Uni", 3}}); w.v.EraseRecord(w.gone); w.v.RequestGreater("Num", 0, w.s); w.other.CreateRecord({{"Num", 1}, {"Uni", 1}}); w.other.RequestGreater("Num", 0, w.os);
}
int main(int argc, char** argv)
{
    Enumerator e; SetBackTraceFormat(BackTraceFormat::None);
    return e.run(argc, argv, [](Enumerator& e)
    {
        auto cs = std::make_shared<std::vector<Call>>(calls()); auto all = std::make_shared<std::vector<VaultOperationResult>>(); for (size_t i = 0; i < TOTAL; ++i) all->push_back(make(val(i)));
        e.secs.push_back({"codes", 1, [](size_t) { VaultOperationResult d; ok(d.IsOperationSuccess && d.ResultCode == RC::Idle && d.Key.empty() && d.RequestedType == typeid(void) && d.SavedType == typeid(void), "a new result"); std::set<std::string> seen; for (RC c : CODES) { std::string t = texts(c); ok(!t.empty() && t.find('\n') == std::string::npos && seen.insert(t).second, "text of code " + std::to_string((int)c) + ": " + vis(t)); evals(1, 1); } }, [](size_t) { return std::string("all codes"); }, "the text of every code, and a new result", 20, 1});
        e.secs.push_back({"results", TOTAL, [all](size_t i)
        {
            Val v = val(i); const VaultOperationResult& r = (*all)[i]; ok(holds(r, v), "holds something else");
            for (size_t j = 0; j < TOTAL; ++j) if ((r == (*all)[j]) != (i == j)) fail(std::string(i == j ? "is not equal to itself" : "is equal to ") + show(j));
            VaultOperationResult c(r), m(std::move(c)), a, b; a = r; b = std::move(a); ok(holds(m, v) && holds(b, v) && m == r && b == r, "copies and moves");
            for (RC x : CODES) { VaultOperationResult n(r); std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); n.SetOpResult(x); std::cout.rdbuf(old); Val e = v; for (size_t k = 0; k < CODES.size(); ++k) if (CODES[k] == x) e.c = k; ok(holds(n, e), "SetOpResult changed more than the code"); ok(o.str().empty(), "SetOpResult printed " + vis(o.str())); }
            printOne(r); evals(TOTAL, TOTAL - 1);
        }, show, "every code x outcome x 8 keys x 4x4 types: held, copied, moved, printed and compared with every other", 20, 16});
        size_t n = cs->size();
        e.secs.push_back({"calls", n * n, [cs, n](size_t i)
        {   // the second call's result, whatever came before it in the same result object
            const Call& a = (*cs)[i / n]; const Call& b = (*cs)[i % n]; auto once = [](const Call& c) { W w; setup(w); return c.f(w); };
            VaultOperationResult ra = once(a), r = ra; r = once(b); auto is = [](const VaultOperationResult& x, const VaultOperationResult& y) { return x.IsOperationSuccess == y.IsOperationSuccess && x.ResultCode == y.ResultCode && x.Key == y.Key && x.RequestedType == y.RequestedType && x.SavedType == y.SavedType; };
            auto good = [](const Call& c, const VaultOperationResult& x)
            {   // key and types are checked where the code is about them
                ok(x.ResultCode == c.code && x.IsOperationSuccess == (c.code == RC::Success), c.name + " returned " + printed(x)); if (c.code == RC::WrongKey || c.code == RC::WrongType || c.code == RC::WrongValue) ok(x.Key == c.key && x.RequestedType == c.req && x.SavedType == c.saved, c.name + " returned " + printed(x));
            };
            good(a, ra); good(b, r); ok((ra == r) == is(ra, r), "results of " + a.name + " and " + b.name + " compare wrongly"); ok(once(a) == ra && once(b) == r, "results of equal calls differ"); printOne(ra); printOne(r); evals(1, 1);
        }, [cs, n](size_t i) { return (*cs)[i / n].name + " and " + (*cs)[i % n].name; }, "results of every pair of " + std::to_string(n) + " calls: exact fields, comparison and text", 20, 16});
    });
}
