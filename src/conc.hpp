// The concurrent world of C19/C20: one vault, two shared record sets, and per thread its own references and its own set.
#pragma once
#include "enumx.hpp"
#include "schedx.hpp"
#include "MVault.h"
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
namespace mc
{
    using namespace mvlt;
    using RC = VaultOperationResultCode;
    constexpr int CT = 3;
    using Rows = std::vector<std::vector<std::pair<std::string, std::string>>>;
    struct CW
    {
        Vault v; VaultRecordSet s1, s2, own[CT]; VaultRecordRef r[CT][3]; VaultRecordRef shared;
        // A second vault with a shared set and, per thread, a set attached to it
        struct Second { Vault v; VaultRecordSet s, s2, x[CT]; VaultRecordRef r[CT]; }; std::unique_ptr<Second> b;
        void second(int threads)
        {
            b.reset(new Second); b->v.AddKey("A", 0); b->v.AddKey("T", std::string("t")); VaultRecordRef q; b->v.CreateRecord(q, {{"A", 0}}); b->v.CreateRecord({{"A", 1}});
            b->v.RequestEqual("A", 0, b->s); b->v.RequestEqual("A", 1, b->s2); for (int t = 0; t < threads; ++t) { b->v.RequestEqual("A", 1, b->x[t]); b->r[t] = q; }
        }
        // No reference holds a record: an erased record is freed at once
        void release() { for (auto& t : r) for (auto& x : t) x.Reset(); shared.Reset(); }
        explicit CW(int threads)
        {
            v.AddKey("A", 0); v.AddKey("S", std::string("z")); v.AddUniqueKey<int>("U");
            VaultRecordRef q; v.CreateRecord(q, {{"A", 0}, {"S", std::string("a")}, {"U", 0}}); for (int t = 0; t < threads; ++t) r[t][0] = q; shared = q;
            v.CreateRecord(q, {{"A", 0}, {"S", std::string("b")}, {"U", 1}}); for (int t = 0; t < threads; ++t) r[t][1] = q;
            v.CreateRecord(q, {{"A", 1}, {"S", std::string("a")}, {"U", 2}}); for (int t = 0; t < threads; ++t) r[t][2] = q;
            v.RequestLess("U", 2, s1); v.RequestGreater("U", 0, s2); for (int t = 0; t < threads; ++t) v.RequestEqual("U", 2, own[t]);
        }
    };
    inline std::string rows(Rows v) { sx::Rt r; std::vector<std::string> l; for (auto& x : v) { std::string s; for (auto& f : x) s += f.first + "=" + f.second + ","; l.push_back(s); } std::sort(l.begin(), l.end()); std::string o; for (auto& x : l) o += x + ";"; return o; }
    inline std::string row(const std::vector<std::pair<std::string, std::string>>& x) { std::string s; for (auto& f : x) s += f.first + "=" + f.second + ","; return s; }
    inline std::string list(const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += x + ","; return o; }
    // record objects of a JSON document in canonical order
    inline std::string jsonParts(const std::string& j) { sx::Rt r; std::vector<std::string> l; size_t p = 1; while ((p = j.find('{', p)) != std::string::npos) { size_t e = j.find('}', p); l.push_back(j.substr(p, e == std::string::npos ? e : e - p)); ++p; } std::sort(l.begin(), l.end()); std::string o = std::to_string(j.size()) + ":"; for (auto& x : l) o += x + ";"; return o; }
    inline std::string fileLines(const std::string& f) { sx::Rt r; std::ifstream in(f); std::vector<std::string> l; std::string s; while (std::getline(in, s)) l.push_back(s); std::sort(l.begin(), l.end()); std::string o; for (auto& x : l) o += x + ";"; in.close(); unlink(f.c_str()); return o; }
    inline std::string code(const VaultOperationResult& r) { return std::to_string((int)r.IsOperationSuccess) + "/" + std::to_string((int)r.ResultCode); }
    template <class B> std::string counts(const B& b)
    {
        std::string o = std::to_string(b.Size()) + " ";
        auto n = [&](const char* k, auto val) { std::vector<VaultRecordRef> v; auto c = b.GetRecords(k, val, v); o += v.empty() ? "-" : std::to_string(v.size()); (void)c; };
        for (int a : {0, 1, 2, 5, 7, 9}) n("A", a);
        o += " "; for (int u : {0, 1, 2, 5, 6}) n("U", u);
        o += " "; for (const char* s : {"a", "b", "c", "z"}) n("S", std::string(s));
        o += " "; for (const char* k : {"A", "S", "U"}) { auto l = b.GetSortedRecords(k); o += k; for (auto& x : l) { std::string s; x.GetDataAsString(k, s); o += s + "."; } }
        return o;
    }
    template <class B> std::string dumpBox(const B& b) { return rows(b.ToStrings()) + counts(b); }
    inline std::string dumpKeys(const Vault& v)
    {
        std::string o = list(v.GetKeys()) + "u:" + list(v.GetUniqueKeys()); int d = -9; std::string s = "?"; v.GetKeyValue("A", d); v.GetKeyValue("S", s); o += std::to_string(d) + s; d = -9; v.GetKeyValue("B", d); return o + std::to_string(d) + " ";
    }
    inline std::string dump(CW& w, int threads)
    {
        std::string o = "keys " + dumpKeys(w.v) + "| vault " + dumpBox(w.v) + " | s1 " + dumpBox(w.s1) + " | s2 " + dumpBox(w.s2);
        for (int t = 0; t < threads; ++t) { o += " | own" + std::to_string(t + 1) + " " + dumpBox(w.own[t]); for (auto& r : w.r[t]) { o += " ["; o += r.IsValid() ? row(r.ToStrings()) : "invalid"; o += "]"; } }
        return o;
    }
    struct COp { const char* name; bool heavy, reads, cross; std::function<std::string(CW&, int)> f; };
    inline std::string path(int t) { return g_scratch + "/c" + std::to_string(getpid()) + "_" + std::to_string(t); }
    inline const std::vector<COp>& cops()
    {
        static const std::vector<COp>* ops = [] {
            auto* p = new std::vector<COp>; auto A = [&](const char* n, std::function<std::string(CW&, int)> f) { p->push_back({n, false, false, false, f}); }; auto H = [&](const char* n, std::function<std::string(CW&, int)> f) { p->push_back({n, true, false, false, f}); }; auto X = [&](const char* n, std::function<std::string(CW&, int)> f) { p->push_back({n, false, false, true, f}); };
            #define OPF [](CW& w, int t) -> std::string { (void)w; (void)t;
            // writes to the vault
            A("CreateRecord(U=5,A=0)", OPF return code(w.v.CreateRecord({{"A", 0}, {"S", std::string("a")}, {"U", 5}})); });
            A("CreateRecord(U=5,A=2)", OPF return code(w.v.CreateRecord({{"A", 2}, {"S", std::string("b")}, {"U", 5}})); });
            A("CreateRecord(ref,U=6)", OPF return code(w.v.CreateRecord(w.r[t][0], {{"U", 6}})); });
            A("CreateRecord(U=1)", OPF return code(w.v.CreateRecord({{"A", 7}, {"U", 1}})); });
            A("r0.SetData(A,5)", OPF return code(w.r[t][0].SetData("A", 5)); });
            A("r0.SetData(A,1)", OPF return code(w.r[t][0].SetData("A", 1)); });
            A("r0.SetData(U,5)", OPF return code(w.r[t][0].SetData("U", 5)); });
            A("r1.SetData(U,5)", OPF return code(w.r[t][1].SetData("U", 5)); });
            A("r0.SetData({U=6,A=7})", OPF return code(w.r[t][0].SetData({{"U", 6}, {"A", 7}})); });
            A("r1.SetData({S=c,A=5})", OPF return code(w.r[t][1].SetData({{"S", std::string("c")}, {"A", 5}})); });
            A("EraseRecord(U,1)", OPF return code(w.v.EraseRecord("U", 1)); });
            A("EraseRecord(U,5)", OPF return code(w.v.EraseRecord("U", 5)); });
            A("EraseRecord(r0)", OPF return std::to_string(w.v.EraseRecord(w.r[t][0])); });
            A("EraseRecords(A,0)", OPF return code(w.v.EraseRecords("A", 0)); });
            A("DropData()", OPF w.v.DropData(); return ""; });
            A("AddKey(B,7)", OPF return std::to_string(w.v.AddKey("B", 7)); });
            A("AddUniqueKey(W)", OPF return code(w.v.AddUniqueKey<int>("W", [](std::size_t, const VaultRecordRef& r) { int u = -1; r.GetData("U", u); return 10 + u; })); });
            A("RemoveKey(A)", OPF return std::to_string(w.v.RemoveKey("A")); });
            A("RemoveKey(U)", OPF return std::to_string(w.v.RemoveKey("U")); });
            A("UpdateKey(A,9)", OPF return code(w.v.UpdateKey("A", 9)); });
            // reads of the vault
            A("GetRecord(U,0)", OPF return code(w.v.GetRecord("U", 0, w.r[t][1])); });
            A("GetRecord(U,5)", OPF return code(w.v.GetRecord("U", 5, w.r[t][0])); });
            A("GetRecords(A,0)", OPF std::vector<VaultRecordRef> v; auto c = code(w.v.GetRecords("A", 0, v)); return c + std::to_string(v.size()); });
            A("RequestEqual(A,0)", OPF return code(w.v.RequestEqual("A", 0, w.own[t])); });
            A("RequestGreater(U,0,pred)", OPF return code(w.v.RequestGreaterOrEqual("U", 0, w.own[t], -1, [](const VaultRecordRef& r) { int a = -1; std::string s; r.GetData("A", a); r.GetData("S", s); return a == 0 || s == "a"; })); });
            A("Request(A==0||S==a&&U>0)", OPF return code(w.v.Request(Equal("A", 0) || (Equal("S", std::string("a")) && Greater("U", 0)), w.own[t])); });
            A("GetSortedRecords(A)", OPF return std::to_string(w.v.GetSortedRecords("A").size()); });
            A("SortBy(U)", OPF std::string o; w.v.SortBy("U", [&](const VaultRecordRef& r) { int a = -1, u = -1; r.GetData("A", a); r.GetData("U", u); o += std::to_string(u) + ":" + std::to_string(a) + ","; return true; }); return o; });
            A("ToStrings()", OPF return rows(w.v.ToStrings()); });
            H("ToJson()", OPF return jsonParts(w.v.ToJson(false)); });
            H("SaveToFile()", OPF std::string p = path(t); bool b = w.v.SaveToFile(p); return std::to_string(b) + fileLines(p); });
            H("ReadFile()", OPF std::string p = path(t); { sx::Rt r; std::ofstream(p) << "A,U\r\n4,5\r\n4,6\r\n"; } bool b = w.v.ReadFile(p); { sx::Rt r; unlink(p.c_str()); } return std::to_string(b); });
            A("Size()", OPF return std::to_string(w.v.Size()); });
            A("GetKeys()", OPF return list(w.v.GetKeys()); });
            A("GetUniqueKeys()", OPF return list(w.v.GetUniqueKeys()); });
            A("IsKeyExist(B)", OPF return std::to_string(w.v.IsKeyExist("B")); });
            A("GetKeyValue(A)", OPF int d = -1; auto c = code(w.v.GetKeyValue("A", d)); return c + std::to_string(d); });
            A("GetKeyType(A)", OPF std::type_index ti = typeid(void); bool b = w.v.GetKeyType("A", ti); return std::to_string(b) + ti.name(); });
            H("Vault copy(v)", OPF Vault c(w.v); return dumpKeys(c) + dumpBox(c); });
            H("copy = v", OPF Vault c; c.AddKey("Q", 1); c = w.v; return dumpKeys(c) + dumpBox(c); });
            // references
            A("r0.GetData(A)", OPF int d = -1; auto c = code(w.r[t][0].GetData("A", d)); return c + std::to_string(d); });
            A("r0.GetData(U)", OPF int d = -1; auto c = code(w.r[t][0].GetData("U", d)); return c + std::to_string(d); });
            A("r0.GetDataAsString(A)", OPF std::string d = "?"; auto c = code(w.r[t][0].GetDataAsString("A", d)); return c + d; });
            A("r0.ToStrings()", OPF return row(w.r[t][0].ToStrings()); });
            A("r0.ToJson()", OPF return w.r[t][0].ToJson(false); });
            A("r0.IsValid()", OPF return std::to_string(w.r[t][0].IsValid()); });
            A("r0.IsKeyExist(B)", OPF return std::to_string(w.r[t][0].IsKeyExist("B")); });
            A("r0.GetKeys()", OPF return list(w.r[t][0].GetKeys()); });
            A("r0==r1", OPF return std::to_string(w.r[t][0] == w.r[t][1]); });
            A("r0!=r2", OPF return std::to_string(w.r[t][0] != w.r[t][2]); });
            A("r0.Reset()", OPF w.r[t][0].Reset(); return ""; });
            A("copy of a shared reference", OPF VaultRecordRef c(w.shared), d; d = c; VaultRecordRef e(std::move(c)); return std::to_string(e.IsValid()); });
            // shared sets
            A("s1.AddRecord(r2)", OPF return code(w.s1.AddRecord(w.r[t][2])); });
            A("s1.AddRecord(r0)", OPF return code(w.s1.AddRecord(w.r[t][0])); });
            A("s1.RemoveRecord(r0)", OPF return std::to_string(w.s1.RemoveRecord(w.r[t][0])); });
            A("s1.RemoveRecord(U,1)", OPF return code(w.s1.RemoveRecord("U", 1)); });
            A("s1.RemoveRecords(A,0)", OPF return code(w.s1.RemoveRecords("A", 0)); });
            A("s1.Join(s2)", OPF return code(w.s1.Join(w.s2)); });
            A("s1.Exclude(s2)", OPF return code(w.s1.Exclude(w.s2)); });
            A("s1.Intersect(s2)", OPF return code(w.s1.Intersect(w.s2)); });
            A("s2.Join(s1)", OPF return code(w.s2.Join(w.s1)); });
            A("s1.Clear()", OPF w.s1.Clear(); return ""; });
            A("s1.Size()", OPF return std::to_string(w.s1.Size()); });
            A("s1.GetRecord(U,0)", OPF return code(w.s1.GetRecord("U", 0, w.r[t][1])); });
            A("s1.GetRecords(A,0)", OPF std::vector<VaultRecordRef> v; auto c = code(w.s1.GetRecords("A", 0, v)); return c + std::to_string(v.size()); });
            A("s1.RequestEqual(A,0)", OPF return code(w.s1.RequestEqual("A", 0, w.own[t])); });
            A("s1.RequestLess(U,2,pred)", OPF return code(w.s1.RequestLess("U", 2, w.own[t], -1, [](const VaultRecordRef& r) { int a = -1; r.GetData("A", a); return a == 0; })); });
            A("s1.Request(A==0||S==a)", OPF return code(w.s1.Request(Equal("A", 0) || Equal("S", std::string("a")), w.own[t])); });
            A("s1.CheckRecord(r0)", OPF return std::to_string(w.s1.CheckRecord(w.r[t][0])); });
            A("s1==s2", OPF return std::to_string(w.s1 == w.s2); });
            A("s2!=s1", OPF return std::to_string(w.s2 != w.s1); });
            A("s1.GetSortedRecords(A)", OPF return std::to_string(w.s1.GetSortedRecords("A").size()); });
            A("s1.SortBy(U)", OPF std::string o; w.s1.SortBy("U", [&](const VaultRecordRef& r) { int a = -1, u = -1; r.GetData("A", a); r.GetData("U", u); o += std::to_string(u) + ":" + std::to_string(a) + ","; return true; }); return o; });
            A("s1.ToStrings()", OPF return rows(w.s1.ToStrings()); });
            H("s1.ToJson()", OPF return jsonParts(w.s1.ToJson(false)); });
            H("s1.SaveToFile()", OPF std::string p = path(t); bool b = w.s1.SaveToFile(p); return std::to_string(b) + fileLines(p); });
            A("s1.GetKeys()", OPF return list(w.s1.GetKeys()) + "u:"; });
            A("s1.GetUniqueKeys()", OPF return list(w.s1.GetUniqueKeys()); });
            A("s1.IsKeyExist(B)", OPF return std::to_string(w.s1.IsKeyExist("B")); });
            A("s1.GetKeyValue(A)", OPF int d = -1; auto c = code(w.s1.GetKeyValue("A", d)); return c + std::to_string(d); });
            A("s1.GetKeyType(A)", OPF std::type_index ti = typeid(void); bool b = w.s1.GetKeyType("A", ti); return std::to_string(b) + ti.name(); });
            A("GetErrorsInLastReadedFile()", OPF return std::to_string(w.v.GetErrorsInLastReadedFile().size()); });
            A("RequestInterval(U,0,1)", OPF return code(w.v.RequestInterval("U", 0, 1, w.own[t])); });
            A("s1.RequestInterval(A,0,1)", OPF return code(w.s1.RequestInterval("A", 0, 1, w.own[t])); });
            A("own==s1", OPF return std::to_string(w.own[t] == w.s1); });
            // own sets
            A("own=s1", OPF w.own[t] = w.s1; return ""; });
            A("Union(s1,s2,own)", OPF return code(Union(w.s1, w.s2, w.own[t])); });
            A("Intersection(s1,s2,own)", OPF return code(Intersection(w.s1, w.s2, w.own[t])); });
            A("own.Join(s1)", OPF return code(w.own[t].Join(w.s1)); });
            A("own.Reset()", OPF w.own[t].Reset(); return ""; });
            A("own.AddRecord(r0)", OPF return code(w.own[t].AddRecord(w.r[t][0])); });
            H("{set created and destroyed}", OPF { VaultRecordSet x; w.v.RequestEqual("S", std::string("a"), x); } return ""; });
            H("{set copied and destroyed}", OPF { VaultRecordSet x(w.s1); VaultRecordSet y(std::move(x)); } return ""; });
            H("own=move(copy of s1)", OPF { VaultRecordSet x(w.s1); w.own[t] = std::move(x); } return ""; });
            // callbacks that come back to the vault, printing, limits, clearing references by other ways
            H("SortBy(U) calling Size, GetRecord, s1.Size", OPF std::size_t n = 0; w.v.SortBy("U", [&](const VaultRecordRef& r) { VaultRecordRef q; n += w.v.Size() + w.s1.Size() + w.v.GetRecord("U", 2, q).IsOperationSuccess + q.IsValid() + r.IsKeyExist("A"); return true; }); return ""; });
            H("RequestGreater(U,pred calling Size, s1.CheckRecord)", OPF std::size_t n = 0; w.v.RequestGreater("U", -1, w.own[t], -1, [&](const VaultRecordRef& r) { n += w.v.Size() + w.s1.CheckRecord(r) + r.ToStrings().size(); return true; }); return ""; });
            H("AddUniqueKey(W, calling Size, ToStrings)", OPF return code(w.v.AddUniqueKey<int>("W", [&](std::size_t k, const VaultRecordRef& r) { return (int)(100 * w.v.Size() + 10 * r.ToStrings().size() + k); })); });
            H("Print()", OPF w.v.Print(true, 2, "A"); return ""; });
            H("s1.Print()", OPF w.s1.Print(true); return ""; });
            H("r0.PrintRecord()", OPF w.r[t][0].PrintRecord(); return ""; });
            H("EraseRecords(A,0,1)", OPF return code(w.v.EraseRecords("A", 0, 1)); });
            H("GetRecords(A,0,1) then use", OPF std::vector<VaultRecordRef> v; w.v.GetRecords("A", 0, v, 1); std::string o; for (auto& r : v) o += row(r.ToStrings()); return o; });
            H("r0=GetRecord, r0.SetData(A,2)", OPF w.v.GetRecord("U", 0, w.r[t][0]); return code(w.r[t][0].SetData("A", 2)); });
            H("r0=r1, r1=move(r2)", OPF w.r[t][0] = w.r[t][1]; w.r[t][1] = std::move(w.r[t][2]); return ""; });
            H("ReadFile(handler)", OPF std::string p = path(t); { sx::Rt r; std::ofstream(p) << "A,U\r\n4,5\r\n4,0\r\n"; } bool b = w.v.ReadFile(p, ',', [&](const std::vector<std::string>&, std::vector<std::string>& x) { x[0] = std::to_string(w.v.Size()); }); { sx::Rt r; unlink(p.c_str()); } return std::to_string(b); });
            H("ToJson(formatted)", OPF return std::to_string(w.v.ToJson(true, 2, true, "R", true).size() > 0); });
            // functions without a vault, and vaults of the thread's own: nothing is shared between threads
            H("helpers", OPF int i = 0; double d = 0; bool b = false; std::string o = Uuid() + GenTmpFileName("x") + ToString(2.5) + ToString(-7) + ToString(true) + ToString(1.5f) + FormatStringToCsv("a,\"b"); b = FromString("12", i) && FromString("2.5", d) && FromString("true", b); VaultOperationResult x; x.ResultCode = RC::WrongKey; return o + x.ResultCodeString() + std::to_string(b); });
            H("own vault", OPF Vault q; q.AddKey("A", 1); q.AddUniqueKey<std::string>("K"); VaultRecordRef r; VaultRecordSet z; std::string o = code(q.CreateRecord(r, {{"K", std::string("k\n")}})) + code(q.Request(Equal("A", 1) && Equal("K", std::string("k\n")), z)) + code(q.GetRecord("A", 2.5, r)) + q.ToJson() + z.ToJson(false); for (auto& k : z.GetSortedRecords("K")) o += row(k.ToStrings()); return o + std::to_string(q.RemoveKey("A")); });
            H("identifiers", OPF return std::to_string(w.s1.GetParentVaultUniqueId() == w.own[t].GetParentVaultUniqueId() && w.s1.GetIsParentVaultValid() && w.r[t][0].GetRecordUniqueId().size() > 0); });
            // two vaults: the objects attached to them are the thread's own
            X("v.RequestEqual -> set of v2", OPF return code(w.v.RequestEqual("A", 0, w.b->x[t])); });
            X("v2.RequestEqual -> set of v", OPF return code(w.b->v.RequestEqual("A", 0, w.own[t])); });
            X("v.Request -> set of v2", OPF return code(w.v.Request(Equal("A", 0) || Equal("A", 1), w.b->x[t])); });
            X("v2.Request -> set of v", OPF return code(w.b->v.Request(Equal("A", 0) || Equal("A", 1), w.own[t])); });
            X("s1.RequestEqual -> set of v2", OPF return code(w.s1.RequestEqual("A", 0, w.b->x[t])); });
            X("v2.s.RequestEqual -> set of v", OPF return code(w.b->s.RequestEqual("A", 0, w.own[t])); });
            X("s1.Request -> set of v2", OPF return code(w.s1.Request(Equal("A", 0) && Equal("A", 0), w.b->x[t])); });
            X("v2.s.Request -> set of v", OPF return code(w.b->s.Request(Equal("A", 0) && Equal("A", 0), w.own[t])); });
            X("set of v2 = s1", OPF w.b->x[t] = w.s1; return ""; });
            X("set of v = v2.s", OPF w.own[t] = w.b->s; return ""; });
            X("set of v2 = move(copy of s1)", OPF { VaultRecordSet q(w.s1); w.b->x[t] = std::move(q); } return ""; });
            X("set of v = move(copy of v2.s)", OPF { VaultRecordSet q(w.b->s); w.own[t] = std::move(q); } return ""; });
            X("Union(s1,s2,set of v2)", OPF return code(Union(w.s1, w.s2, w.b->x[t])); });
            X("Union(v2.s,v2.s2,set of v)", OPF return code(Union(w.b->s, w.b->s2, w.own[t])); });
            X("Intersection(s1,s2,set of v2)", OPF return code(Intersection(w.s1, w.s2, w.b->x[t])); });
            X("Intersection(v2.s,v2.s2,set of v)", OPF return code(Intersection(w.b->s, w.b->s2, w.own[t])); });
            X("set of v2 .Join(s1)", OPF return code(w.b->x[t].Join(w.s1)); });
            X("set of v .Join(v2.s)", OPF return code(w.own[t].Join(w.b->s)); });
            X("s1.AddRecord(ref of v2)", OPF return code(w.s1.AddRecord(w.b->r[t])); });
            X("v2.s.AddRecord(ref of v)", OPF return code(w.b->s.AddRecord(w.r[t][0])); });
            X("v.EraseRecord(ref of v2)", OPF return std::to_string(w.v.EraseRecord(w.b->r[t])); });
            X("v2.EraseRecord(ref of v)", OPF return std::to_string(w.b->v.EraseRecord(w.r[t][0])); });
            X("s1==v2.s", OPF return std::to_string(w.s1 == w.b->s); });
            X("v2.s==s1", OPF return std::to_string(w.b->s == w.s1); });
            X("ref of v = ref of v2", OPF w.r[t][0] = w.b->r[t]; return ""; });
            X("v2.GetRecord -> ref of v", OPF return code(w.b->v.GetRecord("A", 0, w.r[t][0])); });
            X("v.GetRecord -> ref of v2", OPF return code(w.v.GetRecord("A", 0, w.b->r[t])); });
            X("v.CreateRecord, v2.CreateRecord", OPF return code(w.v.CreateRecord({{"U", 5}})) + code(w.b->v.CreateRecord({{"A", 5}})); });
            X("copy = v, copy = v2", OPF Vault c; c = w.v; c = w.b->v; return ""; });
            X("copy = v2, copy = v", OPF Vault c(w.b->v); c = w.v; return ""; });
            X("v.DropData()", OPF w.v.DropData(); return ""; });
            X("v2.DropData()", OPF w.b->v.DropData(); return ""; });
            #undef OPF
            // calls that change nothing other threads can see
            for (auto& o : *p) for (const char* r : {"GetRecord", "GetRecords", "GetSorted", "SortBy", "ToStrings", "ToJson", "SaveToFile", "Size", "GetKeys", "GetUniqueKeys", "IsKeyExist", "GetKeyValue", "GetKeyType", "Vault copy", "copy = v", "copy of", "r0.Get", "r0.To", "r0.Is", "r0==", "r0!=", "s1.Size", "s1.GetR", "s1.Check", "s1==", "s2!=", "s1.GetS", "s1.S", "s1.To", "s1.GetK", "s1.GetU", "s1.Is", "helpers", "own vault", "GetErrors", "own==", "identifiers"}) if (strncmp(o.name, r, strlen(r)) == 0) o.reads = true;
            return p;
        }();
        return *ops;
    }
    inline int opIndex(const std::string& n);
    inline int lastLinear() { return opIndex("own=move(copy of s1)"); }
    inline int opIndex(const std::string& n) { for (size_t i = 0; i < cops().size(); ++i) if (n == cops()[i].name) return (int)i; fprintf(stderr, "no operation %s\n", n.c_str()); abort(); }
    // Everything runs once outside the explored program, so that static objects and library caches exist
    inline void warmUp() { static bool d = false; if (d) return; d = true; for (auto& o : cops()) { CW w(2); w.second(2); o.f(w, 0); dump(w, 2); } }

    using Calls = std::vector<std::vector<int>>; // per thread: operations
    inline std::string showCalls(const Calls& c) { std::string o; for (size_t t = 0; t < c.size(); ++t) { o += (t ? " || T" : "T") + std::to_string(t + 1) + ":"; for (int k : c[t]) o += std::string(" ") + cops()[k].name; } return o; }
    struct ConcRun : sx::Program
    {
        Calls calls; bool linearize, unheld; CW* w = nullptr;
        struct Ev { long b = 0, e = 0; std::string res; }; std::vector<std::vector<Ev>> ev; long clock = 0;
        std::map<std::vector<int>, std::string> outcomes; // sequence of threads -> outcome of that one-at-a-time order
        ConcRun(const Calls& c, bool lin, bool u = false) : calls(c), linearize(lin), unheld(u) {}
        std::string outcome() { sx::Rt rt; std::string o; for (size_t t = 0; t < ev.size(); ++t) for (size_t i = 0; i < ev[t].size(); ++i) o += "T" + std::to_string(t + 1) + " " + cops()[calls[t][i]].name + " -> " + ev[t][i].res + "; "; return o; }
        void reset() { sx::Rt rt; ev.assign(calls.size(), {}); for (size_t t = 0; t < calls.size(); ++t) ev[t].resize(calls[t].size()); clock = 0; }
        void one(int t, int i) { std::string s = cops()[calls[t][i]].f(*w, t); sx::Rt rt; ev[t][i].res.assign(s.data(), s.size()); }
        int threads() override { return calls.size(); }
        void setup() override { reset(); w = new CW(calls.size()); for (auto& c : calls) for (int o : c) if (cops()[o].cross) { if (!w->b) w->second(calls.size()); } if (unheld) w->release(); }
        void body(int t) override { for (size_t i = 0; i < calls[t].size(); ++i) { { sx::Rt r; ev[t][i].b = ++clock; } sx::callBegin(); one(t, i); sx::callEnd(); sx::Rt r; ev[t][i].e = ++clock; } }
        void finish(bool) override
        {
            std::string d; if (linearize) { std::string x = dump(*w, calls.size()); sx::Rt rt; d.assign(x.data(), x.size()); }
            delete w; w = nullptr; if (!linearize) return;
            sx::Rt rt; std::string o = outcome() + "final: " + d; bool found = false; std::string near;
            for (auto& p : outcomes) if (p.second == o) { if (respects(p.first)) { found = true; break; } near = " (only an order that contradicts the real-time order gives it)"; }
            if (!found) { std::string m = "not linearizable" + near + ": " + o + "  one-at-a-time: " + diff(o); throw Violation{m}; }
        }
        std::string diff(const std::string& o) { std::string m; for (auto& p : outcomes) { size_t k = 0; while (k < o.size() && k < p.second.size() && o[k] == p.second[k]) ++k; size_t b = k > 40 ? k - 40 : 0; m += "order"; for (int t : p.first) m += " T" + std::to_string(t + 1); m += " differs at '" + p.second.substr(b, 90) + "' vs '" + o.substr(b, 90) + "'; "; } return m; }
        // does the order of calls respect that a call that ended before another began comes first?
        bool respects(const std::vector<int>& seq)
        {
            std::vector<size_t> at(calls.size()); std::vector<const Ev*> l; for (int t : seq) l.push_back(&ev[t][at[t]++]);
            for (size_t i = 0; i < l.size(); ++i) for (size_t j = i + 1; j < l.size(); ++j) if (l[j]->e < l[i]->b) return false;
            return true;
        }
        void orders(std::vector<int>& seq, std::vector<size_t>& at)
        {
            bool end = true;
            for (size_t t = 0; t < calls.size(); ++t) if (at[t] < calls[t].size()) { end = false; seq.push_back(t); ++at[t]; orders(seq, at); --at[t]; seq.pop_back(); }
            if (!end) return;
            std::vector<int> s = seq; std::string* out = &outcomes[s];
            sx::sequential([this, s, out] { setup(); std::vector<size_t> k; { sx::Rt r; k.resize(calls.size()); } for (int t : s) one(t, k[t]++); std::string x = dump(*w, calls.size()); { sx::Rt r; *out = outcome() + "final: " + std::string(x.data(), x.size()); } delete w; w = nullptr; { sx::Rt r; std::vector<size_t>().swap(k); } });
        }
        sx::Stats run(const sx::Config& c) { warmUp(); if (linearize) { std::vector<int> s; std::vector<size_t> at(calls.size()); orders(s, at); } return sx::explore(*this, c); }
    };
    struct CSc { Calls c; int pre, spur; bool unheld = false; };
    inline std::vector<int> opList(std::initializer_list<const char*> l) { std::vector<int> o; for (auto n : l) o.push_back(opIndex(n)); return o; }
    // Calls that erase records nobody refers to, against every call that reaches records otherwise than through a reference
    inline std::vector<CSc> unheldScenarios(bool deep, int last)
    {
        auto er = opList({"EraseRecord(U,1)", "EraseRecords(A,0)", "EraseRecords(A,0,1)", "DropData()"}); std::vector<CSc> v; std::vector<bool> seen(cops().size());
        if (last < er[2]) er.erase(er.begin() + 2);
        for (int x : er) seen[x] = true;
        for (size_t i = 0; i < er.size(); ++i) for (size_t j = i; j < er.size(); ++j) v.push_back({{{er[i]}, {er[j]}}, deep ? 3 : 2, 0, true});
        for (int i = 0; i <= last; ++i)
        {
            std::string n = cops()[i].name; bool gets = n.find("=GetRecord") != n.npos;
            if (seen[i] || cops()[i].cross || (!gets && (n[0] == 'r' || n.find("(r") != n.npos || n.find("shared ref") != n.npos)) || n == "Size()" || n.find("Key") == 0 || n.find("GetKey") != n.npos || n == "identifiers" || n.find("GetErrors") == 0 || n.find("GetUniqueKeys") != n.npos || n.find("IsKeyExist") != n.npos || n == "helpers" || n == "own vault") continue;
            for (int x : er) v.push_back({{{i}, {x}}, deep ? 3 : cops()[i].heavy ? 1 : 2, 0, true});
        }
        auto second = opList({"r1.SetData(U,5)", "r0.GetData(A)", "r0.Reset()", "own.AddRecord(r0)", "s1.AddRecord(r0)", "EraseRecord(r0)", "s1.RemoveRecord(r0)", "s1.CheckRecord(r0)"});
        if (last >= opIndex("r0=r1, r1=move(r2)")) second.push_back(opIndex("r0=r1, r1=move(r2)"));
        std::vector<int> first{opIndex("GetRecord(U,0)"), opIndex("CreateRecord(ref,U=6)")}; if (last >= opIndex("r0=GetRecord, r0.SetData(A,2)")) first.push_back(opIndex("r0=GetRecord, r0.SetData(A,2)"));
        for (int a : first) for (int b : second) for (int x : er) v.push_back({{{a, b}, {x}}, deep ? 2 : 1, 0, true});
        return v;
    }
    inline void addScenarios(Enumerator& e, const char* name, std::vector<CSc> v, bool lin, bool leaks, const std::string& bounds)
    {
        auto sv = std::make_shared<std::vector<CSc>>(std::move(v));
        e.secs.push_back({name, sv->size(), [sv, lin, leaks](size_t i) { auto& s = (*sv)[i]; sx::Config c; c.preemptions = s.pre; c.spurious = s.spur; c.leaks = leaks; ConcRun r(s.c, lin, s.unheld); auto st = r.run(c); explored(st.states, st.transitions, st.execs, st.aborted); evals(st.execs, st.execs > 1 ? st.execs : 0); },
                          [sv](size_t i) { return ((*sv)[i].unheld ? "no references: " : "") + showCalls((*sv)[i].c); }, bounds, 30, 1});
    }
}
