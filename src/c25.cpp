// C25: user-defined key types. A type offers only what the documentation asks for (hash, less, equality, copying): its equality is coarser
// than its contents, its hash collides, it owns memory, and every object of it is tracked. Every history of calls against a value model.
#include "enumx.hpp"
#include "json.hpp"
#include "MVault.h"
#include <iostream>
#include <map>
#include <memory>
#include <unordered_set>
using namespace mvlt; using namespace mc;
#ifdef MC_SMALL
constexpr int SHRINK = 1;
#else
constexpr int SHRINK = 0;
#endif
static std::unordered_set<const void*> g_live; static std::string g_err;
template <int N> struct Usr
{
    int* rank; char tag;
    Usr(int r, char t) : rank(new int(r)), tag(t) { g_live.insert(this); }
    Usr() : Usr(0, '0') {}
    Usr(const Usr& o) : rank(nullptr), tag(o.tag) { if (!g_live.count(&o)) { g_err = "copied from a destroyed object"; rank = new int(-1); } else rank = new int(*o.rank); g_live.insert(this); }
    Usr& operator=(const Usr& o) { if (!g_live.count(&o) || !g_live.count(this)) { g_err = "assignment with a destroyed object"; return *this; } if (this != &o) { *rank = *o.rank; tag = o.tag; } return *this; }
    ~Usr() { if (!g_live.erase(this)) { g_err = "object destroyed twice"; return; } delete rank; rank = nullptr; tag = '!'; }
};
template <int N> static bool alive(const Usr<N>& a, const Usr<N>& b) { if (g_live.count(&a) && g_live.count(&b)) return true; g_err = "comparison with a destroyed object"; return false; }
template <int N> bool operator==(const Usr<N>& a, const Usr<N>& b) { return alive(a, b) && *a.rank == *b.rank; }
template <int N> bool operator<(const Usr<N>& a, const Usr<N>& b) { return alive(a, b) && *a.rank < *b.rank; }
#ifdef MC_RICH
// What the library may not ask for
template <int N> bool operator!=(const Usr<N>& a, const Usr<N>& b) { return !(a == b); }
template <int N> bool operator>(const Usr<N>& a, const Usr<N>& b) { return b < a; }
template <int N> bool operator<=(const Usr<N>& a, const Usr<N>& b) { return !(b < a); }
template <int N> bool operator>=(const Usr<N>& a, const Usr<N>& b) { return !(a < b); }
template <int N> std::ostream& operator<<(std::ostream& o, const Usr<N>& a) { return o << *a.rank; }
template <int N> std::istream& operator>>(std::istream& i, Usr<N>& a) { return i >> *a.rank; }
#endif
enum class En : short { zero };
using Full = Usr<0>; using Bare = Usr<1>;
namespace std
{
    template <int N> struct hash<Usr<N>> { size_t operator()(const Usr<N>& u) const { if (!g_live.count(&u)) { g_err = "hash of a destroyed object"; return 0; } return *u.rank % 2; } };
}
static std::string fullText(int r, char t) { return std::string("<\"") + t + "\",\t" + std::to_string(r) + "\\\n>"; }
namespace mvlt
{
    template <> std::string ToString(const Full& u) noexcept { if (!g_live.count(&u)) { g_err = "text of a destroyed object"; return ""; } return fullText(*u.rank, u.tag); }
    template <> bool FromString(const std::string& s, Full& u) noexcept
    {
        if (!g_live.count(&u)) { g_err = "text into a destroyed object"; return false; }
        if (s.size() < 9 || s.compare(0, 2, "<\"") || s.compare(3, 3, "\",\t") || s.compare(s.size() - 3, 3, "\\\n>")) return false;
        u = Full(atoi(s.substr(6, s.size() - 9).c_str()), s[2]); return true;
    }
}
struct V { int rank = 0; char tag = '0'; };
template <class T> struct Tr;
template <int N> struct Tr<Usr<N>> { static Usr<N> make(V v) { return Usr<N>(v.rank, v.tag); } static V get(const Usr<N>& u) { return {*u.rank, u.tag}; } static std::string text(V v) { return N ? "" : fullText(v.rank, v.tag); } static constexpr bool parses = !N, tags = true; };
template <> struct Tr<En> { static En make(V v) { return static_cast<En>(v.rank); } static V get(En e) { return {static_cast<int>(e), '0'}; } static std::string text(V) { return ""; } static constexpr bool parses = false, tags = false; };
static std::string sh(V v) { return std::to_string(v.rank) + v.tag; }
template <class T> struct World
{
    using R = Tr<T>;
    struct Rec { int id; V k, u; VaultRecordRef ref; };
    std::unique_ptr<Vault> v{new Vault}; VaultRecordSet s; std::vector<Rec> rs; std::set<int> in; bool attached = false, uniq = false; V def{1, 'd'}, udef; int next = 1;
    World() { ok(v->AddKey("I", 0), "AddKey"); ok(v->AddKey("K", R::make(def)), "AddKey of the user type"); }
    Rec* at(int id) { for (auto& r : rs) if (r.id == id) return &r; return nullptr; }
    bool same(V a, V b) const { return a.rank == b.rank && (!R::tags || a.tag == b.tag); }
    void create(const V* k)
    {
        Rec r; r.id = next++; r.k = k ? *k : def; r.u = {r.id, 'u'}; std::vector<std::pair<std::string, VaultParamInput>> p{{"I", r.id}}; if (k) p.emplace_back("K", R::make(*k)); if (uniq) p.emplace_back("U", R::make(r.u));
        ok(v->CreateRecord(r.ref, p).IsOperationSuccess, "CreateRecord failed"); rs.push_back(r);
    }
    void drop(int id) { for (size_t i = 0; i < rs.size(); ++i) if (rs[i].id == id) { rs.erase(rs.begin() + i); break; } in.erase(id); }
    // Forgets the references and takes new ones from the vault by the record number
    void reref() { for (auto& r : rs) { r.ref.Reset(); ok(v->GetRecord("I", r.id, r.ref).IsOperationSuccess, "record " + std::to_string(r.id) + " is missing"); } }
    std::set<int> ids(const std::vector<VaultRecordRef>& refs, const std::string& at) { std::set<int> o; for (auto& r : refs) { int i = -1; ok(r.GetData("I", i).IsOperationSuccess, at + ": invalid reference returned"); ok(o.insert(i).second, at + ": a record is returned twice"); } return o; }
    template <class C> std::set<int> ids(const C& c) { return ids(c.GetSortedRecords("I"), "GetSortedRecords(I)"); }
    static std::string str(const std::set<int>& s) { std::string o = "{"; for (int i : s) o += std::to_string(i) + " "; return o + "}"; }
    void eq(const std::set<int>& got, const std::set<int>& want, const std::string& at) { if (got != want) fail(at + " gives records " + str(got) + " want " + str(want)); }
    template <class P> std::set<int> sel(const std::vector<const Rec*>& w, P p) { std::set<int> o; for (auto* r : w) if (p(*r)) o.insert(r->id); return o; }
    void record(const Rec& r)
    {
        std::string at = "record " + std::to_string(r.id); T d = R::make({7, '?'}); ok(r.ref.IsValid() && r.ref.GetData("K", d).IsOperationSuccess, at + ": GetData(K) failed"); if (!same(R::get(d), r.k)) fail(at + ": K is " + sh(R::get(d)) + " want " + sh(r.k));
        std::string t = "-"; ok(r.ref.GetDataAsString("K", t).IsOperationSuccess, at + ": GetDataAsString failed"); if (t != R::text(r.k)) fail(at + ": GetDataAsString is " + vis(t));
        if (uniq) { ok(r.ref.GetData("U", d).IsOperationSuccess, at + ": GetData(U) failed"); if (!same(R::get(d), r.u)) fail(at + ": U is " + sh(R::get(d)) + " want " + sh(r.u)); }
        int wrong = -5; auto res = r.ref.GetData("K", wrong); ok(!res.IsOperationSuccess && res.ResultCode == VaultOperationResultCode::WrongType && wrong == -5 && res.SavedType == typeid(T), at + ": K read as int");
        JVal j; std::string jt = r.ref.ToJson(false); ok(JParser(jt).parse(j) && j.k == JVal::OBJ, at + ": not JSON: " + vis(jt)); bool seen = false; for (auto& f : j.o) if (f.first == "K") { seen = true; if (f.second.k != JVal::STR || f.second.s != R::text(r.k)) fail(at + ": JSON of K is " + vis(jt)); } ok(seen, at + ": JSON without K");
        seen = false; for (auto& f : r.ref.ToStrings()) if (f.first == "K") { seen = true; if (f.second != R::text(r.k)) fail(at + ": ToStrings of K is " + vis(f.second)); } ok(seen, at + ": ToStrings without K");
    }
    // All ways to look for values of key `key`; C is the vault or a set, w its records
    template <class C> void look(C& c, const std::vector<const Rec*>& w, const std::string& nm, const std::string& key)
    {
        auto val = [&](const Rec& r) { return key == "K" ? r.k : r.u; };
        int top = key == "K" ? 3 : next + 1; VaultRecordSet q; std::string kn = "(" + key + ",";
        for (int i = 0; i <= top; ++i)
        {
            T p = R::make({i, '?'}); std::string a = nm + "."; std::string e = kn + std::to_string(i) + ")";
            auto want = sel(w, [&](const Rec& r) { return val(r).rank == i; });
            VaultRecordRef ref; auto res = c.GetRecord(key, p, ref); ok(res.IsOperationSuccess == !want.empty(), a + "GetRecord" + e + " result"); if (!want.empty()) { int id = -1; ref.GetData("I", id); ok(want.count(id), a + "GetRecord" + e + " returns another record"); }
            std::vector<VaultRecordRef> refs; c.GetRecords(key, p, refs); eq(ids(refs, "GetRecords"), want, a + "GetRecords" + e);
            c.RequestEqual(key, p, q); eq(ids(q), want, a + "RequestEqual" + e);
            c.RequestLess(key, p, q); eq(ids(q), sel(w, [&](const Rec& r) { return val(r).rank < i; }), a + "RequestLess" + e);
            c.RequestLessOrEqual(key, p, q); eq(ids(q), sel(w, [&](const Rec& r) { return val(r).rank <= i; }), a + "RequestLessOrEqual" + e);
            c.RequestGreater(key, p, q); eq(ids(q), sel(w, [&](const Rec& r) { return val(r).rank > i; }), a + "RequestGreater" + e);
            c.RequestGreaterOrEqual(key, p, q); eq(ids(q), sel(w, [&](const Rec& r) { return val(r).rank >= i; }), a + "RequestGreaterOrEqual" + e);
            for (int j = 0; j <= top; j += key == "K" ? 1 : 2)
            {
                T o = R::make({j, '!'}); std::string f = kn + std::to_string(i) + ".." + std::to_string(j) + ")"; bool il = (i + j) % 2, ir = i % 2;
                auto inside = [&](bool l, bool r2) { return sel(w, [&](const Rec& r) { int x = val(r).rank; return (x > i || (l && x == i)) && (x < j || (r2 && x == j)); }); };
                c.RequestInterval(key, p, o, q, il, ir); eq(ids(q), inside(il, ir), a + "RequestInterval" + f);
                c.Request(GreaterOrEqual(key, p) && Less(key, o), q); eq(ids(q), inside(true, false), a + "Request(>= && <)" + f);
                c.Request(Equal(key, p) || Greater(key, o), q); eq(ids(q), sel(w, [&](const Rec& r) { int x = val(r).rank; return x == i || x > j; }), a + "Request(== || >)" + f);
            }
        }
        auto all = sel(w, [](const Rec&) { return true; });
        for (bool rev : {false, true})
        {
            auto refs = c.GetSortedRecords(key, rev); eq(ids(refs, "GetSortedRecords"), all, nm + ".GetSortedRecords(" + key + ")"); int prev = rev ? 1000 : -1;
            for (auto& r : refs) { T d = R::make({7, '?'}); r.GetData(key, d); int x = R::get(d).rank; ok(rev ? x <= prev : x >= prev, nm + ".GetSortedRecords(" + key + ") is not sorted"); prev = x; }
        }
        std::type_index ti = typeid(void); ok(c.GetKeyType(key, ti) && ti == typeid(T), nm + ".GetKeyType(" + key + ")");
    }
    void look()
    {
        std::vector<const Rec*> all, some; for (auto& r : rs) { all.push_back(&r); if (in.count(r.id)) some.push_back(&r); record(r); }
        ok(v->Size() == rs.size(), "Size is " + std::to_string(v->Size())); T d = R::make({7, '?'}); ok(v->GetKeyValue("K", d).IsOperationSuccess && same(R::get(d), def), "GetKeyValue(K) is " + sh(R::get(d)) + " want " + sh(def));
        look(*v, all, "vault", "K"); if (uniq) look(*v, all, "vault", "U");
        ok(s.GetIsParentVaultValid() == attached && s.Size() == some.size(), "set size or parent"); if (attached) { look(s, some, "set", "K"); if (uniq) look(s, some, "set", "U"); }
    }
};
template <class T> struct Op { std::string nm; std::function<void(World<T>&)> run; };
template <class T> static std::vector<Op<T>> operations()
{
    using W = World<T>; using R = Tr<T>; std::vector<Op<T>> o;
    for (V k : {V{0, 'a'}, V{1, 'b'}, V{1, 'c'}, V{2, 'a'}}) o.push_back({"Create(K=" + sh(k) + ")", [=](W& w) { w.create(&k); }});
    o.push_back({"Create(K default)", [](W& w) { w.create(nullptr); }});
    for (V k : {V{1, 'z'}, V{2, 'y'}}) o.push_back({"first.SetData(K," + sh(k) + ")", [=](W& w) { if (w.rs.empty()) return; ok(w.rs[0].ref.SetData("K", R::make(k)).IsOperationSuccess, "SetData failed"); w.rs[0].k = k; }});
    o.push_back({"last.SetData({K=0x})", [](W& w) { if (w.rs.empty()) return; ok(w.rs.back().ref.SetData({{"K", R::make({0, 'x'})}}).IsOperationSuccess, "SetData failed"); w.rs.back().k = {0, 'x'}; }});
    o.push_back({"EraseRecords(K,1?)", [](W& w) { bool any = false; for (size_t i = w.rs.size(); i-- > 0;) if (w.rs[i].k.rank == 1) any = true; ok(w.v->EraseRecords("K", R::make({1, '?'})).IsOperationSuccess == any, "EraseRecords result"); for (size_t i = w.rs.size(); i-- > 0;) if (w.rs[i].k.rank == 1) { ok(!w.rs[i].ref.IsValid(), "reference to an erased record is valid"); w.drop(w.rs[i].id); } }});
    o.push_back({"EraseRecord(first)", [](W& w) { if (w.rs.empty()) return; ok(w.v->EraseRecord(w.rs[0].ref), "EraseRecord failed"); w.drop(w.rs[0].id); }});
    o.push_back({"EraseRecord(K,0?)", [](W& w) { bool any = false; for (auto& r : w.rs) any |= r.k.rank == 0; ok(w.v->EraseRecord("K", R::make({0, '?'})).IsOperationSuccess == any, "EraseRecord result"); if (!any) return; int gone = 0, n = 0; for (auto& r : w.rs) if (!r.ref.IsValid()) { gone = r.id; ++n; ok(r.k.rank == 0, "EraseRecord erased another record"); } ok(n == 1, "EraseRecord erased " + std::to_string(n) + " records"); w.drop(gone); }});
    o.push_back({"DropData()", [](W& w) { w.v->DropData(); w.rs.clear(); w.in.clear(); }});
    o.push_back({"UpdateKey(K,2n)", [](W& w) { ok(w.v->UpdateKey("K", R::make({2, 'n'})).IsOperationSuccess, "UpdateKey failed"); w.def = {2, 'n'}; }});
    o.push_back({"RemoveKey(K);AddKey(K,1m)", [](W& w) { ok(w.v->RemoveKey("K"), "RemoveKey failed"); ok(w.v->AddKey("K", R::make({1, 'm'})), "AddKey failed"); w.def = {1, 'm'}; for (auto& r : w.rs) r.k = w.def; }});
    o.push_back({"vault=copy", [](W& w) { std::unique_ptr<Vault> n(new Vault(*w.v)); w.s.Reset(); w.attached = false; w.in.clear(); w.v = std::move(n); w.reref(); }});
    o.push_back({"vault=move", [](W& w) { std::unique_ptr<Vault> n(new Vault(std::move(*w.v))); w.v = std::move(n); }});
    o.push_back({"set=RequestGreaterOrEqual(K,1?)", [](W& w) { ok(w.v->RequestGreaterOrEqual("K", R::make({1, '?'}), w.s).IsOperationSuccess, "request failed"); w.attached = true; w.in.clear(); for (auto& r : w.rs) if (r.k.rank >= 1) w.in.insert(r.id); }});
    o.push_back({"set.RemoveRecords(K,1?)", [](W& w) { if (!w.attached) return; bool any = false; for (auto& r : w.rs) if (w.in.count(r.id) && r.k.rank == 1) any = true; ok(w.s.RemoveRecords("K", R::make({1, '?'})).IsOperationSuccess == any, "RemoveRecords result"); for (auto& r : w.rs) if (r.k.rank == 1) w.in.erase(r.id); }});
    o.push_back({"save;DropData;load", [](W& w)
    {
        static const std::string f = g_scratch + "/c25_" + std::to_string(getpid()) + ".csv"; ok(w.v->SaveToFile(f), "SaveToFile failed"); w.v->DropData(); w.in.clear(); ok(w.v->ReadFile(f), "ReadFile failed"); unlink(f.c_str());
        auto er = w.v->GetErrorsInLastReadedFile();
        if (R::parses) { ok(er.empty(), "errors while loading"); w.reref(); }
        else { ok(er.size() == w.rs.size(), "values without conversion were loaded"); for (size_t i = 0; i < er.size(); ++i) ok(er[i].first == i + 2 && (er[i].second == "K" || er[i].second == "U"), "wrong error position"); w.rs.clear(); }
    }});
    o.push_back({"AddUniqueKey(U,from I)", [](W& w)
    {
        bool had = w.uniq; auto res = w.v->template AddUniqueKey<T>("U", [](const size_t&, const VaultRecordRef& r) { int i = 0; r.GetData("I", i); return R::make({i, 'u'}); }); ok(res.IsOperationSuccess == !had, "AddUniqueKey result"); if (had) return;
        w.uniq = true; for (auto& r : w.rs) r.u = {r.id, 'u'};
    }});
    o.push_back({"Create(U of first,another tag)", [](W& w) { if (!w.uniq || w.rs.empty()) return; VaultRecordRef ref; auto res = w.v->CreateRecord(ref, {{"I", 99}, {"U", R::make({w.rs[0].u.rank, '#'})}}); ok(!res.IsOperationSuccess && res.ResultCode == VaultOperationResultCode::UniqueKeyValueAlredyInSet && res.Key == "U", "an equal unique value was accepted"); ok(!ref.IsValid(), "reference of the refused record is valid"); }});
    o.push_back({"first.SetData(U of last,another tag)", [](W& w) { if (!w.uniq || w.rs.empty()) return; V u{w.rs.back().u.rank, '%'}; auto res = w.rs[0].ref.SetData("U", R::make(u)); ok(res.IsOperationSuccess == (w.rs.size() == 1), "SetData(U) result"); if (w.rs.size() == 1) w.rs[0].u = u; }});
    o.push_back({"first.SetData(U,0w)", [](W& w) { if (!w.uniq || w.rs.empty()) return; for (size_t i = 1; i < w.rs.size(); ++i) if (w.rs[i].u.rank == 0) { ok(!w.rs[0].ref.SetData("U", R::make({0, 'w'})).IsOperationSuccess, "an equal unique value was accepted"); return; } ok(w.rs[0].ref.SetData("U", R::make({0, 'w'})).IsOperationSuccess, "SetData(U) failed"); w.rs[0].u = {0, 'w'}; }});
    return o;
}
static void decode(size_t i, size_t n, std::vector<size_t>& seq) { size_t len = 0, cnt = 1; while (i >= cnt) { i -= cnt; cnt *= n; ++len; } seq.resize(len); for (size_t k = len; k-- > 0;) { seq[k] = i % n; i /= n; } }
static size_t upTo(size_t a, int len) { size_t t = 0, c = 1; for (int i = 0; i <= len; ++i) { t += c; c *= a; } return t; }
static void clean(const std::string& at) { if (!g_err.empty()) { std::string e = g_err; g_err.clear(); fail(at + ": " + e); } }
template <class T> static void section(Enumerator& e, const std::string& nm, int depth, const std::vector<size_t>& start)
{
    static const auto ops = operations<T>(); size_t n = upTo(ops.size(), depth), ch = 50;
    auto show = [=](size_t k) { std::vector<size_t> q; decode(k, ops.size(), q); std::string o; for (size_t x : start) o += ops[x].nm + "; "; o += "| "; for (size_t x : q) o += ops[x].nm + "; "; return o; };
    e.secs.push_back({nm, (n + ch - 1) / ch, [=](size_t i)
    {
        unsigned long nt = 0; for (size_t k = i * ch; k < std::min(n, (i + 1) * ch); ++k)
        {
            std::vector<size_t> q; decode(k, ops.size(), q); g_live.clear(); g_err.clear();
            try { { World<T> w; for (size_t x : start) ops[x].run(w); for (size_t x : q) ops[x].run(w); w.look(); clean("after the operations"); nt += !w.rs.empty(); } clean("destruction"); ok(g_live.empty(), std::to_string(g_live.size()) + " values never destroyed"); }
            catch (Violation& v) { throw Violation{show(k) + v.msg}; }
        }
        evals(std::min(n, (i + 1) * ch) - i * ch, nt);
    }, [=](size_t i) { return "histories from " + show(i * ch) + "on"; }, "every history of up to " + std::to_string(depth) + " of " + std::to_string(ops.size()) + " operations", 60, 1});
}
int main(int argc, char** argv)
{
    std::cerr.setstate(std::ios::badbit); Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        const int d = (g_thorough ? 5 : 4) - (SHRINK ? 2 : 0), d2 = (g_thorough ? 4 : 3) - SHRINK;
        section<Full>(e, "user type with text conversion, from empty", d, {});
        section<Full>(e, "user type with text conversion, from three records, a unique key and a set", d, {0, 1, 19, 2, 16});
        section<Bare>(e, "user type without text conversion, from two records and a set", d2, {1, 2, 16});
        section<En>(e, "scoped enumeration, from empty", d2, {});
    });
}
