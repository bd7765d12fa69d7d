// C22: every sequence of holder and container operations against a value model; every stored object is tracked.
#include "enumx.hpp"
#include "MVault.h"
#include "DataContainer.h"
#include <iostream>
#include <map>
#include <memory>
using namespace mvlt; using namespace mc;
#ifdef MC_SMALL
constexpr int SHRINK = 1;
#else
constexpr int SHRINK = 0;
#endif
// Instance-counting value: remembers every live object, catches copies from and destruction of dead ones.
static std::vector<const void*> g_live; static std::string g_err;
static bool known(const void* p) { return std::find(g_live.begin(), g_live.end(), p) != g_live.end(); }
struct Cnt
{
    int v; Cnt(int x = 0) : v(x) { g_live.push_back(this); } Cnt(const Cnt& o) : v(o.v) { if (!known(&o)) g_err = "copied from a destroyed object"; g_live.push_back(this); }
    Cnt& operator=(const Cnt& o) { if (!known(&o) || !known(this)) g_err = "assignment with a destroyed object"; v = o.v; return *this; }
    ~Cnt() { auto it = std::find(g_live.begin(), g_live.end(), this); if (it == g_live.end()) g_err = "object destroyed twice"; else g_live.erase(it); v = -99; }
};
namespace mvlt { template <> std::string ToString(const Cnt& c) noexcept { return "cnt" + std::to_string(c.v); } template <> bool FromString(const std::string& s, Cnt& c) noexcept { if (s == "3") { c.v = 3; return true; } return false; } }
static std::vector<std::pair<int, int>> g_del;   // (deleter, value seen)
static void delA(const void* p) { g_del.emplace_back(1, p ? static_cast<const Cnt*>(p)->v : -1); if (p && !known(p)) g_err = "custom deleter got a destroyed object"; }
static void delB(const void* p) { g_del.emplace_back(2, p ? *static_cast<const int*>(p) : -1); }
using Fn = void (*)(const void*);
// ---- model value
struct MV { char t = 0; int i = 0; std::string s; int del = 0; bool operator==(const MV& o) const { return t == o.t && i == o.i && s == o.s && del == o.del; } };   // t: 0 empty, i int, s string, c Cnt
static std::string text(const MV& m) { return m.t == 'i' ? std::to_string(m.i) : m.t == 's' ? m.s : m.t == 'c' ? "cnt" + std::to_string(m.i) : ""; }
static MV V(char t, int i, std::string s, int del) { MV m; m.t = t; m.i = i; m.s = s; m.del = del; return m; }
static std::type_index tix(char t) { return t == 'i' ? typeid(int) : t == 's' ? typeid(std::string) : t == 'c' ? typeid(Cnt) : typeid(void); }
static void store(DataSaver& d, const MV& m)
{
    switch (m.t) { case 'i': m.del ? d.SetData(m.i, (Fn)delB) : d.SetData(m.i); break; case 's': d.SetData(m.s); break; case 'c': { Cnt c(m.i); m.del ? d.SetData(c, (Fn)delA) : d.SetData(c); break; } }
}
static void observe(const DataSaver& d, const MV& m, const std::string& at)
{
    ok(d.GetDataType() == tix(m.t), at + ": type is " + d.GetDataType().name()); if (d.Str() != text(m)) fail(at + ": Str() is \"" + d.Str() + "\" want \"" + text(m) + "\"");
    int i = -7; bool g = d.GetData(i); ok(g == (m.t == 'i') && i == (g ? m.i : -7), at + ": GetData<int> gives " + std::to_string(g) + "," + std::to_string(i));
    std::string s = "-7"; g = d.GetData(s); ok(g == (m.t == 's') && s == (g ? m.s : "-7"), at + ": GetData<string> gives " + std::to_string(g) + "," + s);
    Cnt c(-7); g = d.GetData(c); ok(g == (m.t == 'c') && c.v == (g ? m.i : -7), at + ": GetData<Cnt> gives " + std::to_string(g) + "," + std::to_string(c.v));
    long l = -7; ok(!d.GetData(l) && l == -7, at + ": GetData<long> accepted");
}
static const std::string LONG = "a string too long for the small buffer";
// ---- holder section
struct H { std::unique_ptr<DataSaver> d[3]; MV m[3]; std::vector<std::pair<int, int>> del; };
struct HOp { std::string nm; std::function<void(H&)> run; };
static std::vector<HOp> holderOps()
{
    std::vector<HOp> o; auto n = [](int i) { return std::string(1, "xyz"[i]); };
    std::vector<MV> vals{V('i', 1, "", 0), V('s', 0, LONG, 0), V('c', 1, "", 0), V('c', 2, "", 1), V('i', 2, "", 2)}; std::vector<std::string> nm{"1", "long string", "Cnt 1", "Cnt 2 with deleter", "2 with deleter"};
    for (int i = 0; i < 3; ++i)
    {
        for (size_t k = 0; k < vals.size(); ++k) if (i < 2 || k == 2 || k == 4) { MV v = vals[k]; o.push_back({n(i) + ".SetData(" + nm[k] + ")", [=](H& h) { store(*h.d[i], v); h.m[i] = v; }}); }
        for (int j = 0; j < 3; ++j)
        {
            o.push_back({n(i) + "=" + n(j), [=](H& h) { DataSaver& b = *h.d[j]; *h.d[i] = b; if (i != j) h.m[i] = h.m[j]; }});
            if (i != j) o.push_back({n(i) + "=copy of " + n(j), [=](H& h) { std::unique_ptr<DataSaver> c(new DataSaver(*h.d[j])); h.d[i] = std::move(c); h.m[i] = h.m[j]; }});
            if (i <= j) o.push_back({n(i) + ".Swap(" + n(j) + ")", [=](H& h) { h.d[i]->Swap(*h.d[j]); std::swap(h.m[i], h.m[j]); }});
        }
        o.push_back({n(i) + ".ResetData()", [=](H& h) { h.d[i]->ResetData(); if (h.m[i].del) h.del.emplace_back(h.m[i].del, h.m[i].i); h.m[i] = MV(); }});
        if (i < 2) o.push_back({n(i) + ".SetDataFromString(3)", [=](H& h) { bool g = h.d[i]->SetDataFromString("3"); ok(g == (h.m[i].t != 0), "SetDataFromString result"); if (h.m[i].t == 's') h.m[i].s = "3"; else if (h.m[i].t) h.m[i].i = 3; }});
        if (i < 1) o.push_back({n(i) + ".SetDataFromString(x)", [=](H& h) { bool g = h.d[i]->SetDataFromString("x"); ok(g == (h.m[i].t == 's'), "SetDataFromString result"); if (h.m[i].t == 's') h.m[i].s = "x"; }});
        if (i < 1) { o.push_back({n(i) + "=new holder(Cnt 4, deleter)", [=](H& h) { h.d[i].reset(new DataSaver(Cnt(4), (Fn)delA)); h.m[i] = V('c', 4, "", 1); }}); o.push_back({n(i) + "=new holder(5)", [=](H& h) { h.d[i].reset(new DataSaver(5)); h.m[i] = V('i', 5, "", 0); }}); o.push_back({n(i) + "=new holder", [=](H& h) { h.d[i].reset(new DataSaver); h.m[i] = MV(); }}); }
    }
    return o;
}
// ---- container section: keys p, q
template <class C, bool MULTI> struct Box
{
    using M = std::map<std::string, std::vector<MV>>;
    std::unique_ptr<C> c{new C}, c2; M m, m2; std::vector<std::pair<int, int>> del; DataSaver ds;
    struct Op { std::string nm; std::function<void(Box&)> run; };
    static std::vector<MV> now(C& c, const std::string& k)
    {
        std::vector<MV> o; for (auto it = c.begin(); it != c.end(); ++it) if (it->first == k) { MV m; auto t = it->second.GetDataType(); if (t == typeid(int)) { m.t = 'i'; it->second.GetData(m.i); } else if (t == typeid(std::string)) { m.t = 's'; it->second.GetData(m.s); } else if (t == typeid(Cnt)) { m.t = 'c'; Cnt x; it->second.GetData(x); m.i = x.v; } o.push_back(m); } return o;
    }
    static bool eqv(MV a, MV b) { a.del = b.del = 0; return a == b; }
    static bool sameBag(std::vector<MV> a, const std::vector<MV>& b) { if (a.size() != b.size()) return false; for (auto& x : b) { bool f = false; for (size_t i = 0; i < a.size() && !f; ++i) if (eqv(a[i], x)) { a.erase(a.begin() + i); f = true; } if (!f) return false; } return true; }
    // one unspecified element of key k was changed by f: find which
    void choose(const std::string& k, const std::function<void(std::vector<MV>&, size_t)>& f, const std::string& at, const std::function<bool(const MV&)>& extra = [](const MV&) { return true; })
    {
        auto real = now(*c, k); auto old = m[k]; for (size_t i = 0; i < old.size(); ++i) { auto v = old; if (!extra(old[i])) continue; f(v, i); if (sameBag(real, v)) { m[k] = v; return; } } fail(at + ": container differs from every possible outcome");
    }
    void add(const std::string& k, const MV& v) { if (MULTI || m[k].empty()) m[k].push_back(v); }
    static std::vector<Op> ops()
    {
        std::vector<Op> o; std::vector<MV> vals{V('i', 1, "", 0), V('c', 1, "", 0), V('c', 2, "", 1), V('s', 0, LONG, 0)}; std::vector<std::string> nm{"1", "Cnt 1", "Cnt 2 with deleter", "long string"};
        for (std::string k : {"p", "q"}) for (size_t j = 0; j < vals.size(); ++j)
        {
            if (k == "q" && j > 1) continue; MV v = vals[j]; std::string a = "(" + k + "," + nm[j] + ")";
            o.push_back({"AddData" + a, [=](Box& b) { switch (v.t) { case 'i': b.c->AddData(k, v.i); break; case 's': b.c->AddData(k, v.s); break; case 'c': v.del ? b.c->AddData(k, Cnt(v.i), (Fn)delA) : b.c->AddData(k, Cnt(v.i)); } b.add(k, v); }});
            o.push_back({"SetData" + a, [=](Box& b) { switch (v.t) { case 'i': b.c->SetData(k, v.i); break; case 's': b.c->SetData(k, v.s); break; case 'c': v.del ? b.c->SetData(k, Cnt(v.i), (Fn)delA) : b.c->SetData(k, Cnt(v.i)); } if (b.m[k].empty()) b.add(k, v); else b.choose(k, [&](std::vector<MV>& w, size_t i) { w[i] = v; }, "SetData" + a); }});
        }
        for (std::string k : {"p", "q"})
        {
            o.push_back({"EraseData(" + k + ")", [=](Box& b) { size_t n = g_del.size(); b.c->EraseData(k); if (b.m[k].empty()) return; b.choose(k, [](std::vector<MV>& w, size_t i) { w.erase(w.begin() + i); }, "EraseData", [&](const MV& x) { return x.del ? g_del.size() == n + 1 && g_del.back() == std::make_pair(x.del, x.i) : g_del.size() == n; }); b.del.assign(g_del.begin(), g_del.end()); }});
            o.push_back({"AddDataFromDataSaver(" + k + ")", [=](Box& b) { DataSaver d(Cnt(6)); b.c->AddDataFromDataSaver(k, d); b.add(k, V('c', 6, "", 0)); }});
            o.push_back({"SetDataFromDataSaver(" + k + ",empty)", [=](Box& b) { DataSaver d; b.c->SetDataFromDataSaver(k, d); if (b.m[k].empty()) b.add(k, MV()); else b.choose(k, [&](std::vector<MV>& w, size_t i) { w[i] = MV(); }, "SetDataFromDataSaver"); }});
            o.push_back({"SetDataFromDataSaver(" + k + ",string)", [=](Box& b) { DataSaver d(LONG); b.c->SetDataFromDataSaver(k, d); if (b.m[k].empty()) b.add(k, V('s', 0, LONG, 0)); else b.choose(k, [&](std::vector<MV>& w, size_t i) { w[i] = V('s', 0, LONG, 0); }, "SetDataFromDataSaver"); }});
        }
        o.push_back({"Clear()", [](Box& b) { b.c->Clear(); b.m.clear(); }});
        o.push_back({"c2=copy of c", [](Box& b) { b.c2.reset(new C(*b.c)); b.m2 = b.m; }});
        o.push_back({"c=c2", [](Box& b) { if (b.c2) { *b.c = *b.c2; b.m = b.m2; } }});
        o.push_back({"swap names", [](Box& b) { if (b.c2) { std::swap(b.c, b.c2); std::swap(b.m, b.m2); } }});
        return o;
    }
    static void look(C& c, M& m, const std::string& nm)
    {
        size_t total = 0; for (std::string k : {"p", "q", "none"})
        {
            auto it = m.find(k); static const std::vector<MV> no; auto& w = it == m.end() ? no : it->second; total += w.size(); std::string at = nm + "[" + k + "]";
            ok(sameBag(now(c, k), w), at + ": contents differ"); ok(c.IsData(k) == !w.empty(), at + ": IsData"); std::string s = "-"; bool g = c.GetDataAsString(k, s); ok(g == !w.empty(), at + ": GetDataAsString result"); if (!g) ok(s == "-", at + ": GetDataAsString changed its output");
            int i = -7; g = c.GetData(k, i); ok(g == !w.empty(), at + ": GetData result"); DataSaver d; g = c.GetDataSaver(k, d); ok(g == !w.empty(), at + ": GetDataSaver result");
            if (!MULTI) { MV v = w.empty() ? MV() : w[0]; ok(i == (v.t == 'i' ? v.i : -7), at + ": GetData<int> gives " + std::to_string(i)); if (!w.empty()) ok(s == text(v), at + ": GetDataAsString gives " + s); observe(d, v, at); std::string t = "-7"; c.GetData(k, t); ok(t == (v.t == 's' ? v.s : "-7"), at + ": GetData<string>"); Cnt x(-7); c.GetData(k, x); ok(x.v == (v.t == 'c' ? v.i : -7), at + ": GetData<Cnt>"); }
            if constexpr (MULTI) { auto r = c.GetAllData(k); size_t n = 0; for (auto q = r.first; q != r.second; ++q) { ok(q->first == k, at + ": GetAllData returns another key"); ++n; } ok(n == w.size(), at + ": GetAllData size"); }
        }
        ok(c.Size() == total, nm + ": Size is " + std::to_string(c.Size())); size_t n = 0; for (auto it = c.cbegin(); it != c.cend(); ++it) ++n; ok(n == total, nm + ": iteration visits " + std::to_string(n));
    }
};
static size_t cnts(const std::map<std::string, std::vector<MV>>& m) { size_t n = 0; for (auto& x : m) for (auto& v : x.second) n += v.t == 'c'; return n; }
static void decode(size_t i, size_t n, std::vector<size_t>& seq) { size_t len = 0, cnt = 1; while (i >= cnt) { i -= cnt; cnt *= n; ++len; } seq.resize(len); for (size_t k = len; k-- > 0;) { seq[k] = i % n; i /= n; } }
static size_t upTo(size_t a, int len) { size_t t = 0, c = 1; for (int i = 0; i <= len; ++i) { t += c; c *= a; } return t; }
static void clean(const std::string& at) { if (!g_err.empty()) { std::string e = g_err; g_err.clear(); fail(at + ": " + e); } }
template <class C, bool MULTI> static void boxes(Enumerator& e, const std::string& nm, int depth)
{
    using B = Box<C, MULTI>; static const auto ops = B::ops(); size_t n = upTo(ops.size(), depth), ch = 400;
    auto show = [](size_t k) { std::vector<size_t> q; decode(k, ops.size(), q); std::string o; for (size_t x : q) o += ops[x].nm + "; "; return o; };
    e.secs.push_back({nm, (n + ch - 1) / ch, [=](size_t i)
    {
        unsigned long nt = 0; for (size_t k = i * ch; k < std::min(n, (i + 1) * ch); ++k)
        {
            std::vector<size_t> q; decode(k, ops.size(), q); g_live.clear(); g_err.clear(); g_del.clear();
            try { { B b; for (size_t x : q) ops[x].run(b); ok(g_del == b.del, "custom deleter calls differ"); B::look(*b.c, b.m, "c"); if (b.c2) B::look(*b.c2, b.m2, "c2"); clean("after the operations"); size_t want = cnts(b.m) + (b.c2 ? cnts(b.m2) : 0); ok(g_live.size() == want, std::to_string(g_live.size()) + " stored objects alive, want " + std::to_string(want)); nt += b.c->Size() > 0; } clean("destruction"); ok(g_live.empty(), std::to_string(g_live.size()) + " objects never destroyed"); }
            catch (Violation& v) { throw Violation{show(k) + v.msg}; }
        }
        evals(std::min(n, (i + 1) * ch) - i * ch, nt);
    }, [=](size_t i) { return "sequences from " + show(i * ch) + "on"; }, "every sequence of up to " + std::to_string(depth) + " of " + std::to_string(ops.size()) + " operations on two containers with two keys", 60, 1});
}
int main(int argc, char** argv)
{
    std::cerr.setstate(std::ios::badbit); Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        static const auto ops = holderOps(); const int depth = (g_thorough ? 5 : 4) - SHRINK; size_t n = upTo(ops.size(), depth), ch = 2000; auto show = [](size_t k) { std::vector<size_t> q; decode(k, ops.size(), q); std::string o; for (size_t x : q) o += ops[x].nm + "; "; return o; };
        e.secs.push_back({"holders", (n + ch - 1) / ch, [=](size_t i)
        {
            unsigned long nt = 0; for (size_t k = i * ch; k < std::min(n, (i + 1) * ch); ++k)
            {
                std::vector<size_t> q; decode(k, ops.size(), q); g_live.clear(); g_err.clear(); g_del.clear();
                try
                {
                    { H h; for (auto& d : h.d) d.reset(new DataSaver); for (size_t x : q) ops[x].run(h); ok(g_del == h.del, "custom deleter ran " + std::to_string(g_del.size()) + " times, want " + std::to_string(h.del.size()) + (g_del.size() == h.del.size() ? " on the same data" : "")); size_t want = 0; bool any = false; for (int j = 0; j < 3; ++j) { observe(*h.d[j], h.m[j], std::string("holder ") + "xyz"[j]); want += h.m[j].t == 'c'; any |= h.m[j].t; } clean("after the operations"); ok(g_live.size() == want, std::to_string(g_live.size()) + " stored objects alive, want " + std::to_string(want)); nt += any; }
                    clean("destruction"); ok(g_live.empty(), std::to_string(g_live.size()) + " objects never destroyed"); ok(g_del.size() <= q.size(), "custom deleter ran at destruction");
                }
                catch (Violation& v) { throw Violation{show(k) + v.msg}; }
            }
            evals(std::min(n, (i + 1) * ch) - i * ch, nt);
        }, [=](size_t i) { return "sequences from " + show(i * ch) + "on"; }, "every sequence of up to " + std::to_string(depth) + " of " + std::to_string(ops.size()) + " operations on three holders of plain, string, instance-counting and custom-deleted values", 60, 1});
        const int bd = (g_thorough ? 5 : 4) - SHRINK;
        boxes<DataHashMap, false>(e, "DataHashMap", bd); boxes<DataMap, false>(e, "DataMap", bd - 1); boxes<DataMultiMap, true>(e, "DataMultiMap", bd - (SHRINK ? 0 : 0)); boxes<DataMultiHashMap, true>(e, "DataMultiHashMap", bd - 1);
    });
}
