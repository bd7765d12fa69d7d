// C10: every failed call reports its exact reason and changes nothing.
#include "profiles.hpp"
#include <set>
#include <variant>
#include <functional>
using namespace mc; using namespace mc::ops;
// A failing read must leave its output alone and never reinterpret the data, whatever the wrong type is.
template <class T, class Box> static void wrongType(Box& box, const std::string& n, const std::string& k, std::type_index saved, T keep)
{
    T out = keep; auto r = box.GetKeyValue(k, out); expectFull(r, RC::WrongType, k, typeid(T), saved, n + ".GetKeyValue(wrong type)"); ok(out == keep, n + ".GetKeyValue(wrong type) changed its output");
    VaultRecordRef ref; std::vector<VaultRecordRef> refs; VaultRecordSet rs;
    expectFull(box.GetRecord(k, keep, ref), RC::WrongType, k, typeid(T), saved, n + ".GetRecord(wrong type)"); ok(!ref.IsValid(), n + ".GetRecord(wrong type) set its output");
    expectFull(box.GetRecords(k, keep, refs), RC::WrongType, k, typeid(T), saved, n + ".GetRecords(wrong type)"); ok(refs.empty(), n + ".GetRecords(wrong type) filled its output");
    expectFull(box.RequestEqual(k, keep, rs), RC::WrongType, k, typeid(T), saved, n + ".RequestEqual(wrong type)"); eq(rs.Size(), size_t(0), n + ".RequestEqual(wrong type) result");
    expectFull(box.RequestGreater(k, keep, rs), RC::WrongType, k, typeid(T), saved, n + ".RequestGreater(wrong type)");
    expectFull(box.RequestLessOrEqual(k, keep, rs), RC::WrongType, k, typeid(T), saved, n + ".RequestLessOrEqual(wrong type)");
    expectFull(box.RequestInterval(k, keep, keep, rs), RC::WrongType, k, typeid(T), saved, n + ".RequestInterval(wrong type)");
    expectFull(box.Request(Equal(k, keep), rs), RC::WrongType, k, typeid(T), saved, n + ".Request(Equal, wrong type)"); eq(rs.Size(), size_t(0), n + ".Request(wrong type) result");
}
template <class Box> static void wrongKey(Box& box, const std::string& n)
{
    int out = 77; VaultRecordRef ref; std::vector<VaultRecordRef> refs; VaultRecordSet rs; std::type_index ti = typeid(float);
    expectFull(box.GetKeyValue("Z", out), RC::WrongKey, "Z", typeid(int), typeid(void), n + ".GetKeyValue(unknown key)"); eq(out, 77, n + ".GetKeyValue(unknown key) output");
    ok(!box.GetKeyType("Z", ti), n + ".GetKeyType(unknown key)"); ok(ti == typeid(float), n + ".GetKeyType(unknown key) changed its output");
    expectFull(box.GetRecord("Z", 1, ref), RC::WrongKey, "Z", typeid(int), typeid(void), n + ".GetRecord(unknown key)");
    expectFull(box.GetRecords("Z", std::string("x"), refs), RC::WrongKey, "Z", typeid(std::string), typeid(void), n + ".GetRecords(unknown key)");
    expectFull(box.RequestEqual("Z", 1, rs), RC::WrongKey, "Z", typeid(int), typeid(void), n + ".RequestEqual(unknown key)"); eq(rs.Size(), size_t(0), n + ".RequestEqual(unknown key) result");
    expectFull(box.RequestGreaterOrEqual("Z", 1, rs), RC::WrongKey, "Z", typeid(int), typeid(void), n + ".RequestGreaterOrEqual(unknown key)");
    expectFull(box.RequestLess("Z", 1, rs), RC::WrongKey, "Z", typeid(int), typeid(void), n + ".RequestLess(unknown key)");
    expectFull(box.RequestInterval("Z", 1, 2, rs), RC::WrongKey, "Z", typeid(int), typeid(void), n + ".RequestInterval(unknown key)");
    expectFull(box.Request(GreaterOrEqual("Z", 1), rs), RC::WrongKey, "Z", typeid(int), typeid(void), n + ".Request(GreaterOrEqual, unknown key)");
    expectCode(box.Request(And(Less("Z", 1), Equal("Z", 2)), rs), RC::WrongKey, n + ".Request(And, unknown key)"); eq(rs.Size(), size_t(0), n + ".Request(And, unknown key) result");
    ok(box.GetSortedRecords("Z").empty(), n + ".GetSortedRecords(unknown key)"); ok(!box.IsKeyExist("Z"), n + ".IsKeyExist(unknown key)");
    bool called = false; box.SortBy("Z", [&](const VaultRecordRef&) { called = true; return true; }); ok(!called, n + ".SortBy(unknown key) called its function");
}
template <class Box> static void all(Box& box, const std::string& n, const std::vector<Key>& keys)
{
    wrongKey(box, n);
    for (auto& k : keys)
    {
        if (k.uniq) { int i = 77; std::string s = "keep"; if (k.t == INT) { expectFull(box.GetKeyValue(k.name, i), RC::UniqueKey, k.name, typeid(int), typeid(int), n + ".GetKeyValue(unique key)"); eq(i, 77, n + ".GetKeyValue(unique key) output"); } continue; }
        wrongType<unsigned>(box, n, k.name, tix(k.t), 1u); wrongType<float>(box, n, k.name, tix(k.t), 1.f);
        if (k.t != INT) wrongType<int>(box, n, k.name, tix(k.t), 1);
        if (k.t != STR) wrongType<std::string>(box, n, k.name, tix(k.t), "1");
        wrongType<long long>(box, n, k.name, tix(k.t), 1LL);
    }
}
// Every And/Or tree of up to three requests of which some name an unknown key or a wrong type fails with the reason of one of those
// parts, whatever the other parts find, and succeeds when all are good.
using Node = std::variant<Equal, Greater, GreaterOrEqual, Less, LessOrEqual, And, Or>;
struct Part { Node n; std::string text; RC code; std::string key; std::type_index want, saved; };
static Node join(bool isOr, const Node& a, const Node& b) { return std::visit([&](const auto& x, const auto& y) -> Node { if (isOr) return Or(x, y); return And(x, y); }, a, b); }
template <class Box> static void trees(Box& box, const std::string& n, const Key& k)
{
    const std::string& a = k.name; auto vd = std::type_index(typeid(void)); auto ti = tix(k.t);
    auto badKey = [&](Node q, const std::string& t, std::type_index w) { return Part{q, t, RC::WrongKey, "Z", w, vd}; };
    auto badType = [&](Node q, const std::string& t, std::type_index w) { return Part{q, t, RC::WrongType, a, w, ti}; };
    auto good = [&](Node q, const std::string& t) { return Part{q, t, RC::Success, "", vd, vd}; };
    std::vector<Part> l{good(GreaterOrEqual(a, -100), "all"), good(Equal(a, 1), "some"), good(Equal(a, 99), "none"), good(Less(a, -100), "less than all"), good(Greater(a, 1), "greater"),
        badKey(Equal("Z", 1), "Z==1", typeid(int)), badKey(Less("Z", 1), "Z<1", typeid(int)), badKey(GreaterOrEqual("Z", std::string("x")), "Z>=x", typeid(std::string)),
        badType(Greater(a, std::string("x")), "A>text", typeid(std::string)), badType(LessOrEqual(a, 2u), "A<=2u", typeid(unsigned)), badType(Equal(a, 1.5), "A==1.5", typeid(double))};
    auto check = [&](const Node& q, std::initializer_list<size_t> parts, const std::string& shape)
    {
        VaultRecordSet rs; auto res = std::visit([&](const auto& x) { return box.Request(x, rs); }, q); bool bad = false, hit = false;
        for (size_t i : parts) if (l[i].code != RC::Success) { bad = true; if (res.ResultCode == l[i].code && res.Key == l[i].key && res.RequestedType == l[i].want && res.SavedType == l[i].saved) hit = true; }
        auto at = [&] { std::string t = n + ".Request(" + shape + " of"; for (size_t i : parts) t += " [" + l[i].text + "]"; return t + ")"; };
        if (bad && (res.IsOperationSuccess || !hit)) fail(at() + ": result " + res.ResultCodeString() + " key " + res.Key);
        if (bad && rs.Size()) fail(at() + ": a failed request filled its result");
        if (!bad && (!res.IsOperationSuccess || res.ResultCode != RC::Success)) fail(at() + ": result " + res.ResultCodeString() + " key " + res.Key);
    };
    for (size_t x = 0; x < l.size(); ++x) for (size_t y = 0; y < l.size(); ++y) for (int o1 = 0; o1 < 2; ++o1)
    {
        Node xy = join(o1, l[x].n, l[y].n); check(xy, {x, y}, o1 ? "or" : "and");
        for (size_t z = 0; z < l.size(); ++z) for (int o2 = 0; o2 < 2; ++o2)
        {
            if (l[x].code == RC::Success && l[y].code == RC::Success && l[z].code == RC::Success) continue;
            check(join(o2, xy, l[z].n), {x, y, z}, std::string("(") + (o1 ? "or" : "and") + ") " + (o2 ? "or" : "and"));
            check(join(o2, l[z].n, xy), {z, x, y}, std::string(o2 ? "or" : "and") + " (" + (o1 ? "or" : "and") + ")");
        }
    }
}
// once for every different content of a box
template <class Box> static void treesOnce(Box& box, const std::string& n, const std::vector<Key>& keys)
{
    static std::set<std::string> seen; std::string sig = n.substr(0, 1); const Key* key = nullptr;
    for (auto& k : keys) if (k.t == INT && !k.uniq) { key = &k; break; }
    if (!key) return;
    sig += key->name; for (auto& r : box.GetSortedRecords(key->name)) { int x = 0; r.GetData(key->name, x); sig += " " + std::to_string(x); }
    if (seen.insert(sig).second) trees(box, n, *key);
}
static void refuse(World& w, Model& m, Obs& o)
{
    for (size_t i = 0; i < w.v.size(); ++i) if (m.v[i].alive) treesOnce(*w.v[i], "v" + std::to_string(i), m.v[i].keys);
    for (size_t i = 0; i < w.s.size(); ++i) if (m.s[i].exists && m.s[i].parent >= 0) treesOnce(*w.s[i], "s" + std::to_string(i), m.v[m.s[i].parent].keys);
    for (size_t i = 0; i < w.v.size(); ++i) if (m.v[i].alive) all(*w.v[i], "v" + std::to_string(i), m.v[i].keys);
    for (size_t i = 0; i < w.s.size(); ++i) if (m.s[i].exists && m.s[i].parent >= 0) all(*w.s[i], "s" + std::to_string(i), m.v[m.s[i].parent].keys);
    for (size_t i = 0; i < w.r.size(); ++i) if (m.valid(i))
    {
        auto& keys = m.v[m.recs[m.r[i].rec].vault].keys; std::string n = "r" + std::to_string(i);
        for (auto& k : keys)
        {
            expectFull(w.r[i].SetData(k.name, 1u), RC::WrongType, k.name, typeid(unsigned), tix(k.t), n + ".SetData(wrong type)");
            expectFull(w.r[i].SetData(k.name, 'c'), RC::WrongType, k.name, typeid(char), tix(k.t), n + ".SetData(wrong type)");
            expectFull(w.r[i].SetData({{k.name, 1.f}}), RC::WrongType, k.name, typeid(float), tix(k.t), n + ".SetData({wrong type})");
            unsigned u = 77; expectFull(w.r[i].GetData(k.name, u), RC::WrongType, k.name, typeid(unsigned), tix(k.t), n + ".GetData(wrong type)"); eq(u, 77u, n + ".GetData(wrong type) output");
        }
        expectFull(w.r[i].SetData("Z", 1), RC::WrongKey, "Z", typeid(int), typeid(void), n + ".SetData(unknown key)");
        std::string s = "keep"; expectCode(w.r[i].GetDataAsString("Z", s), RC::WrongKey, n + ".GetDataAsString(unknown key)"); eq(s, std::string("keep"), n + ".GetDataAsString(unknown key) output");
    }
    o.all();   // none of the refused calls changed anything
}
int main(int argc, char** argv)
{
    Explorer e;
    OpList keys{addKey(0, "A", 0), addKey(0, "B", "")};
    {
        Profile p; p.name = "vault"; p.nv = 1; p.ns = 1; p.nr = 3; p.depth = 3; p.thoroughDepth = 4; p.extra = refuse; p.obs.names = {"A", "B", "U", "Z"}; p.obs.requests = false;
        p.inits = {{"2 records and a set", keys + OpList{addUnique(0, "U", INT), create(0, {{"A", 1}, {"U", 1}}, 0), create(0, {{"A", 2}, {"U", 2}}, 1), request(0, 0, "A", 1, 0)}}};
        p.alpha = {create(0, {{"A", 3}, {"Z", 1}}, 0), create(0, {{"Z", 1}, {"A", "x"}}), create(0, {{"A", 3}, {"B", 1}}, 2), create(0, {{"A", 3}, {"U", 1}}, 0), create(0, {{"U", "a"}}), create(0, {{"U", 3}, {"A", 1}}, 2), set(0, "A", "x"), set(0, "Z", 1), set(0, "U", 2), set(2, "A", 1),
                   setMany(0, {{"A", 3}, {"Z", 1}, {"B", "b"}}), setMany(0, {{"A", 3}, {"B", 2}, {"A", 0}}), setMany(1, {{"B", "b"}, {"U", 1}, {"A", 3}}), setMany(2, {{"A", 1}}), setMany(0, {}), eraseKV(0, "Z", 1, -1), eraseKV(0, "A", "a", -1), eraseKV(0, "A", 3, -1), eraseKV(0, "A", 3, -2), eraseKV(0, "B", 1, -2), eraseKV(0, "A", 1, -1),
                   eraseRef(0, 2), eraseRef(0, 0), addKey(0, "A", "x"), addUnique(0, "A", INT), addUnique(0, "C", STR), addUniqueFn(0, "A", 0), addUniqueFn(0, "C", 1), updateKey(0, "Z", 1), updateKey(0, "B", 1), updateKey(0, "U", 1), removeKey(0, "Z"), removeKey(0, "B")};
        e.profs.push_back(p);
    }
    {
        Profile p; p.name = "set"; p.nv = 2; p.ns = 2; p.nr = 3; p.depth = 3; p.thoroughDepth = 4; p.extra = refuse; p.obs.names = {"A", "B", "Z"}; p.obs.requests = false;
        p.inits = {{"set, detached set, reference into another vault", keys + OpList{addKey(1, "A", 0), create(0, {{"A", 1}}, 0), create(0, {{"A", 2}}), create(1, {}, 1), request(0, 0, "A", 1, 0)}}};
        p.alpha = {addRecord(0, 0), addRecord(0, 1), addRecord(0, 2), addRecord(1, 0), removeRef(0, 1), removeRef(0, 2), removeRef(1, 0), removeRef(0, 0), removeKV(0, "Z", 1, -1), removeKV(0, "A", "x", -1), removeKV(0, "A", 2, -1), removeKV(0, "A", 3, -2), removeKV(0, "B", 1, -2), removeKV(1, "A", 1, -1), removeKV(1, "A", 1, -2),
                   setRequest(0, 0, "Z", 1, 1), setRequest(0, 1, "A", "x", 1), setRequest(1, 2, "A", 1, 0), setRequest(0, 0, "A", 1, 0), request(0, 0, "Z", 1, 0), request(0, 3, "A", "x", 0), request(1, 0, "A", 0, 1), setGetRecord(0, "Z", 1, 2), setGetRecord(0, "A", "x", 2), setGetRecord(0, "A", 2, 2), setGetRecord(1, "A", 1, 2), getRecord(0, "Z", 1, 2), getRecord(0, "A", "x", 0), getRecord(0, "A", 3, 2),
                   eraseRef(0, 1), eraseRef(1, 0), eraseRef(0, 0)};
        e.profs.push_back(p);
    }
    {   // every list of up to four parameters over good and bad ones, for new records and for changes
        Profile p; p.name = "parameter lists"; p.nv = 1; p.ns = 1; p.nr = 2; p.depth = 1; p.thoroughDepth = 1; p.extra = refuse; p.obs.names = {"A", "B", "U", "Z"}; p.obs.requests = false;
        p.inits = {{"no unique key", keys + OpList{create(0, {{"A", 1}}, 0), create(0, {{"A", 2}}), request(0, 0, "A", 1, 0)}},
                   {"U unique", keys + OpList{addUnique(0, "U", INT), create(0, {{"A", 1}, {"U", 1}}, 0), create(0, {{"A", 2}, {"U", 2}}), request(0, 0, "A", 1, 0)}}};
        const Params items{{"A", 3}, {"A", "x"}, {"B", "q"}, {"B", 1}, {"Z", 1}, {"U", 9}, {"U", 2}};
        std::function<void(Params)> grow = [&](Params l) { p.alpha.push_back(create(0, l, 1)); p.alpha.push_back(setMany(0, l)); if (l.size() < 4) for (auto& i : items) { Params n = l; n.push_back(i); grow(n); } };
        grow({});
        e.profs.push_back(p);
    }
    return e.run(argc, argv);
}
