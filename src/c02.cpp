// C02: a unique key never holds a value twice, refused writes change nothing, accepted ones are accepted.
#include "profiles.hpp"
using namespace mc; using namespace mc::ops;
// The property stated directly, beside the model comparison.
static void uniqueHolds(World& w, Model& m, Obs&)
{
    for (size_t i = 0; i < w.v.size(); ++i) if (m.v[i].alive)
        for (auto& k : m.v[i].keys) if (k.uniq)
        {
            std::map<std::string, int> seen;
            for (auto& row : w.v[i]->ToStrings()) for (auto& f : row) if (f.first == k.name && seen[f.second]++) fail("two records of v" + std::to_string(i) + " hold " + k.name + "=" + f.second);
            for (auto& v : w.v[i]->GetUniqueKeys()) ok(m.v[i].key(v) && m.v[i].key(v)->uniq, "unknown unique key reported");
        }
}
int main(int argc, char** argv)
{
    Explorer e;
    {
        Profile p; p.name = "write"; p.nv = 1; p.nr = 3; p.depth = 4; p.extra = uniqueHolds; p.obs.names = {"A", "U", "W", "Z"};
        OpList keys{addKey(0, "A", 0), addUnique(0, "U", INT)};
        p.inits = {{"A shared, U unique", keys}, {"records U=0,1", keys + OpList{create(0, {}, 0), create(0, {{"U", 1}}, 1)}},
                   {"U and W unique, records (1,a) (2,b)", keys + OpList{addUnique(0, "W", STR), create(0, {{"U", 1}, {"W", "a"}}, 0), create(0, {{"U", 2}, {"W", "b"}}, 1)}}};
        p.alpha = {create(0, {}, 2), create(0, {{"U", 1}}, 0), create(0, {{"U", 2}, {"A", 1}}, 1), create(0, {{"W", "a"}, {"U", 3}}, 2), set(0, "U", 1), set(0, "U", 2), set(1, "U", 1), set(1, "U", 0), set(1, "W", "a"),
                   setMany(0, {{"A", 2}, {"U", 1}, {"A", 1}}), setMany(1, {{"U", 3}, {"W", "a"}}), eraseRef(0, 0), eraseKV(0, "U", 1, -1), eraseKV(0, "A", 0, -2), dropData(0), removeKey(0, "U"), addUnique(0, "U", INT)};
        e.profs.push_back(p);
    }
    {   // loading, generated values, copies, moves
        Profile p; p.name = "load-copy"; p.nv = 2; p.nr = 2; p.depth = 3; p.extra = uniqueHolds; p.obs.names = {"A", "U", "W", "Z"};
        OpList keys{addKey(0, "A", 0), addUnique(0, "U", INT)};
        p.inits = {{"empty, U unique", keys}, {"records (A,U)=(1,1) (2,2)", keys + OpList{create(0, {{"U", 1}, {"A", 1}}, 0), create(0, {{"U", 2}, {"A", 2}}, 1)}},
                   {"plain records A=1,1", {addKey(0, "A", 0), create(0, {{"A", 1}}, 0), create(0, {{"A", 1}}, 1)}}};
        p.alpha = {create(0, {{"U", 3}}, 0), create(1, {{"U", 3}}, 1), create(1, {{"U", 1}}, 1), create(1, {}, 0), set(0, "U", 2), set(0, "U", 3), set(1, "U", 1), readCsv(0, {"U", "A"}, {{Val(1), Val(1)}, {Val(3), Val(3)}, {Val(3), Val(2)}}),
                   readCsv(1, {"U"}, {{Val(2)}, {Val(2)}, {Val(0)}}), addUniqueFn(0, "U", 0), addUniqueFn(0, "U", 1), addUniqueFn(0, "W", 0), addUniqueFn(1, "W", 1), addUniqueFn(0, "W", 2), addUnique(0, "W", STR), copyAssign(0, 1), copyCtor(0, 1), moveAssign(0, 1), moveCtor(1, 0),
                   eraseRef(0, 0), eraseKV(1, "U", 2, -1), getRecord(1, "U", 1, 0), removeKey(0, "U"), dropVault(1)};
        e.profs.push_back(p);
    }
    {   // three unique keys: every choice of free and taken values for new, changed and loaded records
        Profile p; p.name = "three unique keys"; p.nv = 1; p.nr = 3; p.depth = 2; p.extra = uniqueHolds; p.obs.names = {"A", "U", "W", "Z"};
        p.inits = {{"records (1,a,1) (2,b,2)", {addKey(0, "A", 0), addUnique(0, "U", INT), addUnique(0, "W", STR), addUnique(0, "Z", INT), create(0, {{"U", 1}, {"W", "a"}, {"Z", 1}}, 0), create(0, {{"U", 2}, {"W", "b"}, {"Z", 2}}, 1)}}};
        const char* text[] = {"a", "b", "c"};
        for (int u = 0; u < 3; ++u) for (int w = 0; w < 3; ++w) for (int z = 0; z < 3; ++z)
        {
            Val U(u + 1), W(text[w]), Z(z + 1);
            p.alpha.push_back(create(0, {{"U", U}, {"W", W}, {"Z", Z}}, 2)); p.alpha.push_back(setMany(0, {{"Z", Z}, {"U", U}, {"W", W}}));
            p.alpha.push_back(readCsv(0, {"W", "Z", "U"}, {{W, Z, U}, {Val(text[2]), Val(3), Val(3)}}));
        }
        p.alpha = p.alpha + OpList{eraseRef(0, 0), removeKey(0, "W"), dropData(0)};
        e.profs.push_back(p);
    }
    {   // many records, two unique keys of different types
        Profile p; p.name = "larger"; p.nv = 2; p.nr = 3; p.depth = 2; p.thoroughDepth = 3; p.extra = uniqueHolds; wideObs(p.obs); p.obs.json = false;
        p.inits = {{"37 records, U and V unique", wide(0, 37, 2)}};
        p.alpha = {create(0, {{"U", 1}, {"V", "new"}}, 2), create(0, {{"U", 37}, {"V", "new"}}, 2), create(0, {{"U", 100}, {"V", "v36"}}, 2), create(0, {{"U", 100}, {"V", "new"}}, 2), create(0, {}, 2), set(0, "U", 1), set(0, "U", 37), set(0, "U", 100), set(1, "U", 19), set(1, "V", "v0"), set(1, "V", "v7"), set(1, "V", "new"), set(2, "U", 5), setMany(0, {{"U", 100}, {"V", "v8"}, {"A", 1}}),
                   readCsv(0, {"V", "U"}, {{Val("n1"), Val(50)}, {Val("v4"), Val(51)}, {Val("n1"), Val(52)}, {Val("n2"), Val(50)}, {Val("n3"), Val(53)}}), eraseRef(0, 0), eraseRef(0, 1), eraseKV(0, "U", 37, -1), eraseKV(0, "A", 1, -2), eraseKV(0, "V", "v7", -1), getRecord(0, "U", 20, 2), getRecord(0, "V", "v36", 2),
                   removeKey(0, "U"), removeKey(0, "V"), addUnique(0, "Z", INT), addUniqueFn(0, "Z", 0), addUniqueFn(0, "Z", 1), copyAssign(0, 1), moveAssign(0, 1), moveCtor(0, 1), create(1, {{"U", 20}, {"V", "new"}}, 2), create(1, {{"U", 100}, {"V", "new"}}, 2), dropData(0), dropVault(0)};
        e.profs.push_back(p);
    }
    return e.run(argc, argv);
}
