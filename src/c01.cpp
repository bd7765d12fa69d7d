// C01: every lookup path agrees with the stored records after any history.
#include "profiles.hpp"
using namespace mc; using namespace mc::ops;
int main(int argc, char** argv)
{
    Explorer e;
    {   // shared values on two non-unique keys of different types
        Profile p; p.name = "multi"; p.nv = 1; p.nr = 3; p.depth = 4;
        p.inits = {{"two keys", ab()},
                   {"3 records, A=1 shared by all", ab() + OpList{create(0, {{"A", 1}, {"B", "a"}}, 0), create(0, {{"A", 1}, {"B", "b"}}, 1), create(0, {{"A", 1}, {"B", "a"}}, 2)}},
                   {"records A=0,1,1", ab() + OpList{create(0, {{"A", 0}, {"B", "a"}}, 0), create(0, {{"A", 1}, {"B", "a"}}, 1), create(0, {{"A", 1}, {"B", "b"}}, 2)}}};
        p.alpha = {create(0, {{"A", 1}}, 0), create(0, {{"A", 0}, {"B", "a"}}, 1), create(0, {}, 2), set(0, "A", 0), set(0, "A", 1), set(1, "A", 2), set(0, "B", "a"), set(2, "B", "b"),
                   setMany(1, {{"B", "b"}, {"A", 1}}), eraseRef(0, 0), eraseRef(0, 1), eraseKV(0, "A", 1, -1), eraseKV(0, "A", 1, -2), eraseKV(0, "B", "a", 1), eraseKV(0, "A", 0, 2), dropData(0), updateKey(0, "A", 2), removeKey(0, "B"), addKey(0, "B", "a")};
        e.profs.push_back(p);
    }
    {   // a unique key beside a shared one
        Profile p; p.name = "unique"; p.nv = 1; p.nr = 3; p.depth = 3; p.thoroughDepth = 4; p.obs.names = {"A", "U", "Z"};
        p.inits = {{"A shared, U unique, records U=1,2,3", {addKey(0, "A", 0), addUnique(0, "U", INT), create(0, {{"A", 1}, {"U", 1}}, 0), create(0, {{"A", 1}, {"U", 2}}, 1), create(0, {{"A", 2}, {"U", 3}}, 2)}}};
        p.alpha = {create(0, {{"A", 1}}, 0), create(0, {{"U", 2}}, 1), set(0, "U", 0), set(0, "U", 2), set(1, "U", 1), set(1, "A", 2), set(2, "U", 1), setMany(0, {{"A", 0}, {"U", 2}}), setMany(2, {{"U", 0}, {"A", 1}}),
                   eraseRef(0, 0), eraseRef(0, 2), eraseKV(0, "U", 2, -1), eraseKV(0, "A", 1, -2), eraseKV(0, "A", 1, 1), eraseKV(0, "U", 3, -2), dropData(0), removeKey(0, "A"), removeKey(0, "U"),
                   addKey(0, "A", 1), updateKey(0, "A", 2), readCsv(0, {"A", "U"}, {{Val(1), Val(2)}, {Val(2), Val(0)}})};
        e.profs.push_back(p);
    }
    {   // many records
        Profile p; p.name = "bulk"; p.nv = 1; p.nr = 3; p.depth = 2; p.thoroughDepth = 3;
        p.inits = {{"40 records over 3 values", ab() + bulk(0, 40, 3, 3)}, {"9 records, one value", ab() + bulk(0, 9, 1, 3)}};
        p.alpha = {create(0, {{"A", 1}}, 0), set(0, "A", 1), set(0, "A", 3), set(1, "B", ""), setMany(2, {{"A", 3}, {"B", "a"}}), eraseRef(0, 0), eraseRef(0, 2), eraseKV(0, "A", 1, -1), eraseKV(0, "A", 0, -2),
                   eraseKV(0, "B", "a", 5), eraseKV(0, "A", 2, 0), eraseKV(0, "A", 0, 100), dropData(0), removeKey(0, "A"), addKey(0, "C", 1), addUniqueFn(0, "U", 0)};
        p.obs.names = {"A", "B", "C", "U", "Z"};
        e.profs.push_back(p);
    }
    {   // sizes beyond any small constant
        Profile p; p.name = "large"; p.nv = 1; p.nr = 3; p.depth = 1; p.thoroughDepth = 2; p.obs.names = {"A", "B", "C", "U", "Z"};
        p.inits = {{"300 records over 11 values", ab() + bulk(0, 300, 11, 3)}, {"300 records, one value", ab() + bulk(0, 300, 1, 3)}};
        p.alpha = {create(0, {{"A", 1}}, 0), set(0, "A", 1), set(1, "A", 300), setMany(2, {{"A", 0}, {"B", "a"}}), eraseRef(0, 0), eraseKV(0, "A", 0, -1), eraseKV(0, "A", 0, -2), eraseKV(0, "B", "a", 90), eraseKV(0, "A", 0, 299), eraseKV(0, "A", 0, 5), dropData(0), removeKey(0, "A"), addKey(0, "C", 1), addUniqueFn(0, "U", 0), updateKey(0, "A", 2)};
        e.profs.push_back(p);
    }
    {   // many keys
        Profile p; p.name = "wide"; p.nv = 1; p.nr = 2; p.depth = 2; p.thoroughDepth = 3; p.obs.names.clear(); OpList o;
        for (int i = 0; i < 24; ++i) { std::string k = std::string(1, 'A' + i); p.obs.names.push_back(k); o.push_back(addKey(0, k, i)); } p.obs.names.push_back("Z");
        for (int r = 0; r < 4; ++r) o.push_back(create(0, {{"A", r % 2}, {"L", r}, {"X", 7 - r}}, r < 2 ? r : -1));
        p.inits = {{"4 records, 24 keys", o}};
        p.alpha = {set(0, "X", 5), setMany(1, {{"A", 1}, {"M", 3}, {"W", 2}, {"X", 9}}), create(0, {{"X", 5}, {"C", 5}}, 0), eraseKV(0, "A", 1, -2), eraseKV(0, "Q", 16, 2), removeKey(0, "A"), removeKey(0, "X"), removeKey(0, "K"), addKey(0, "Z", 1), updateKey(0, "X", 2), dropData(0), eraseRef(0, 0)};
        e.profs.push_back(p);
    }
    return e.run(argc, argv);
}
