// C04: record sets stay synchronised with their parent vault.
#include "profiles.hpp"
using namespace mc; using namespace mc::ops;
int main(int argc, char** argv)
{
    Explorer e;
    OpList rec = ab() + OpList{create(0, {{"A", 1}, {"B", "a"}}, 0), create(0, {{"A", 1}, {"B", "b"}}, 1), create(0, {{"A", 2}, {"B", "a"}}, 2)};
    OpList sets{request(0, 2, "A", 1, 0), request(0, 0, "B", "a", 1)};
    {
        Profile p; p.name = "records"; p.nv = 1; p.ns = 2; p.nr = 3; p.depth = 4; p.thoroughDepth = 5; p.obs.names = {"A", "B", "Z"};
        p.inits = {{"3 records, s0=all, s1={B=a}", rec + sets}, {"3 records, no sets", rec}};
        p.alpha = {set(0, "A", 1), set(0, "A", 3), set(1, "A", 1), set(2, "B", "b"), setMany(1, {{"A", 2}, {"B", ""}}), create(0, {{"A", 1}}, 0), eraseRef(0, 0), eraseRef(0, 2), eraseKV(0, "A", 1, -1), eraseKV(0, "A", 1, -2), eraseKV(0, "B", "a", 1),
                   dropData(0), dropVault(0), request(0, 0, "A", 1, 0), request(0, 1, "A", 1, 1), request(0, 4, "B", "a", 0), setRequest(0, 1, "A", 0, 1), setRequest(1, 2, "B", "a", 0), addRecord(1, 1), addRecord(0, 0),
                   removeRef(0, 0), removeKV(0, "A", 1, -1), removeKV(0, "A", 1, -2), removeKV(1, "B", "a", 1), clearSet(0), resetSet(0), destroySet(0), newSet(0)};
        e.profs.push_back(p);
    }
    {
        Profile p; p.name = "keys"; p.nv = 1; p.ns = 2; p.nr = 3; p.depth = 4; p.thoroughDepth = 5; p.obs.names = {"A", "B", "C", "U", "Z"};
        p.inits = {{"3 records, s0=all, s1={B=a}", rec + sets}};
        p.alpha = {addKey(0, "C", 1), addKey(0, "C", "a"), addKey(0, "A", 3), addUniqueFn(0, "U", 0), addUniqueFn(0, "U", 1), removeKey(0, "A"), removeKey(0, "B"), removeKey(0, "C"), removeKey(0, "U"), updateKey(0, "A", 3), set(0, "C", 2), set(0, "U", 3), set(1, "A", 3), create(0, {}, 0), eraseRef(0, 0),
                   eraseKV(0, "C", 1, -1), removeRef(0, 1), removeKV(0, "C", 1, -1), removeKV(0, "U", 2, -1), addRecord(1, 1), request(0, 2, "C", 1, 1), algebra(0, 1, 0), clearSet(1), destroySet(1), newSet(1), dropVault(0), destroyVault(0), newVault(0)};
        e.profs.push_back(p);
    }
    {   // many members
        Profile p; p.name = "bulk"; p.nv = 1; p.ns = 2; p.nr = 3; p.depth = 2; p.thoroughDepth = 3; p.obs.names = {"A", "B", "C", "Z"};
        p.inits = {{"40 records over 3 values, s0=A>=1, s1=B<=a", ab() + bulk(0, 40, 3, 3) + OpList{request(0, 2, "A", 1, 0), request(0, 4, "B", "a", 1)}}};
        p.alpha = {set(1, "A", 0), set(2, "A", 3), setMany(1, {{"A", 3}, {"B", ""}}), create(0, {{"A", 2}}, 0), eraseRef(0, 1), eraseKV(0, "A", 1, -2), eraseKV(0, "B", "a", 5), dropData(0), removeKV(0, "A", 1, -2), removeKV(0, "A", 2, 5), removeKV(1, "B", "", 100),
                   removeRef(0, 1), addRecord(0, 0), algebra(0, 0, 1), algebra(1, 0, 1), algebra(2, 0, 1), removeKey(0, "A"), addKey(0, "C", 1), clearSet(0), setRequest(0, 3, "A", 2, 1), request(0, 2, "A", 0, 0)};
        e.profs.push_back(p);
    }
    {   // sizes beyond any small constant
        Profile p; p.name = "large"; p.nv = 1; p.ns = 6; p.nr = 3; p.depth = 1; p.thoroughDepth = 2; p.obs.names = {"A", "B", "C", "Z"};
        p.inits = {{"200 records over 7 values, six sets", ab() + bulk(0, 200, 7, 3) + OpList{request(0, 2, "A", 0, 0), request(0, 4, "A", 3, 1), request(0, 0, "A", 1, 2), request(0, 4, "B", "a", 3), request(0, 1, "A", 3, 4), request(0, 0, "A", 77, 5)}}};
        p.alpha = {set(0, "A", 3), set(2, "A", 300), setMany(1, {{"A", 6}, {"B", "b"}}), create(0, {{"A", 2}}, 0), eraseRef(0, 1), eraseKV(0, "A", 1, -2), eraseKV(0, "A", 0, -1), eraseKV(0, "B", "a", 50), dropData(0), dropVault(0), removeKV(0, "A", 1, -2), removeKV(0, "A", 2, 20), removeKV(3, "B", "", 100),
                   removeRef(0, 1), addRecord(5, 0), algebra(0, 1, 4), algebra(1, 2, 1), algebra(2, 0, 3), free3(true, 1, 4, 5), free3(false, 0, 3, 5), removeKey(0, "A"), addKey(0, "C", 1), clearSet(0), resetSet(1), destroySet(2), setRequest(0, 3, "A", 2, 5), updateKey(0, "A", 2)};
        e.profs.push_back(p);
    }
    return e.run(argc, argv);
}
