// C07: a copied vault is an equal, independent vault.
#include "profiles.hpp"
using namespace mc; using namespace mc::ops;
int main(int argc, char** argv)
{
    Explorer e;
    OpList src{addKey(0, "A", 0), addKey(0, "B", "b"), addUnique(0, "U", INT), create(0, {{"A", 1}, {"B", "a"}, {"U", 1}}, 0), create(0, {{"A", 1}, {"U", 2}}, 1)};
    OpList dst{addKey(1, "B", 7), create(1, {{"B", 3}}, 2), request(1, 2, "B", 0, 1)};
    Profile p; p.name = "copy"; p.nv = 2; p.ns = 2; p.nr = 3; p.depth = 3; p.thoroughDepth = 4; p.obs.names = {"A", "B", "U", "C", "Z"};
    p.inits = {{"source with unique key and set, empty target", src + OpList{request(0, 0, "A", 1, 0)}},
               {"source with two sets, empty target", src + OpList{request(0, 0, "A", 1, 0), request(0, 2, "A", 0, 1)}},
               {"source and filled target with sets", src + dst + OpList{request(0, 0, "A", 1, 0)}},
               {"already copied", src + dst + OpList{request(0, 0, "A", 1, 0), copyAssign(0, 1), getRecord(1, "U", 1, 2), request(1, 2, "A", 0, 1)}}};
    p.alpha = {copyAssign(0, 1), copyAssign(1, 0), copyAssign(0, 0), copyCtor(0, 1), copyCtor(1, 0), create(0, {{"U", 3}}, 1), create(1, {{"U", 3}}, 2), create(1, {{"U", 1}}, 2), set(0, "A", 2), set(2, "A", 3), set(2, "U", 2), set(0, "U", 3), eraseRef(0, 0), eraseRef(1, 2), eraseKV(1, "A", 1, -1), eraseKV(0, "A", 1, -2),
               addKey(1, "C", 5), addKey(0, "C", "x"), updateKey(0, "A", 3), updateKey(1, "A", 2), removeKey(0, "A"), removeKey(1, "U"), addUniqueFn(1, "C", 0), request(1, 0, "A", 1, 1), getRecord(1, "A", 1, 2), destroyVault(0), dropVault(1), dropData(0), clearSet(0), destroySet(1)};
    e.profs.push_back(p);
    {
        Profile q; q.name = "larger vaults"; q.nv = 2; q.ns = 4; q.nr = 3; q.depth = 2; q.thoroughDepth = 3; wideObs(q.obs);
        OpList sets{request(0, 2, "A", 0, 0), request(0, 0, "A", 2, 1), request(0, 1, "U", 5, 2)};
        q.inits = {{"37 records, ten keys, three sets; empty target", wide(0, 37, 2) + sets},
                   {"37 records and three sets; a target of 12 records and a set", wide(0, 37, 2) + sets + wide(1, 12, 1) + OpList{getRecord(1, "U", 3, 2), request(1, 2, "A", 0, 3)}}};
        q.alpha = {copyAssign(0, 1), copyAssign(1, 0), copyCtor(0, 1), copyCtor(1, 0), create(0, {{"U", 100}, {"V", "new"}, {"A", 2}}, 1), create(1, {{"U", 100}, {"V", "new"}, {"A", 2}}, 2), create(1, {{"U", 7}, {"V", "other"}}, 2), set(0, "A", 9), set(0, "U", 99), set(2, "V", "v0"), eraseRef(0, 0), eraseKV(1, "A", 3, -1), eraseKV(1, "A", 2, 2),
                   addKey(1, "Z", 5), updateKey(0, "A", 3), removeKey(1, "U"), removeKey(1, "k3"), removeKey(0, "k1"), request(1, 2, "A", 0, 3), getRecord(1, "U", 20, 2), dropVault(1), dropData(0), destroyVault(0), clearSet(1), destroySet(0)};
        e.profs.push_back(q);
    }
    return e.run(argc, argv);
}
