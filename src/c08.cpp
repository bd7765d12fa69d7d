// C08: moving vaults, copying and moving record sets.
#include "profiles.hpp"
using namespace mc; using namespace mc::ops;
int main(int argc, char** argv)
{
    Explorer e;
    OpList src{addKey(0, "A", 0), addUnique(0, "U", INT), create(0, {{"A", 1}, {"U", 1}}, 0), create(0, {{"A", 2}, {"U", 2}}, 1)};
    OpList dst{addKey(1, "B", "x"), create(1, {}, 2)};
    {
        Profile p; p.name = "vaults"; p.nv = 2; p.ns = 2; p.nr = 3; p.depth = 3; p.thoroughDepth = 4; p.obs.names = {"A", "B", "U", "Z"};
        p.inits = {{"source with sets, empty target", src + OpList{request(0, 0, "A", 1, 0), request(0, 2, "A", 0, 1)}},
                   {"source and target both with a set", src + dst + OpList{request(0, 0, "A", 1, 0), request(1, 0, "B", "x", 1)}},
                   {"moved already", src + dst + OpList{request(0, 2, "A", 1, 0), moveAssign(0, 1)}}};
        p.alpha = {moveAssign(0, 1), moveAssign(1, 0), moveAssign(0, 0), moveCtor(0, 1), moveCtor(1, 0), create(0, {{"A", 2}}, 2), create(1, {{"A", 2}, {"U", 3}}, 2), create(1, {{"U", 1}}, 2), addKey(0, "A", 5), addKey(1, "B", 1), addUnique(0, "U", INT), set(0, "A", 3), set(0, "U", 2), set(1, "U", 3), eraseRef(1, 0), eraseRef(0, 0), eraseKV(1, "A", 2, -1),
                   request(0, 2, "A", 0, 1), request(1, 2, "A", 2, 1), setRequest(0, 2, "A", 0, 1), algebra(0, 0, 1), addRecord(0, 1), removeKV(0, "A", 1, -1), removeKey(1, "U"), updateKey(1, "A", 3), dropVault(0), dropData(1), destroyVault(0), destroyVault(1), newVault(0), copyAssign(1, 0)};
        e.profs.push_back(p);
    }
    {
        Profile p; p.name = "sets"; p.nv = 2; p.ns = 3; p.nr = 2; p.depth = 3; p.thoroughDepth = 4; p.obs.names = {"A", "U", "Z"};
        OpList o{addKey(1, "A", 0), create(1, {{"A", 3}})};
        p.inits = {{"s0={1} s1={1,2} s2 detached", src + o + OpList{request(0, 0, "A", 1, 0), request(0, 2, "A", 0, 1)}}, {"s0={1} s1 of other vault s2={2}", src + o + OpList{request(0, 0, "A", 1, 0), request(1, 2, "A", 0, 1), request(0, 0, "A", 2, 2)}}};
        p.alpha = {setCopy(0, 1), setCopy(1, 0), setCopy(2, 0), setCopy(0, 0), setCopy(0, 2), setCopyCtor(0, 1), setCopyCtor(2, 1), setMove(0, 1), setMove(1, 0), setMove(2, 0), setMove(0, 0), setMoveCtor(0, 2), setMoveCtor(2, 0), setMoveCtor(1, 0), set(0, "A", 2), set(1, "A", 1), eraseRef(0, 0), eraseKV(0, "A", 2, -1), create(0, {{"A", 1}, {"U", 3}}, 0),
                   removeKV(0, "A", 1, -1), removeKV(1, "A", 2, -1), addRecord(1, 0), addRecord(2, 1), request(0, 2, "A", 0, 0), request(1, 2, "A", 0, 2), clearSet(1), resetSet(0), destroySet(1), newSet(1), removeKey(0, "A"), algebra(0, 1, 0), dropVault(0), destroyVault(1)};
        e.profs.push_back(p);
    }
    {
        Profile p; p.name = "larger vaults"; p.nv = 2; p.ns = 5; p.nr = 4; p.depth = 2; p.thoroughDepth = 3; wideObs(p.obs);
        OpList sets{request(0, 2, "A", 0, 0), request(0, 0, "A", 2, 1), request(0, 1, "U", 5, 2)};
        p.inits = {{"37 records, ten keys, three sets; empty target", wide(0, 37, 2) + sets},
                   {"37 records and three sets; a target of 12 records and two sets", wide(0, 37, 2) + sets + wide(1, 12, 1) + OpList{getRecord(1, "U", 3, 2), request(1, 2, "A", 0, 3), request(1, 0, "A", 1, 4)}}};
        p.alpha = {moveAssign(0, 1), moveAssign(1, 0), moveCtor(0, 1), moveCtor(1, 0), setCopy(0, 1), setCopy(0, 3), setCopy(3, 1), setMove(0, 2), setMove(1, 4), setMoveCtor(0, 3), setCopyCtor(2, 4), create(0, {{"U", 100}, {"V", "new"}}, 2), create(1, {{"U", 100}, {"V", "new"}, {"A", 2}}, 3), create(1, {{"U", 7}, {"V", "other"}}, 3),
                   set(0, "A", 2), set(1, "U", 99), set(2, "V", "v1"), eraseRef(1, 0), eraseRef(0, 0), eraseKV(1, "A", 2, -1), addKey(0, "Z", 5), updateKey(1, "A", 3), removeKey(1, "U"), removeKey(1, "k1"), request(1, 2, "A", 1, 4), algebra(0, 0, 1), algebra(2, 0, 2), removeKV(0, "A", 1, -1),
                   dropVault(1), dropVault(0), dropData(1), destroyVault(0), destroyVault(1), clearSet(0), destroySet(1), resetSet(3)};
        e.profs.push_back(p);
    }
    return e.run(argc, argv);
}
