// C06: references track their record exactly and never touch freed memory, in whatever order things go away.
#include "profiles.hpp"
using namespace mc; using namespace mc::ops;
int main(int argc, char** argv)
{
    Explorer e;
    OpList rec{addKey(0, "A", 0), create(0, {{"A", 1}}, 0), create(0, {{"A", 2}}, 1)};
    {
        Profile p; p.name = "paths"; p.nv = 1; p.ns = 1; p.nr = 3; p.depth = 4; p.thoroughDepth = 5; p.obs.names = {"A", "Z"}; p.obs.requests = false; p.obs.domain = {{INT, {Val(1), Val(2)}}};
        p.inits = {{"2 records, s0=all, r0,r1", rec + OpList{request(0, 2, "A", 0, 0)}}};
        p.alpha = {getRecord(0, "A", 1, 2), setGetRecord(0, "A", 2, 2), sortedRef(false, 0, "A", false, 0, 2), sortedRef(false, 0, "A", true, 1, 0), sortedRef(false, 0, "A", false, 2, 2), sortedRef(true, 0, "A", false, 0, 2), sortedRef(true, 0, "A", true, 1, 1), sortedRef(true, 0, "A", false, 2, 2),
                   refCopy(0, 2), refMove(0, 2), refCopy(0, 0), refMove(1, 1), refReset(0), set(2, "A", 1), eraseRef(0, 0), eraseRef(0, 2), eraseKV(0, "A", 1, -2), dropData(0), dropVault(0), destroySet(0)};
        e.profs.push_back(p);
    }
    {   // destruction orders, moves and copies of the vault
        Profile p; p.name = "lifetime"; p.nv = 2; p.ns = 2; p.nr = 3; p.depth = 4; p.thoroughDepth = 5; p.obs.names = {"A", "Z"}; p.obs.requests = false; p.obs.json = false; p.obs.domain = {{INT, {Val(1), Val(2)}}};
        p.inits = {{"2 records, s0=all, s1={1}, r0,r1 and a copy", rec + OpList{request(0, 2, "A", 0, 0), request(0, 0, "A", 1, 1), refCopy(0, 2)}}};
        p.alpha = {destroyVault(0), destroyVault(1), newVault(0), dropVault(0), dropData(0), moveAssign(0, 1), moveAssign(1, 0), moveCtor(0, 1), copyAssign(0, 1), copyAssign(1, 0), destroySet(0), destroySet(1), resetSet(0), clearSet(1), setMove(0, 1), refReset(0), refCopy(1, 0), refMove(2, 1), eraseRef(0, 0), eraseRef(1, 0), create(0, {}, 1), create(1, {{"A", 2}}, 2), set(2, "A", 2), removeKV(0, "A", 1, -1), addRecord(1, 1)};
        e.profs.push_back(p);
    }
    {   // many references, many records
        Profile p; p.name = "many"; p.nv = 2; p.ns = 2; p.nr = 10; p.depth = 2; p.thoroughDepth = 3; wideObs(p.obs); p.obs.json = false; p.obs.requests = false;
        OpList w = wide(0, 37, 8) + OpList{refCopy(0, 8), request(0, 2, "A", 0, 0), request(0, 0, "A", 2, 1)};
        p.inits = {{"37 records, nine references, two sets", w}};
        p.alpha = {set(0, "A", 4), set(8, "U", 99), set(3, "U", 99), set(3, "V", "v0"), eraseRef(0, 0), eraseRef(0, 3), eraseRef(0, 8), eraseKV(0, "A", 1, -1), eraseKV(0, "A", 2, 1), eraseKV(0, "k3", 0, -2), refCopy(0, 9), refMove(1, 9), refMove(9, 3), refReset(8), getRecord(0, "U", 37, 9), getRecord(0, "V", "v5", 9), setGetRecord(0, "U", 5, 9), setGetRecord(1, "U", 35, 9),
                   sortedRef(false, 0, "A", true, 1, 9), sortedRef(true, 0, "B", false, 2, 9), create(0, {{"U", 100}, {"V", "new"}}, 9), moveAssign(0, 1), moveCtor(0, 1), copyAssign(0, 1), copyAssign(1, 0), dropData(0), dropVault(0), destroyVault(0), removeKey(0, "A"), removeKey(0, "U"), updateKey(0, "A", 3), addKey(0, "Z", 1), removeRef(0, 2), removeKV(1, "A", 2, -1), clearSet(0), destroySet(0)};
        e.profs.push_back(p);
    }
    return e.run(argc, argv);
}
