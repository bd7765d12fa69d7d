// C09: adding, updating and removing keys keeps every record and set consistent.
#include "profiles.hpp"
using namespace mc; using namespace mc::ops;
int main(int argc, char** argv)
{
    Explorer e;
    Profile p; p.name = "keys"; p.nv = 2; p.ns = 1; p.nr = 2; p.depth = 3; p.thoroughDepth = 4; p.obs.names = {"A", "B", "C", "U", "Z"};
    p.obs.domain[DBL] = {Val(0.0), Val(1.5)}; p.obs.domain[BOOL] = {Val(false), Val(true)}; p.obs.domain[LL] = {Val(0L), Val(1L)};
    p.inits = {{"no keys", {}}, {"2 records, set of all", {addKey(0, "A", 1), create(0, {{"A", 2}}, 0), create(0, {}, 1), request(0, 2, "A", 0, 0)}},
               {"records created before any key, copied vault", {create(0, {}), addKey(0, "A", 1), addKey(0, "B", "b"), getRecord(0, "A", 1, 0), request(0, 2, "A", 0, 0)}}};
    p.alpha = {addKey(0, "A", 2), addKey(0, "A", "a"), addKey(0, "B", "b"), addKey(0, "B", 1.5), addKey(0, "C", true), addKey(0, "C", 1L), addUnique(0, "U", INT), addUnique(0, "U", STR), addUniqueFn(0, "U", 0), addUniqueFn(0, "U", 1), addUniqueFn(0, "B", 2), addUniqueFn(0, "A", 0),
               updateKey(0, "A", 3), updateKey(0, "A", "b"), updateKey(0, "B", 0.0), updateKey(0, "B", "c"), updateKey(0, "C", false), updateKey(0, "U", 1), updateKey(0, "Z", 1), removeKey(0, "A"), removeKey(0, "B"), removeKey(0, "U"), removeKey(0, "Z"), create(0, {}, 1), create(0, {{"U", 3}}, 0), set(0, "B", 1.5), set(1, "U", 3), eraseRef(0, 0), request(0, 2, "A", 0, 0), copyAssign(0, 1), updateKey(1, "A", 0), dropVault(0)};
    e.profs.push_back(p);
    {
        Profile q; q.name = "many keys and records"; q.nv = 1; q.ns = 3; q.nr = 3; q.depth = 2; q.thoroughDepth = 3; wideObs(q.obs);
        q.obs.domain[DBL] = {Val(0.0), Val(1.5)}; q.obs.domain[BOOL] = {Val(false), Val(true)}; q.obs.domain[LL] = {Val(0L), Val(1L)};
        q.inits = {{"37 records, ten keys, two sets", wide(0, 37, 2) + OpList{request(0, 2, "A", 1, 0), request(0, 0, "B", "a", 1)}}};
        for (auto& k : wideNames()) q.alpha = q.alpha + OpList{addKey(0, k, 2), addUniqueFn(0, k, 0), updateKey(0, k, 3), updateKey(0, k, "c"), removeKey(0, k)};
        q.alpha = q.alpha + OpList{addKey(0, "Z", 1.5), addUnique(0, "Z", INT), addUniqueFn(0, "Z", 1), create(0, {}, 2), create(0, {{"U", 99}, {"V", "new"}, {"k1", "a"}, {"k4", "b"}}, 2), set(0, "Z", 3), set(1, "k2", 7), set(1, "U", 99), eraseRef(0, 0), eraseKV(0, "k2", 7, -1), request(0, 2, "k2", 3, 2), algebra(2, 0, 1), clearSet(0)};
        e.profs.push_back(q);
    }
    return e.run(argc, argv);
}
