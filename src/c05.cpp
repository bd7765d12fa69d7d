// C05: set operations compute set algebra and are refused when inapplicable.
#include "profiles.hpp"
using namespace mc; using namespace mc::ops;
int main(int argc, char** argv)
{
    Explorer e;
    OpList rec = ab() + OpList{create(0, {{"A", 1}, {"B", "a"}}, 0), create(0, {{"A", 1}, {"B", "b"}}, 1), create(0, {{"A", 2}, {"B", "a"}}, 2), create(0, {{"A", 3}, {"B", ""}})};
    OpList other{addKey(1, "A", 0), create(1, {{"A", 1}}, 3), create(1, {{"A", 2}})};
    OpList algAll;
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int k = 0; k < 3; ++k) algAll.push_back(algebra(k, a, b));
    for (int u = 0; u < 2; ++u) for (auto& t : {std::array<int, 3>{0, 1, 2}, {1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {1, 1, 1}}) algAll.push_back(free3(u, t[0], t[1], t[2]));
    {
        Profile p; p.name = "algebra"; p.nv = 2; p.ns = 3; p.nr = 4; p.depth = 2; p.thoroughDepth = 3; p.obs.names = {"A", "B", "Z"};
        p.inits = {{"s0={A<=1} s1={B=a} s2={}", rec + other + OpList{request(0, 4, "A", 1, 0), request(0, 0, "B", "a", 1), request(0, 0, "A", 77, 2)}},
                   {"s0={A<=1} s1={B=a} s2 of other vault", rec + other + OpList{request(0, 4, "A", 1, 0), request(0, 0, "B", "a", 1), request(1, 0, "A", 1, 2)}},
                   {"s0={A<=1} s1 detached s2={A>=2}", rec + other + OpList{request(0, 4, "A", 1, 0), request(0, 2, "A", 2, 2)}},
                   {"s0 of other vault, s1={A>=2}, s2 detached", rec + other + OpList{request(1, 2, "A", 1, 0), request(0, 2, "A", 2, 1)}}};
        p.alpha = algAll + OpList{addRecord(0, 2), addRecord(1, 3), addRecord(2, 0), removeRef(0, 0), removeRef(1, 1), removeRef(0, 3), removeKV(0, "A", 1, -1), removeKV(1, "B", "a", -2), removeKV(0, "A", 1, 0), clearSet(0), resetSet(1),
                                  request(0, 1, "A", 1, 2), setCopy(0, 2), setMove(1, 2), set(0, "A", 3), set(2, "B", ""), eraseRef(0, 0), eraseKV(0, "B", "a", 1), dropData(0), addRecord(1, 0), addRecord(1, 1), algebra(0, 1, 1), create(0, {{"A", 2}}, 0)};
        e.profs.push_back(p);
    }
    {   // results of set operations behave like any other set afterwards
        Profile p; p.name = "after"; p.nv = 1; p.ns = 3; p.nr = 4; p.depth = 4; p.thoroughDepth = 5; p.obs.names = {"A", "B", "Z"}; p.obs.json = false;
        p.inits = {{"s0={A<=1} s1={B=a} s2 detached", rec + OpList{request(0, 4, "A", 1, 0), request(0, 0, "B", "a", 1)}}};
        p.alpha = {algebra(0, 0, 1), algebra(1, 0, 1), algebra(2, 0, 1), free3(true, 0, 1, 2), free3(false, 0, 1, 2), set(0, "A", 3), set(2, "B", ""), eraseRef(0, 0), eraseKV(0, "B", "a", -2), dropData(0), removeKV(0, "A", 1, -1), clearSet(0), addRecord(0, 2), destroySet(1), dropVault(0)};
        e.profs.push_back(p);
    }
    {   // operands with unique keys: the results know which keys are unique and keep answering lookups
        Profile p; p.name = "unique"; p.nv = 1; p.ns = 3; p.nr = 3; p.depth = 3; p.thoroughDepth = 4; p.obs.names = {"A", "U", "W", "Z"}; p.obs.json = false;
        OpList u{addKey(0, "A", 0), addUnique(0, "U", INT), create(0, {{"A", 1}, {"U", 1}}, 0), create(0, {{"A", 1}, {"U", 2}}, 1), create(0, {{"A", 2}, {"U", 3}}, 2)};
        p.inits = {{"s0={A=1} s1={U>=2} s2 detached", u + OpList{request(0, 0, "A", 1, 0), request(0, 2, "U", 2, 1)}}};
        p.alpha = {algebra(0, 0, 1), algebra(1, 0, 1), algebra(2, 0, 1), algebra(0, 1, 0), free3(true, 0, 1, 2), free3(false, 0, 1, 2), free3(true, 1, 0, 2), free3(false, 1, 0, 2), free3(false, 0, 2, 1), set(0, "U", 4), set(1, "U", 1), set(2, "A", 1), eraseRef(0, 1), removeKey(0, "U"), addUniqueFn(0, "W", 0), setCopy(2, 0), setMove(2, 1), addRecord(0, 2), updateKey(0, "A", 5)};
        e.profs.push_back(p);
    }
    {   // operands that are not tiny
        Profile p; p.name = "larger sets"; p.nv = 2; p.ns = 3; p.nr = 3; p.depth = 2; p.thoroughDepth = 3; wideObs(p.obs); p.obs.requests = p.obs.json = false;
        OpList w = wide(0, 37, 2) + wide(1, 12, 0);
        p.inits = {{"s0={A<=2} s1={B>=a} s2={U>20}", w + OpList{request(0, 4, "A", 2, 0), request(0, 2, "B", "a", 1), request(0, 1, "U", 20, 2)}},
                   {"s0={A=1} s1={A=2} (disjoint) s2={A>=0} (all)", w + OpList{request(0, 0, "A", 1, 0), request(0, 0, "A", 2, 1), request(0, 2, "A", 0, 2)}},
                   {"s0={V<b} s1={V<=v20} s2 of the other vault", w + OpList{request(0, 3, "V", "v3", 0), request(0, 4, "V", "v20", 1), request(1, 2, "A", 1, 2)}}};
        p.alpha = OpList{algebra(0, 0, 1), algebra(1, 0, 1), algebra(2, 0, 1), algebra(0, 1, 2), algebra(1, 2, 0), algebra(2, 2, 1), algebra(1, 1, 0), algebra(2, 0, 2), free3(true, 0, 1, 2), free3(false, 0, 1, 2), free3(true, 2, 0, 1), free3(false, 1, 2, 0), free3(true, 1, 1, 0), set(0, "A", 2), set(1, "B", ""), set(0, "U", 99), eraseRef(0, 1), eraseKV(0, "A", 1, -2), eraseKV(0, "B", "ab", 4), removeKey(0, "A"), removeKey(0, "V"), removeKV(0, "A", 1, -1), removeKV(1, "B", "a", 3), clearSet(1), addRecord(2, 0), setRequest(0, 2, "k2", 3, 1), dropVault(1)};
        e.profs.push_back(p);
    }
    return e.run(argc, argv);
}
