// Small helpers to write profiles.
#pragma once
#include "seqx.hpp"
namespace mc
{
    using OpList = std::vector<Op>;
    inline OpList operator+(OpList a, const OpList& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
    // n records with A = i % m and B cycling over "", "a", "b" (keys A:int, B:string must exist)
    inline OpList bulk(int v, int n, int m, int nr)
    {
        OpList o; static const char* s[] = {"", "a", "b"};
        for (int i = 0; i < n; ++i) o.push_back(ops::create(v, {{"A", Val(i % m)}, {"B", Val(s[i % 3])}}, i < nr ? i : -1));
        return o;
    }
    // A vault that is not tiny: ten keys, two of them unique, n records with many equal values, the first nr of them held by references.
    inline std::vector<std::string> wideNames() { return {"A", "B", "U", "V", "k1", "k2", "k3", "k4", "k5", "k6", "Z"}; }
    inline OpList wide(int v, int n, int nr)
    {
        static const char* s[] = {"", "a", "b", "ab"};
        OpList o{ops::addKey(v, "k5", "1.5"), ops::addKey(v, "A", 0), ops::addKey(v, "k1", "d"), ops::addUnique(v, "U", INT), ops::addKey(v, "k2", 7), ops::addKey(v, "B", ""), ops::addKey(v, "k3", 1), ops::addUnique(v, "V", STR), ops::addKey(v, "k4", "x"), ops::addKey(v, "k6", 2)};
        for (int i = 0; i < n; ++i) o.push_back(ops::create(v, {{"A", Val(i % 5)}, {"B", Val(s[i % 4])}, {"U", Val(n - i)}, {"V", Val(std::string("v") + std::to_string((i * 7) % n))}, {"k2", Val(i / 3)}, {"k5", Val(std::to_string(i % 7))}, {"k3", Val(i % 2)}}, i < nr ? i : -1));
        return o;
    }
    template <class O> void wideObs(O& o)
    {
        o.names = wideNames();
        o.domain[INT] = {Val(0), Val(2), Val(4), Val(7), Val(37), Val(99), Val(100)};
        o.domain[STR] = {Val("a"), Val("v0"), Val("v11"), Val("new"), Val("x")};
    }
    inline OpList ab(int v = 0) { return {ops::addKey(v, "A", 0), ops::addKey(v, "B", "")}; }
}
