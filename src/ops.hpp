// Operation library: each operation checks its result against the model and updates the model.
#pragma once
#include "observe.hpp"
#include <fstream>
#include <unistd.h>
namespace mc
{
    struct Op
    {
        std::string name;
        std::function<bool(const Model&)> en;
        std::function<void(World&, Model&)> run;
    };
    using Params = std::vector<std::pair<std::string, Val>>;
    namespace ops
    {
        inline std::string N(const char* p, int i) { return p + std::to_string(i); }
        inline auto alive(int v) { return [v](const Model& m) { return m.v[v].alive; }; }
        inline auto always() { return [](const Model&) { return true; }; }
        inline std::string show(const Params& p) { std::string o = "{"; for (auto& x : p) o += (o.size() > 1 ? "," : "") + x.first + "=" + x.second.show(); return o + "}"; }
        inline std::vector<std::pair<std::string, VaultParamInput>> conv(const Params& p)
        {
            std::vector<std::pair<std::string, VaultParamInput>> o; for (auto& x : p) o.emplace_back(x.first, param(x.second)); return o;
        }
        // Records reachable right now through sorted traversal by key k.
        inline std::set<std::string> uids(World& w, int v, const std::string& k)
        {
            std::set<std::string> o; for (auto& r : w.v[v]->GetSortedRecords(k)) o.insert(r.GetRecordUniqueId()); return o;
        }

        // ------------------------------------------------------------- sets
        inline auto have(int s) { return [=](const Model& m) { return m.s[s].exists; }; }
        inline auto have2(int s, int t) { return [=](const Model& m) { return m.s[s].exists && m.s[t].exists; }; }
        // request kinds: 0 ==, 1 >, 2 >=, 3 <, 4 <=
        inline bool cmp(int kind, const Val& v, const Val& x) { switch (kind) { case 0: return v == x; case 1: return x < v; case 2: return !(v < x); case 3: return v < x; default: return !(x < v); } }

        Op create(int v, Params p, int ref = -1);
        Op set(int r, const std::string& k, Val x);
        Op setMany(int r, Params p);
        Op eraseRef(int v, int r);
        Op eraseKV(int v, const std::string& k, Val x, long amount);
        Op dropData(int v);
        Op dropVault(int v);
        Op destroyVault(int v);
        Op newVault(int v);
        Op addKey(int v, const std::string& k, Val def);
        Op addUnique(int v, const std::string& k, VT t);
        Op addUniqueFn(int v, const std::string& k, int kind);
        Op updateKey(int v, const std::string& k, Val def);
        Op removeKey(int v, const std::string& k);
        Op copyAssign(int a, int b);
        Op copyCtor(int a, int b);
        Op moveAssign(int a, int b);
        Op moveCtor(int a, int b);
        Op getRecord(int v, const std::string& k, Val x, int r);
        Op setGetRecord(int s, const std::string& k, Val x, int r);
        Op sortedRef(bool fromSet, int i, const std::string& k, bool rev, int how, int r);
        Op refCopy(int a, int b);
        Op refMove(int a, int b);
        Op refReset(int r);
        Op request(int v, int kind, const std::string& k, Val x, int s);
        Op setRequest(int a, int kind, const std::string& k, Val x, int s);
        Op addRecord(int s, int r);
        Op removeRef(int s, int r);
        Op removeKV(int s, const std::string& k, Val x, long amount);
        Op clearSet(int s);
        Op resetSet(int s);
        Op destroySet(int s);
        Op newSet(int s);
        Op algebra(int kind, int a, int b);
        Op free3(bool uni, int a, int b, int c);
        Op setCopy(int a, int b);
        Op setCopyCtor(int a, int b);
        Op setMove(int a, int b);
        Op setMoveCtor(int a, int b);
    }
}
namespace mc { namespace ops {
    // Read a CSV file with a header line; every cell is a valid text of its key's type, so only unique values can be refused.
    Op readCsv(int v, std::vector<std::string> keys, std::vector<std::vector<Val>> rows);
    // out-set request with limit and predicate (A is odd)
    inline std::string scratchFile() { return "seqx_" + std::to_string(getpid()) + ".csv"; }
}}
