// Reference model + real-code bindings shared by the sequential explorers.
// The model is a plain executable specification of vaults, sets and references; every operation is applied
// to the model and to the real library (public API only) side by side.
#pragma once
#include "MVault.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc
{
    using namespace mvlt;
    using RC = VaultOperationResultCode;

#ifndef MC_VIOLATION
#define MC_VIOLATION
    struct Violation { std::string msg; };
    [[noreturn]] inline void fail(const std::string& m) { throw Violation{m}; }
    inline void ok(bool c, const std::string& what) { if (!c) fail(what); }
#endif
    template <class A, class B>
    void eq(const A& got, const B& want, const std::string& what)
    {
        if (!(got == want)) { std::ostringstream ss; ss << what << ": got " << got << " want " << want; fail(ss.str()); }
    }

    // ---------------------------------------------------------------- values
    enum VT { INT, STR, DBL, BOOL, LL };
    struct Val
    {
        VT t = INT; long long i = 0; double d = 0; std::string s;
        Val() {}
        Val(int x) : t(INT), i(x) {}
        Val(const char* x) : t(STR), s(x) {}
        Val(const std::string& x) : t(STR), s(x) {}
        Val(double x) : t(DBL), d(x) {}
        Val(bool x) : t(BOOL), i(x) {}
        Val(std::int64_t x) : t(LL), i(x) {}
        bool operator==(const Val& o) const { return t == o.t && i == o.i && d == o.d && s == o.s; }
        bool operator!=(const Val& o) const { return !(*this == o); }
        bool operator<(const Val& o) const
        {
            if (t != o.t) return t < o.t;
            if (t == STR) return s < o.s;
            if (t == DBL) return d < o.d;
            return i < o.i;
        }
        std::string str() const   // the library's textual form
        {
            switch (t)
            {
            case STR: return s;
            case BOOL: return i ? "true" : "false";
            case DBL: return std::to_string(d);
            default: return std::to_string(i);
            }
        }
        std::string show() const { return t == STR ? "\"" + s + "\"" : str(); }
    };
    inline std::ostream& operator<<(std::ostream& o, const Val& v) { return o << v.show(); }

    template <class T> struct Tag { using type = T; };
    template <class F> auto withType(VT t, F f)
    {
        switch (t)
        {
        case INT: return f(Tag<int>());
        case STR: return f(Tag<std::string>());
#ifdef MC_MORE_TYPES
        case DBL: return f(Tag<double>());
        case BOOL: return f(Tag<bool>());
        case LL: return f(Tag<std::int64_t>());
#endif
        default: abort();
        }
    }
    template <class T> T as(const Val& v);
    template <> inline int as<int>(const Val& v) { return (int)v.i; }
    template <> inline std::string as<std::string>(const Val& v) { return v.s; }
    template <> inline double as<double>(const Val& v) { return v.d; }
    template <> inline bool as<bool>(const Val& v) { return v.i != 0; }
    template <> inline std::int64_t as<std::int64_t>(const Val& v) { return v.i; }
    inline std::type_index tix(VT t)
    {
        switch (t)
        {
        case INT: return typeid(int);
        case STR: return typeid(std::string);
        case DBL: return typeid(double);
        case BOOL: return typeid(bool);
        default: return typeid(std::int64_t);
        }
    }
    inline Val zero(VT t)
    {
        switch (t) { case INT: return Val(0); case STR: return Val(""); case DBL: return Val(0.0); case BOOL: return Val(false); default: return Val(std::int64_t(0)); }
    }
    inline VaultParamInput param(const Val& v) { return withType(v.t, [&](auto tag) { using T = typename decltype(tag)::type; return VaultParamInput(as<T>(v)); }); }

    // ---------------------------------------------------------------- model state
    struct Key { std::string name; VT t; bool uniq; Val def; };
    using Row = std::map<std::string, Val>;
    struct MRec { int vault; Row data; std::string uid; };
    struct MVault
    {
        bool alive = true;
        std::vector<Key> keys;
        std::set<int> recs;
        const Key* key(const std::string& n) const { for (auto& k : keys) if (k.name == n) return &k; return nullptr; }
        Key* key(const std::string& n) { for (auto& k : keys) if (k.name == n) return &k; return nullptr; }
    };
    struct MSet { bool exists = true; int parent = -1; std::set<int> mem; };
    struct MRef { int rec = -1; };
    struct Model
    {
        std::vector<MVault> v; std::vector<MSet> s; std::vector<MRef> r; std::map<int, MRec> recs; int next = 0;
        bool valid(int ref) const { return r[ref].rec >= 0 && recs.count(r[ref].rec); }
        std::set<int> match(const std::set<int>& ids, const std::function<bool(const Row&)>& p) const
        {
            std::set<int> out; for (int id : ids) if (p(recs.at(id).data)) out.insert(id); return out;
        }
        std::set<int> withVal(const std::set<int>& ids, const std::string& k, const Val& x) const
        {
            return match(ids, [&](const Row& r) { auto it = r.find(k); return it != r.end() && it->second == x; });
        }
        void eraseRec(int id)
        {
            int vi = recs.at(id).vault; v[vi].recs.erase(id); recs.erase(id);
            for (auto& st : s) st.mem.erase(id);
        }
        void detachSets(int vi) { for (auto& st : s) if (st.exists && st.parent == vi) { st.parent = -1; st.mem.clear(); } }
        void dropVault(int vi)
        {
            auto ids = v[vi].recs; for (int id : ids) eraseRec(id);
            v[vi].keys.clear(); detachSets(vi);
        }
        // Does writing x into key k of record id (or a new record, id=-1) collide on a unique key?
        bool dup(int vi, const std::string& k, const Val& x, int id) const
        {
            const Key* kk = v[vi].key(k); if (!kk || !kk->uniq) return false;
            auto m = withVal(v[vi].recs, k, x); m.erase(id); return !m.empty();
        }
    };
    struct World
    {
        std::vector<std::unique_ptr<Vault>> v; std::vector<std::unique_ptr<VaultRecordSet>> s; std::vector<VaultRecordRef> r;
        World(int nv, int ns, int nr) : v(nv), s(ns), r(nr)
        {
            for (auto& x : v) x.reset(new Vault);
            for (auto& x : s) x.reset(new VaultRecordSet);
        }
    };

    inline std::string rcName(const VaultOperationResult& r) { return r.ResultCodeString(); }
    inline void expectCode(const VaultOperationResult& r, RC code, const std::string& what)
    {
        bool succ = code == RC::Success;
        if (r.ResultCode != code || r.IsOperationSuccess != succ)
        {
            VaultOperationResult w; w.ResultCode = code;
            fail(what + ": result " + rcName(r) + " success=" + std::to_string(r.IsOperationSuccess) + ", want " + rcName(w));
        }
    }
    // A failing data call must also name the key, the requested type and the saved type.
    inline void expectFull(const VaultOperationResult& r, RC code, const std::string& key, std::type_index req, std::type_index saved, const std::string& what)
    {
        expectCode(r, code, what);
        eq(r.Key, key, what + " result.Key");
        ok(r.RequestedType == req, what + " result.RequestedType is " + r.RequestedType.name() + " want " + req.name());
        ok(r.SavedType == saved, what + " result.SavedType is " + r.SavedType.name() + " want " + saved.name());
    }
    inline std::string showIds(const std::set<int>& s) { std::string o = "{"; for (int i : s) o += (o.size() > 1 ? "," : "") + std::to_string(i); return o + "}"; }
    inline std::string showRow(const Row& r) { std::string o = "{"; for (auto& p : r) o += (o.size() > 1 ? "," : "") + p.first + "=" + p.second.show(); return o + "}"; }
}
