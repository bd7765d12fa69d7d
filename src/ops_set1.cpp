#include "ops.hpp"
namespace mc
{
    namespace ops
    {
        static const char* reqName[] = {"RequestEqual", "RequestGreater", "RequestGreaterOrEqual", "RequestLess", "RequestLessOrEqual"};
        template <class C> VaultOperationResult doReq(C& box, int kind, const std::string& k, const Val& x, VaultRecordSet& out)
        {
            return withType(x.t, [&](auto tag)
            {
                using T = typename decltype(tag)::type; T val = as<T>(x);
                switch (kind)
                {
                case 0: return box.RequestEqual(k, val, out);
                case 1: return box.RequestGreater(k, val, out);
                case 2: return box.RequestGreaterOrEqual(k, val, out);
                case 3: return box.RequestLess(k, val, out);
                default: return box.RequestLessOrEqual(k, val, out);
                }
            });
        }
        // A refused request leaves a result set attached but empty, or untouched: both are accepted (bound by observation).
        inline void bindFailedRequest(World& w, Model& m, int s)
        {
            auto& rs = *w.s[s];
            if (!rs.GetIsParentVaultValid()) { m.s[s].parent = -1; m.s[s].mem.clear(); return; }
            for (size_t i = 0; i < w.v.size(); ++i) if (w.v[i]) { std::ostringstream ss; ss << w.v[i].get(); if (ss.str() == rs.GetParentVaultUniqueId()) { if (m.s[s].parent != (int)i) m.s[s].mem.clear(); m.s[s].parent = i; } }
            if (rs.Size() == 0) m.s[s].mem.clear();
        }
        Op request(int v, int kind, const std::string& k, Val x, int s)
        {
            std::string nm = N("v", v) + "." + reqName[kind] + "(" + k + "," + x.show() + "," + N("s", s) + ")";
            return {nm, [=](const Model& m) { return m.v[v].alive && m.s[s].exists; }, [=](World& w, Model& m)
            {
                auto res = doReq(*w.v[v], kind, k, x, *w.s[s]); const Key* kk = m.v[v].key(k);
                if (!kk) { expectFull(res, RC::WrongKey, k, tix(x.t), typeid(void), nm); bindFailedRequest(w, m, s); return; }
                if (kk->t != x.t) { expectFull(res, RC::WrongType, k, tix(x.t), tix(kk->t), nm); bindFailedRequest(w, m, s); return; }
                expectCode(res, RC::Success, nm); m.s[s].parent = v;
                m.s[s].mem = m.match(m.v[v].recs, [&](const Row& r) { return cmp(kind, r.at(k), x); });
            }};
        }
        Op setRequest(int a, int kind, const std::string& k, Val x, int s)
        {
            std::string nm = N("s", a) + "." + reqName[kind] + "(" + k + "," + x.show() + "," + N("s", s) + ")";
            return {nm, have2(a, s), [=](World& w, Model& m)
            {
                auto res = doReq(*w.s[a], kind, k, x, *w.s[s]); int v = m.s[a].parent;
                if (v < 0) { expectCode(res, RC::ParentVaultNotValid, nm); return; }
                if (a == s) { expectCode(res, RC::SameVaultRecordSet, nm); return; }
                const Key* kk = m.v[v].key(k);
                if (!kk) { expectFull(res, RC::WrongKey, k, tix(x.t), typeid(void), nm); bindFailedRequest(w, m, s); return; }
                if (kk->t != x.t) { expectFull(res, RC::WrongType, k, tix(x.t), tix(kk->t), nm); bindFailedRequest(w, m, s); return; }
                expectCode(res, RC::Success, nm); m.s[s].parent = v;
                m.s[s].mem = m.match(m.s[a].mem, [&](const Row& r) { return cmp(kind, r.at(k), x); });
            }};
        }
    }
}
