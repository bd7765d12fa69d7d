#include "ops.hpp"
namespace mc
{
    namespace ops
    {
        // ------------------------------------------------------------- references
        inline void bindRef(World& w, Model& m, int r, const std::set<int>& cand, const std::string& nm)
        {
            ok(w.r[r].IsValid(), nm + ": reference not valid"); std::string u = w.r[r].GetRecordUniqueId();
            for (int id : cand) if (m.recs[id].uid == u) { m.r[r] = MRef{id}; return; }
            fail(nm + ": reference to a record that does not match");
        }
        Op getRecord(int v, const std::string& k, Val x, int r)
        {
            std::string nm = N("v", v) + ".GetRecord(" + k + "," + x.show() + "," + N("r", r) + ")";
            return {nm, alive(v), [=](World& w, Model& m)
            {
                auto res = withType(x.t, [&](auto tag) { using T = typename decltype(tag)::type; return w.v[v]->GetRecord(k, as<T>(x), w.r[r]); });
                const Key* kk = m.v[v].key(k);
                if (!kk) { expectFull(res, RC::WrongKey, k, tix(x.t), typeid(void), nm); return; }
                if (kk->t != x.t) { expectFull(res, RC::WrongType, k, tix(x.t), tix(kk->t), nm); return; }
                auto cand = m.withVal(m.v[v].recs, k, x);
                if (cand.empty()) { expectFull(res, RC::WrongValue, k, tix(x.t), tix(kk->t), nm); m.r[r] = MRef{}; return; }
                expectCode(res, RC::Success, nm); bindRef(w, m, r, cand, nm);
            }};
        }
        Op setGetRecord(int s, const std::string& k, Val x, int r)
        {
            std::string nm = N("s", s) + ".GetRecord(" + k + "," + x.show() + "," + N("r", r) + ")";
            return {nm, have(s), [=](World& w, Model& m)
            {
                auto res = withType(x.t, [&](auto tag) { using T = typename decltype(tag)::type; return w.s[s]->GetRecord(k, as<T>(x), w.r[r]); });
                auto& ms = m.s[s]; if (ms.parent < 0) { expectFull(res, RC::ParentVaultNotValid, k, tix(x.t), typeid(void), nm); return; }
                const Key* kk = m.v[ms.parent].key(k);
                if (!kk) { expectFull(res, RC::WrongKey, k, tix(x.t), typeid(void), nm); return; }
                if (kk->t != x.t) { expectFull(res, RC::WrongType, k, tix(x.t), tix(kk->t), nm); return; }
                auto cand = m.withVal(ms.mem, k, x);
                if (cand.empty()) { expectFull(res, RC::WrongValue, k, tix(x.t), tix(kk->t), nm); m.r[r] = MRef{}; return; }
                expectCode(res, RC::Success, nm); bindRef(w, m, r, cand, nm);
            }};
        }
        // reference from the sorted vector (how=0), from a SortBy callback (1), from a request predicate (2) of a vault or set
        Op sortedRef(bool fromSet, int i, const std::string& k, bool rev, int how, int r)
        {
            static const char* hn[] = {"GetSortedRecords", "SortBy callback", "predicate"};
            std::string nm = N("r", r) + "=copy from " + N(fromSet ? "s" : "v", i) + " " + hn[how] + "(" + k + (rev ? ",reverse" : "") + ")";
            return {nm, [=](const Model& m) { return fromSet ? m.s[i].exists && m.s[i].parent >= 0 && !m.s[i].mem.empty() && m.v[m.s[i].parent].key(k) && m.v[m.s[i].parent].key(k)->t == INT : m.v[i].alive && !m.v[i].recs.empty() && m.v[i].key(k) && m.v[i].key(k)->t == INT; }, [=](World& w, Model& m)
            {
                auto& mem = fromSet ? m.s[i].mem : m.v[i].recs; VaultRecordRef got; bool have = false;
                auto f = [&](auto& box)
                {
                    if (how == 0) { auto v = box.GetSortedRecords(k, rev); ok(v.size() == mem.size(), nm + ": size"); got = v[0]; }
                    else if (how == 1) box.SortBy(k, [&](const VaultRecordRef& x) { got = x; return false; }, rev);
                    else { VaultRecordSet t; box.RequestGreaterOrEqual(k, -1000, t, (size_t)-1, [&](const VaultRecordRef& x) { if (!have) got = x; have = true; return true; }); }
                };
                if (fromSet) f(*w.s[i]); else f(*w.v[i]);
                w.r[r] = got; got.Reset(); bindRef(w, m, r, mem, nm);
            }};
        }
        Op refCopy(int a, int b) { return {N("r", b) + "=" + N("r", a), always(), [=](World& w, Model& m) { w.r[b] = w.r[a]; m.r[b] = m.r[a]; }}; }
        Op refMove(int a, int b) { return {N("r", b) + "=move(" + N("r", a) + ")", always(), [=](World& w, Model& m) { VaultRecordRef& s = w.r[a]; w.r[b] = std::move(s); if (a != b) { m.r[b] = m.r[a]; m.r[a] = MRef{}; } }}; }
        Op refReset(int r) { return {N("r", r) + ".Reset()", always(), [=](World& w, Model& m) { w.r[r].Reset(); m.r[r] = MRef{}; }}; }
    }
}
