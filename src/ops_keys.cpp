#include "ops.hpp"
namespace mc
{
    namespace ops
    {
        // ------------------------------------------------------------- keys
        Op addKey(int v, const std::string& k, Val def)
        {
            std::string nm = N("v", v) + ".AddKey(" + k + "," + def.show() + ")";
            return {nm, alive(v), [=](World& w, Model& m)
            {
                bool got = withType(def.t, [&](auto tag) { using T = typename decltype(tag)::type; return w.v[v]->AddKey(k, as<T>(def)); });
                auto& mv = m.v[v]; eq(got, mv.key(k) == nullptr, nm);
                if (!got) return;
                mv.keys.push_back({k, def.t, false, def}); for (int id : mv.recs) m.recs[id].data[k] = def;
                bindByContent(w, m, v);
            }};
        }
        Op addUnique(int v, const std::string& k, VT t)
        {
            std::string nm = N("v", v) + ".AddUniqueKey<" + (t == INT ? "int" : "string") + ">(" + k + ")";
            return {nm, alive(v), [=](World& w, Model& m)
            {
                auto res = withType(t, [&](auto tag) { using T = typename decltype(tag)::type; return w.v[v]->template AddUniqueKey<T>(k); });
                auto& mv = m.v[v]; const Key* kk = mv.key(k);
                if (kk) { expectFull(res, RC::DuplicateKey, k, tix(t), tix(kk->t), nm); return; }
                if (!mv.recs.empty()) { expectFull(res, RC::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda, k, tix(t), typeid(void), nm); return; }
                expectCode(res, RC::Success, nm); mv.keys.push_back({k, t, true, zero(t)});
            }};
        }
        // kind: 0 = counter, 1 = constant (duplicates when >1 record), 2 = derived from the record's key "A" (10*A), needs int A
        Op addUniqueFn(int v, const std::string& k, int kind)
        {
            static const char* kn[] = {"counter", "const 5", "10*ref.A"};
            std::string nm = N("v", v) + ".AddUniqueKey<int>(" + k + ",fn=" + kn[kind] + ")";
            return {nm, [=](const Model& m) { if (!m.v[v].alive) return false; auto* a = m.v[v].key("A"); return kind != 2 || m.v[v].recs.empty() || (a && a->t == INT); }, [=](World& w, Model& m)
            {
                auto& mv = m.v[v]; std::map<std::string, int> given; bool badRef = false, badCount = false; size_t calls = 0;
                std::function<int(const size_t&, const VaultRecordRef&)> fn = [&](const size_t& c, const VaultRecordRef& r)
                {
                    if (!r.IsValid()) badRef = true;
                    if (c != calls) badCount = true;
                    ++calls; int x = kind == 0 ? (int)c : 5; if (kind == 2) { r.GetData("A", x); x *= 10; }
                    given[r.GetRecordUniqueId()] = x; return x;
                };
                auto res = w.v[v]->AddUniqueKey<int>(k, fn); const Key* kk = mv.key(k);
                if (kk) { expectFull(res, RC::DuplicateKey, k, typeid(int), tix(kk->t), nm); eq(calls, size_t(0), nm + ": generator calls for a duplicate key"); return; }
                ok(!badRef, nm + ": generator got an invalid reference"); ok(!badCount, nm + ": generator counter is not 0,1,2,... once per record");
                std::set<int> vals; bool dup = false; for (auto& g : given) if (!vals.insert(g.second).second) dup = true;
                if (dup) { expectFull(res, RC::UniqueKeyValueAlredyInSet, k, typeid(int), typeid(void), nm); return; }
                eq(calls, mv.recs.size(), nm + ": generator calls");
                expectCode(res, RC::Success, nm); mv.keys.push_back({k, INT, true, Val(0)});
                for (int id : mv.recs)
                {
                    if (!m.recs[id].uid.empty()) { ok(given.count(m.recs[id].uid), nm + ": generator not called for a record"); m.recs[id].data[k] = Val(given[m.recs[id].uid]); }
                    if (kind == 2) eq(m.recs[id].data[k].i, m.recs[id].data["A"].i * 10, nm + ": generator saw another value of A");
                }
                // records that could not be identified so far (created while the vault had no keys)
                for (int id : mv.recs) if (m.recs[id].uid.empty()) { auto it = given.begin(); m.recs[id].uid = it->first; m.recs[id].data[k] = Val(it->second); given.erase(it); }
            }};
        }
        Op updateKey(int v, const std::string& k, Val def)
        {
            std::string nm = N("v", v) + ".UpdateKey(" + k + "," + def.show() + ")";
            return {nm, alive(v), [=](World& w, Model& m)
            {
                auto res = withType(def.t, [&](auto tag) { using T = typename decltype(tag)::type; return w.v[v]->UpdateKey(k, as<T>(def)); });
                Key* kk = m.v[v].key(k);
                if (!kk) { expectFull(res, RC::WrongKey, k, tix(def.t), typeid(void), nm); return; }
                if (kk->t != def.t) { expectFull(res, RC::WrongType, k, tix(def.t), tix(kk->t), nm); return; }
                if (kk->uniq) { expectFull(res, RC::UniqueKey, k, tix(def.t), tix(kk->t), nm); return; }
                expectCode(res, RC::Success, nm); kk->def = def;
            }};
        }
        Op removeKey(int v, const std::string& k)
        {
            std::string nm = N("v", v) + ".RemoveKey(" + k + ")";
            return {nm, alive(v), [=](World& w, Model& m)
            {
                auto& mv = m.v[v]; eq(w.v[v]->RemoveKey(k), mv.key(k) != nullptr, nm); if (!mv.key(k)) return;
                for (size_t i = 0; i < mv.keys.size(); ++i) if (mv.keys[i].name == k) { mv.keys.erase(mv.keys.begin() + i); break; }
                for (int id : mv.recs) m.recs[id].data.erase(k);
            }};
        }

    }
}
