#include "observe_impl.hpp"
#include <unistd.h>
namespace mc
{
    template void Obs::container<VaultRecordSet>(VaultRecordSet&, const std::set<int>&, const std::vector<Key>&, const std::string&);
        void Obs::set(int i)
        {
            std::string n = "s" + std::to_string(i); auto& s = *w.s[i]; auto& ms = m.s[i];
            eq(s.GetIsParentVaultValid(), ms.parent >= 0, n + ".GetIsParentVaultValid()");
            if (ms.parent < 0)
            {
                eq(s.GetParentVaultUniqueId(), std::string("null"), n + ".GetParentVaultUniqueId()");
                eq(s.Size(), size_t(0), n + ".Size() of a detached set"); ok(s.GetKeys().empty(), n + ".GetKeys() of a detached set");
                ok(s.GetUniqueKeys().empty(), n + ".GetUniqueKeys() of a detached set"); ok(s.ToStrings().empty(), n + ".ToStrings() of a detached set");
                ok(!s.SaveToFile("detached.csv") && access("detached.csv", F_OK) != 0, n + ".SaveToFile() of a detached set"); bool called = false; s.SortBy("A", [&](const VaultRecordRef&) { called = true; return true; }); ok(!called, n + ".SortBy of a detached set");
                for (auto& nm : c.names)
                {
                    ok(!s.IsKeyExist(nm), n + ".IsKeyExist of a detached set"); ok(s.GetSortedRecords(nm).empty(), n + ".GetSortedRecords of a detached set");
                    VaultRecordRef r; int d = 0; std::vector<VaultRecordRef> rs;
                    expectCode(s.GetRecord(nm, 1, r), RC::ParentVaultNotValid, n + ".GetRecord of a detached set");
                    expectCode(s.GetRecords(nm, 1, rs), RC::ParentVaultNotValid, n + ".GetRecords of a detached set");
                    expectCode(s.GetKeyValue(nm, d), RC::ParentVaultNotValid, n + ".GetKeyValue of a detached set");
                    expectCode(s.RequestEqual(nm, 1, tmp), RC::ParentVaultNotValid, n + ".RequestEqual of a detached set");
                    expectCode(s.RemoveRecord(nm, 1), RC::ParentVaultNotValid, n + ".RemoveRecord of a detached set");
                }
                return;
            }
            std::ostringstream id; id << w.v[ms.parent].get();
            eq(s.GetParentVaultUniqueId(), id.str(), n + ".GetParentVaultUniqueId()");
            container(s, ms.mem, m.v[ms.parent].keys, n);
            auto& pv = m.v[ms.parent];
            if (!pv.keys.empty())
                for (auto& r : w.v[ms.parent]->GetSortedRecords(pv.keys[0].name))
                    eq(s.CheckRecord(r), ms.mem.count(recOf(r, n)) > 0, n + ".CheckRecord");
        }
        void Obs::setPairs()
        {
            for (size_t a = 0; a < w.s.size(); ++a) for (size_t b = 0; b < w.s.size(); ++b)
                if (m.s[a].exists && m.s[b].exists)
                {
                    bool e = m.s[a].parent == m.s[b].parent && m.s[a].mem == m.s[b].mem;
                    std::string n = "s" + std::to_string(a) + "==s" + std::to_string(b);
                    eq(*w.s[a] == *w.s[b], e, n); eq(*w.s[a] != *w.s[b], !e, n + " (!=)");
                }
        }
}
