#include "observe_impl.hpp"
namespace mc
{
    template void Obs::container<Vault>(Vault&, const std::set<int>&, const std::vector<Key>&, const std::string&);
        void Obs::vault(int i)
        {
            std::string n = "v" + std::to_string(i);
            container(*w.v[i], m.v[i].recs, m.v[i].keys, n);
        }
    // Learn the identity of records that appeared without a reference (copied or loaded): match by content.
    void bindByContent(World& w, Model& m, int vi)
    {
        auto& mv = m.v[vi]; if (mv.keys.empty()) return;
        std::set<std::string> used; std::vector<int> todo;
        for (int id : mv.recs) { if (m.recs[id].uid.empty()) todo.push_back(id); else used.insert(m.recs[id].uid); }
        if (todo.empty()) return;
        auto v = w.v[vi]->GetSortedRecords(mv.keys[0].name);
        eq(v.size(), mv.recs.size(), "v" + std::to_string(vi) + ": number of records");
        for (auto& r : v)
        {
            std::string uid = r.GetRecordUniqueId(); if (used.count(uid)) continue;
            bool found = false;
            for (size_t i = 0; i < todo.size() && !found; ++i)
            {
                bool same = true;
                for (auto& k : mv.keys) withType(k.t, [&](auto tag) { using T = typename decltype(tag)::type; T d{}; r.GetData(k.name, d); if (!(d == as<T>(m.recs[todo[i]].data[k.name]))) same = false; });
                if (same) { m.recs[todo[i]].uid = uid; todo.erase(todo.begin() + i); found = true; }
            }
            if (!found) fail("v" + std::to_string(vi) + " holds an unexpected record");
        }
    }
}
