#include "ops.hpp"
namespace mc
{
    namespace ops
    {
        Op addRecord(int s, int r)
        {
            std::string nm = N("s", s) + ".AddRecord(" + N("r", r) + ")";
            return {nm, [=](const Model& m) { return m.s[s].exists; }, [=](World& w, Model& m)
            {
                auto res = w.s[s]->AddRecord(w.r[r]); auto& ms = m.s[s];
                if (ms.parent < 0) { expectCode(res, RC::ParentVaultNotValid, nm); return; }
                if (!m.valid(r)) { expectCode(res, RC::DataRecordNotValid, nm); return; }
                int id = m.r[r].rec; if (m.recs[id].vault != ms.parent) { expectCode(res, RC::ParentVaultNotMatch, nm); return; }
                if (ms.mem.count(id)) { expectCode(res, RC::RecordAlredyInSet, nm); return; }
                expectCode(res, RC::Success, nm); ms.mem.insert(id);
            }};
        }
        Op removeRef(int s, int r)
        {
            std::string nm = N("s", s) + ".RemoveRecord(" + N("r", r) + ")";
            return {nm, [=](const Model& m) { return m.s[s].exists; }, [=](World& w, Model& m)
            {
                bool got = w.s[s]->RemoveRecord(w.r[r]); bool want = m.valid(r) && m.s[s].mem.count(m.r[r].rec);
                eq(got, want, nm); if (want) m.s[s].mem.erase(m.r[r].rec);
            }};
        }
        Op removeKV(int s, const std::string& k, Val x, long amount)
        {
            std::string nm = N("s", s) + (amount == -1 ? ".RemoveRecord(" : ".RemoveRecords(") + k + "," + x.show() + (amount >= 0 ? "," + std::to_string(amount) : "") + ")";
            return {nm, have(s), [=](World& w, Model& m)
            {
                auto res = withType(x.t, [&](auto tag)
                {
                    using T = typename decltype(tag)::type;
                    if (amount == -1) return w.s[s]->RemoveRecord(k, as<T>(x));
                    if (amount == -2) return w.s[s]->RemoveRecords(k, as<T>(x));
                    return w.s[s]->RemoveRecords(k, as<T>(x), (size_t)amount);
                });
                auto& ms = m.s[s]; if (ms.parent < 0) { expectCode(res, RC::ParentVaultNotValid, nm); return; }
                const Key* kk = m.v[ms.parent].key(k);
                if (!kk) { expectFull(res, RC::WrongKey, k, tix(x.t), typeid(void), nm); return; }
                if (kk->t != x.t) { expectFull(res, RC::WrongType, k, tix(x.t), tix(kk->t), nm); return; }
                auto cand = m.withVal(ms.mem, k, x); if (cand.empty()) { expectFull(res, RC::WrongValue, k, tix(x.t), tix(kk->t), nm); return; }
                expectCode(res, RC::Success, nm);
                size_t want = amount == -1 ? 1 : amount == -2 ? cand.size() : std::min<size_t>(amount, cand.size());
                std::set<std::string> now; for (auto& r : w.s[s]->GetSortedRecords(k)) now.insert(r.GetRecordUniqueId());
                std::set<int> gone; for (int id : ms.mem) if (!now.count(m.recs[id].uid)) gone.insert(id);
                eq(gone.size(), want, nm + ": number of removed records");
                for (int id : gone) { ok(cand.count(id), nm + ": removed a record that does not hold the value"); ms.mem.erase(id); }
            }};
        }
        Op clearSet(int s) { return {N("s", s) + ".Clear()", have(s), [=](World& w, Model& m) { w.s[s]->Clear(); m.s[s].mem.clear(); }}; }
        Op resetSet(int s) { return {N("s", s) + ".Reset()", have(s), [=](World& w, Model& m) { w.s[s]->Reset(); m.s[s].mem.clear(); m.s[s].parent = -1; }}; }
        Op destroySet(int s) { return {"delete " + N("s", s), have(s), [=](World& w, Model& m) { w.s[s].reset(); m.s[s] = MSet{}; m.s[s].exists = false; }}; }
        Op newSet(int s) { return {"new " + N("s", s), [=](const Model& m) { return !m.s[s].exists; }, [=](World& w, Model& m) { w.s[s].reset(new VaultRecordSet); m.s[s] = MSet{}; }}; }
        // kind 0 Join 1 Exclude 2 Intersect
        Op algebra(int kind, int a, int b)
        {
            static const char* an[] = {".Join(", ".Exclude(", ".Intersect("};
            std::string nm = N("s", a) + an[kind] + N("s", b) + ")";
            return {nm, have2(a, b), [=](World& w, Model& m)
            {
                auto res = kind == 0 ? w.s[a]->Join(*w.s[b]) : kind == 1 ? w.s[a]->Exclude(*w.s[b]) : w.s[a]->Intersect(*w.s[b]);
                auto &x = m.s[a], &y = m.s[b];
                if (x.parent < 0) { expectCode(res, RC::ParentVaultNotValid, nm); return; }
                if (y.parent < 0) { expectCode(res, RC::OtherParentVaultNotValid, nm); return; }
                if (x.parent != y.parent) { expectCode(res, RC::ParentVaultNotMatch, nm); return; }
                if (a == b) { expectCode(res, RC::SameVaultRecordSet, nm); return; }
                expectCode(res, RC::Success, nm); std::set<int> out;
                if (kind == 0) { out = x.mem; out.insert(y.mem.begin(), y.mem.end()); }
                else for (int id : x.mem) if ((y.mem.count(id) > 0) == (kind == 2)) out.insert(id);
                x.mem = out;
            }};
        }
        Op free3(bool uni, int a, int b, int c)
        {
            std::string nm = std::string(uni ? "Union(" : "Intersection(") + N("s", a) + "," + N("s", b) + "," + N("s", c) + ")";
            return {nm, [=](const Model& m) { return m.s[a].exists && m.s[b].exists && m.s[c].exists; }, [=](World& w, Model& m)
            {
                auto res = uni ? Union(*w.s[a], *w.s[b], *w.s[c]) : Intersection(*w.s[a], *w.s[b], *w.s[c]);
                if (a == b || a == c || b == c) { expectCode(res, RC::SameVaultRecordSet, nm); return; }
                auto &x = m.s[a], &y = m.s[b];
                if (x.parent < 0) { expectCode(res, RC::ParentVaultNotValid, nm); return; }
                if (y.parent < 0) { expectCode(res, RC::OtherParentVaultNotValid, nm); return; }
                if (x.parent != y.parent) { expectCode(res, RC::ParentVaultNotMatch, nm); return; }
                expectCode(res, RC::Success, nm); std::set<int> out;
                for (int id : x.mem) if (uni || y.mem.count(id)) out.insert(id);
                if (uni) out.insert(y.mem.begin(), y.mem.end());
                m.s[c].parent = x.parent; m.s[c].mem = out;
            }};
        }
        Op setCopy(int a, int b) { return {N("s", b) + "=" + N("s", a), have2(a, b), [=](World& w, Model& m) { *w.s[b] = *w.s[a]; m.s[b] = m.s[a]; }}; }
        Op setCopyCtor(int a, int b) { return {N("s", b) + "=new VaultRecordSet(" + N("s", a) + ")", [=](const Model& m) { return a != b && m.s[a].exists; }, [=](World& w, Model& m) { std::unique_ptr<VaultRecordSet> n(new VaultRecordSet(*w.s[a])); w.s[b] = std::move(n); m.s[b] = m.s[a]; }}; }
        Op setMove(int a, int b)
        {
            return {N("s", b) + "=move(" + N("s", a) + ")", have2(a, b), [=](World& w, Model& m) { VaultRecordSet& src = *w.s[a]; *w.s[b] = std::move(src); if (a != b) { m.s[b] = m.s[a]; m.s[a] = MSet{}; } }};
        }
        Op setMoveCtor(int a, int b)
        {
            return {N("s", b) + "=new VaultRecordSet(move(" + N("s", a) + "))", [=](const Model& m) { return a != b && m.s[a].exists; }, [=](World& w, Model& m)
            {
                std::unique_ptr<VaultRecordSet> n(new VaultRecordSet(std::move(*w.s[a]))); w.s[b] = std::move(n); m.s[b] = m.s[a]; m.s[a] = MSet{};
            }};
        }

    }
}
