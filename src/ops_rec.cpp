#include "ops.hpp"
namespace mc
{
    namespace ops
    {
        // ------------------------------------------------------------- records
        Op create(int v, Params p, int ref)
        {
            std::string nm = N("v", v) + ".CreateRecord(" + (ref >= 0 ? N("r", ref) + "," : "") + show(p) + ")";
            return {nm, alive(v), [=](World& w, Model& m)
            {
                VaultRecordRef local; VaultRecordRef& rr = ref >= 0 ? w.r[ref] : local;
                auto res = w.v[v]->CreateRecord(rr, conv(p));
                auto& mv = m.v[v]; Row row; for (auto& k : mv.keys) row[k.name] = k.def;
                for (auto& x : p)
                {
                    const Key* k = mv.key(x.first);
                    if (!k) { expectFull(res, RC::WrongKey, x.first, tix(x.second.t), typeid(void), nm); return; }
                    if (k->t != x.second.t) { expectFull(res, RC::WrongType, x.first, tix(x.second.t), tix(k->t), nm); return; }
                    row[x.first] = x.second;
                }
                std::set<std::string> dups; for (auto& k : mv.keys) if (m.dup(v, k.name, row[k.name], -1)) dups.insert(k.name);
                if (!dups.empty())
                {
                    expectCode(res, RC::UniqueKeyValueAlredyInSet, nm); ok(dups.count(res.Key), nm + ": result.Key names " + res.Key + " which is not duplicated");
                    ok(res.RequestedType == tix(mv.key(res.Key)->t), nm + ": result.RequestedType"); return;
                }
                expectCode(res, RC::Success, nm); ok(rr.IsValid(), nm + ": reference not valid after creation");
                int id = m.next++; m.recs[id] = MRec{v, row, rr.GetRecordUniqueId()}; mv.recs.insert(id);
                if (ref >= 0) m.r[ref] = MRef{id};
            }};
        }
        Op set(int r, const std::string& k, Val x)
        {
            std::string nm = N("r", r) + ".SetData(" + k + "," + x.show() + ")";
            return {nm, always(), [=](World& w, Model& m)
            {
                auto res = withType(x.t, [&](auto tag) { using T = typename decltype(tag)::type; return w.r[r].SetData(k, as<T>(x)); });
                if (!m.valid(r)) { expectFull(res, RC::DataRecordNotValid, k, tix(x.t), typeid(void), nm); return; }
                int id = m.r[r].rec, v = m.recs[id].vault; const Key* kk = m.v[v].key(k);
                if (!kk) { expectFull(res, RC::WrongKey, k, tix(x.t), typeid(void), nm); return; }
                if (kk->t != x.t) { expectFull(res, RC::WrongType, k, tix(x.t), tix(kk->t), nm); return; }
                if (m.dup(v, k, x, id)) { expectFull(res, RC::UniqueKeyValueAlredyInSet, k, tix(x.t), tix(kk->t), nm); return; }
                expectCode(res, RC::Success, nm); m.recs[id].data[k] = x;
            }};
        }
        Op setMany(int r, Params p)
        {
            std::string nm = N("r", r) + ".SetData(" + show(p) + ")";
            return {nm, always(), [=](World& w, Model& m)
            {
                auto res = w.r[r].SetData(conv(p));
                if (!m.valid(r)) { expectCode(res, RC::DataRecordNotValid, nm); return; }
                int id = m.r[r].rec, v = m.recs[id].vault;
                for (auto& x : p)
                {
                    const Key* kk = m.v[v].key(x.first);
                    if (!kk) { expectFull(res, RC::WrongKey, x.first, tix(x.second.t), typeid(void), nm); return; }
                    if (kk->t != x.second.t) { expectFull(res, RC::WrongType, x.first, tix(x.second.t), tix(kk->t), nm); return; }
                    if (m.dup(v, x.first, x.second, id)) { expectFull(res, RC::UniqueKeyValueAlredyInSet, x.first, tix(x.second.t), tix(kk->t), nm); return; }
                    m.recs[id].data[x.first] = x.second;
                }
                if (!p.empty()) expectCode(res, RC::Success, nm);
            }};
        }
        Op eraseRef(int v, int r)
        {
            std::string nm = N("v", v) + ".EraseRecord(" + N("r", r) + ")";
            return {nm, [=](const Model& m) { return m.v[v].alive; }, [=](World& w, Model& m)
            {
                bool got = w.v[v]->EraseRecord(w.r[r]); bool want = m.valid(r) && m.recs[m.r[r].rec].vault == v;
                eq(got, want, nm); if (want) m.eraseRec(m.r[r].rec);
            }};
        }
        // EraseRecord(key,value) / EraseRecords(key,value,amount); amount -1 = single form, -2 = all
        Op eraseKV(int v, const std::string& k, Val x, long amount)
        {
            std::string nm = N("v", v) + (amount == -1 ? ".EraseRecord(" : ".EraseRecords(") + k + "," + x.show() + (amount >= 0 ? "," + std::to_string(amount) : "") + ")";
            return {nm, alive(v), [=](World& w, Model& m)
            {
                auto& mv = m.v[v];
                auto res = withType(x.t, [&](auto tag)
                {
                    using T = typename decltype(tag)::type;
                    if (amount == -1) return w.v[v]->EraseRecord(k, as<T>(x));
                    if (amount == -2) return w.v[v]->EraseRecords(k, as<T>(x));
                    return w.v[v]->EraseRecords(k, as<T>(x), (size_t)amount);
                });
                const Key* kk = mv.key(k);
                if (!kk) { expectFull(res, RC::WrongKey, k, tix(x.t), typeid(void), nm); return; }
                if (kk->t != x.t) { expectFull(res, RC::WrongType, k, tix(x.t), tix(kk->t), nm); return; }
                auto cand = m.withVal(mv.recs, k, x);
                if (cand.empty()) { expectFull(res, RC::WrongValue, k, tix(x.t), tix(kk->t), nm); return; }
                expectCode(res, RC::Success, nm);
                size_t want = amount == -1 ? 1 : amount == -2 ? cand.size() : std::min<size_t>(amount, cand.size());
                auto now = uids(w, v, k); std::set<int> gone;
                for (int id : mv.recs) if (!now.count(m.recs[id].uid)) gone.insert(id);
                eq(gone.size(), want, nm + ": number of erased records");
                for (int id : gone) { ok(cand.count(id), nm + ": erased a record that does not hold the value"); }
                for (int id : gone) m.eraseRec(id);
            }};
        }
        Op dropData(int v)
        {
            return {N("v", v) + ".DropData()", alive(v), [=](World& w, Model& m) { w.v[v]->DropData(); auto ids = m.v[v].recs; for (int id : ids) m.eraseRec(id); }};
        }
        Op dropVault(int v) { return {N("v", v) + ".DropVault()", alive(v), [=](World& w, Model& m) { w.v[v]->DropVault(); m.dropVault(v); }}; }
        Op destroyVault(int v) { return {"delete " + N("v", v), alive(v), [=](World& w, Model& m) { w.v[v].reset(); m.dropVault(v); m.v[v].alive = false; }}; }
        Op newVault(int v) { return {"new " + N("v", v), [=](const Model& m) { return !m.v[v].alive; }, [=](World& w, Model& m) { w.v[v].reset(new Vault); m.v[v] = MVault{}; }}; }
        Op readCsv(int v, std::vector<std::string> keys, std::vector<std::vector<Val>> rows)
        {
            std::string nm = N("v", v) + ".ReadFile(", text;
            for (size_t i = 0; i < keys.size(); ++i) text += (i ? "," : "") + keys[i];
            for (auto& r : rows) { text += "\n"; for (size_t i = 0; i < r.size(); ++i) text += (i ? "," : "") + (r[i].t == STR ? "\"" + r[i].s + "\"" : r[i].str()); }
            for (char c : text) nm += c == '\n' ? std::string("\\n") : std::string(1, c);
            nm += ")";
            return {nm, alive(v), [=](World& w, Model& m)
            {
                { std::ofstream f(scratchFile()); f << text << "\n"; }
                bool got = w.v[v]->ReadFile(scratchFile()); ok(got, nm + ": returned false");
                auto& mv = m.v[v]; std::vector<std::string> wantErr;
                for (auto& r : rows)
                {
                    Row row; for (auto& k : mv.keys) row[k.name] = k.def; std::string bad;
                    for (size_t i = 0; i < r.size() && bad.empty(); ++i)
                    {   // a key the vault does not have, or text of another type, refuses the row
                        const Key* k = mv.key(keys[i]);
                        if (!k) { bad = keys[i]; break; }
                        if (k->t != r[i].t && k->t != STR) { bad = keys[i]; break; }
                        row[keys[i]] = k->t == STR ? Val(r[i].str()) : r[i];
                    }
                    std::set<std::string> dups; if (bad.empty()) for (auto& k : mv.keys) if (m.dup(v, k.name, row[k.name], -1)) dups.insert(k.name);
                    if (!bad.empty()) wantErr.push_back(bad); else if (!dups.empty()) wantErr.push_back("");
                    else { int id = m.next++; m.recs[id] = MRec{v, row, ""}; mv.recs.insert(id); }
                }
                auto err = w.v[v]->GetErrorsInLastReadedFile(); eq(err.size(), wantErr.size(), nm + ": number of reported rows");
                for (size_t i = 0; i < err.size(); ++i) if (!wantErr[i].empty()) eq(err[i].second, wantErr[i], nm + ": key of the refused row");
                unlink(scratchFile().c_str()); bindByContent(w, m, v);
            }};
        }
    }
}
