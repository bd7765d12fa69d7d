#pragma once
#include "observe.hpp"
namespace mc
{
        // Does every read path of a vault or set agree with the model's records and their current values?
        template <class C> void Obs::container(C& box, const std::set<int>& mem, const std::vector<Key>& keys, const std::string& n)
        {
            eq(box.Size(), mem.size(), n + ".Size()");
            {
                std::vector<std::string> want, uniq; for (auto& k : keys) { want.push_back(k.name); if (k.uniq) uniq.push_back(k.name); }
                ok(box.GetKeys() == want, n + ".GetKeys() differs from the key history");
                auto u = box.GetUniqueKeys(); std::sort(u.begin(), u.end()); std::sort(uniq.begin(), uniq.end());
                ok(u == uniq, n + ".GetUniqueKeys() differs");
            }
            for (auto& nm : c.names)
            {
                const Key* k = nullptr; for (auto& x : keys) if (x.name == nm) k = &x;
                eq(box.IsKeyExist(nm), k != nullptr, n + ".IsKeyExist(" + nm + ")");
                std::type_index ti = typeid(void); bool r = box.GetKeyType(nm, ti);
                eq(r, k != nullptr, n + ".GetKeyType(" + nm + ")");
                if (k) ok(ti == tix(k->t), n + ".GetKeyType(" + nm + ") type");
            }
            for (auto& k : keys) withType(k.t, [&](auto tag) { this->template perKey<typename decltype(tag)::type>(box, mem, keys, k, n); });
            if (c.strings)
            {
                auto got = box.ToStrings(); std::vector<std::vector<std::pair<std::string, std::string>>> want;
                for (int id : mem) want.push_back(strRow(id, keys));
                std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
                ok(got == want, n + ".ToStrings() differs from the records");
            }
            if (c.json)
            {
                JVal j; std::string t = box.ToJson(false, 2, true, "R", true);
                ok(JParser(t).parse(j) && j.k == JVal::ARR, n + ".ToJson is not a JSON array: " + t);
                std::vector<std::string> got, want;
                for (auto& e : j.a) jsonRow(e, keys, got, n + ".ToJson");
                for (int id : mem) { std::string s; for (auto& p : strRow(id, keys)) s += p.second + "\x1f"; want.push_back(s); }
                std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
                ok(got == want, n + ".ToJson differs from the records: " + t);
            }
        }
        template <class T, class C> void Obs::perKey(C& box, const std::set<int>& mem, const std::vector<Key>& keys, const Key& k, const std::string& n)
        {
            { // default value
                T d{}; auto r = box.GetKeyValue(k.name, d);
                if (k.uniq) expectCode(r, RC::UniqueKey, n + ".GetKeyValue(" + k.name + ")");
                else { expectCode(r, RC::Success, n + ".GetKeyValue(" + k.name + ")"); ok(d == as<T>(k.def), n + ".GetKeyValue(" + k.name + ") is not " + k.def.show()); }
            }
            if (c.sorted) for (int rev = 0; rev < 2; ++rev)
            {
                std::string q = n + (rev ? ".GetSortedRecords(reverse," : ".GetSortedRecords(") + k.name + ")";
                auto v = box.GetSortedRecords(k.name, rev);
                auto ids = recsOf(v, q); same(ids, mem, q);
                const Val* prev = nullptr;
                for (auto& r : v)
                {
                    int id = recOf(r, q); const Val& cur = m.recs.at(id).data.at(k.name);
                    if (prev && (rev ? *prev < cur : cur < *prev)) fail(q + ": not ordered (" + prev->show() + " before " + cur.show() + ")");
                    prev = &cur;
                    if (!rev) refRow(r, id, keys, q);
                }
                std::vector<std::string> a, b; for (auto& r : v) a.push_back(r.GetRecordUniqueId());
                box.SortBy(k.name, [&](const VaultRecordRef& r) { b.push_back(r.GetRecordUniqueId()); return true; }, rev);
                ok(a == b, n + ".SortBy(" + k.name + ") differs from GetSortedRecords");
            }
            auto dit = c.domain.find(k.t);
            if (dit == c.domain.end()) return;
            for (auto& x : dit->second)
            {
                auto want = m.withVal(mem, k.name, x); std::string at = "(" + k.name + "," + x.show() + ")";
                VaultRecordRef r; auto res = box.GetRecord(k.name, as<T>(x), r);
                expectCode(res, want.empty() ? RC::WrongValue : RC::Success, n + ".GetRecord" + at);
                if (!want.empty()) ok(want.count(recOf(r, n + ".GetRecord" + at)), n + ".GetRecord" + at + ": a record that does not hold the value");
                else ok(!r.IsValid(), n + ".GetRecord" + at + ": valid reference on failure");
                std::vector<VaultRecordRef> rs; res = box.GetRecords(k.name, as<T>(x), rs);
                expectCode(res, want.empty() ? RC::WrongValue : RC::Success, n + ".GetRecords" + at);
                same(recsOf(rs, n + ".GetRecords" + at), want, n + ".GetRecords" + at);
                if (!c.requests) continue;
                auto chk = [&](const char* nm, const VaultOperationResult& q, const std::function<bool(const Val&)>& p)
                {
                    expectCode(q, RC::Success, n + "." + nm + at);
                    auto wantq = m.match(mem, [&](const Row& row) { return p(row.at(k.name)); });
                    eq(tmp.Size(), wantq.size(), n + "." + nm + at + ": result Size()");
                    same(recsOf(tmp.GetSortedRecords(k.name), n + "." + nm + at), wantq, n + "." + nm + at);
                };
                chk("RequestEqual", box.RequestEqual(k.name, as<T>(x), tmp), [&](const Val& v) { return v == x; });
                chk("RequestGreater", box.RequestGreater(k.name, as<T>(x), tmp), [&](const Val& v) { return x < v; });
                chk("RequestGreaterOrEqual", box.RequestGreaterOrEqual(k.name, as<T>(x), tmp), [&](const Val& v) { return !(v < x); });
                chk("RequestLess", box.RequestLess(k.name, as<T>(x), tmp), [&](const Val& v) { return v < x; });
                chk("RequestLessOrEqual", box.RequestLessOrEqual(k.name, as<T>(x), tmp), [&](const Val& v) { return !(x < v); });
                const Val& y = dit->second.back();
                chk("RequestInterval", box.RequestInterval(k.name, as<T>(x), as<T>(y), tmp, true, true), [&](const Val& v) { return !(v < x) && !(y < v); });
            }
        }
}
