// Full observation of the real objects through every public read path, compared with the model.
#pragma once
#include "model.hpp"
#include "json.hpp"
namespace mc
{
    struct ObsCfg
    {
        std::map<VT, std::vector<Val>> domain{{INT, {Val(0), Val(1), Val(2), Val(3)}}, {STR, {Val(""), Val("a"), Val("b")}}};
        std::vector<std::string> names{"A", "B", "C", "Z"};
        bool requests = true, json = true, refs = true, strings = true, sorted = true;
    };

    struct Obs
    {
        World& w; Model& m; const ObsCfg& c;
        std::map<std::string, int> uidToRec;
        VaultRecordSet tmp;
        Obs(World& w_, Model& m_, const ObsCfg& c_) : w(w_), m(m_), c(c_)
        {
            for (auto& p : m.recs) if (!p.second.uid.empty()) uidToRec[p.second.uid] = p.first;
        }
        int recOf(const VaultRecordRef& r, const std::string& what)
        {
            ok(r.IsValid(), what + ": invalid reference returned");
            auto it = uidToRec.find(r.GetRecordUniqueId());
            if (it == uidToRec.end()) fail(what + ": reference to an unknown record");
            return it->second;
        }
        std::set<int> recsOf(const std::vector<VaultRecordRef>& v, const std::string& what)
        {
            std::set<int> o;
            for (auto& r : v) if (!o.insert(recOf(r, what)).second) fail(what + ": record returned twice");
            return o;
        }
        static void same(const std::set<int>& got, const std::set<int>& want, const std::string& what)
        {
            if (got != want) fail(what + ": got records " + showIds(got) + " want " + showIds(want));
        }
        template <class T> void refHas(const VaultRecordRef& r, const std::string& k, const Val& v, const std::string& what)
        {
            T out{}; auto res = r.GetData(k, out); expectCode(res, RC::Success, what + " GetData(" + k + ")");
            if (!(out == as<T>(v))) fail(what + ": key " + k + " holds another value than " + v.show());
        }
        void refRow(const VaultRecordRef& r, int id, const std::vector<Key>& keys, const std::string& what)
        {
            for (auto& k : keys) withType(k.t, [&](auto tag) { this->template refHas<typename decltype(tag)::type>(r, k.name, m.recs.at(id).data.at(k.name), what); });
        }
        std::vector<std::pair<std::string, std::string>> strRow(int id, const std::vector<Key>& keys)
        {
            std::vector<std::pair<std::string, std::string>> o;
            for (auto& k : keys) o.emplace_back(k.name, m.recs.at(id).data.at(k.name).str());
            return o;
        }
        void jsonRow(const JVal& j, const std::vector<Key>& keys, std::vector<std::string>& flat, const std::string& what)
        {
            ok(j.k == JVal::OBJ, what + ": record is not a JSON object"); eq(j.o.size(), keys.size(), what + ": JSON key count");
            std::string s;
            for (size_t i = 0; i < keys.size(); ++i)
            {
                eq(j.o[i].first, keys[i].name, what + ": JSON key"); auto& x = j.o[i].second;
                JVal::K want = keys[i].t == STR ? JVal::STR : keys[i].t == BOOL ? JVal::BOOL : JVal::NUM;
                ok(x.k == want, what + ": JSON kind of key " + keys[i].name);
                s += x.s + "\x1f";
            }
            flat.push_back(s);
        }
        // Does every read path of a vault or set agree with the model's records and their current values?
        template <class C> void container(C& box, const std::set<int>& mem, const std::vector<Key>& keys, const std::string& n);
        template <class T, class C> void perKey(C& box, const std::set<int>& mem, const std::vector<Key>& keys, const Key& k, const std::string& n);
        void vault(int i);
        void set(int i);
        void setPairs();
        void ref(int i);
        void refPairs()
        {
            for (size_t a = 0; a < w.r.size(); ++a) for (size_t b = 0; b < w.r.size(); ++b)
            {
                bool e = m.valid(a) == m.valid(b) && (!m.valid(a) || m.r[a].rec == m.r[b].rec);
                std::string n = "r" + std::to_string(a) + "==r" + std::to_string(b);
                eq(w.r[a] == w.r[b], e, n); eq(w.r[a] != w.r[b], !e, n + " (!=)");
            }
        }
        void all()
        {
            for (size_t i = 0; i < w.v.size(); ++i) if (m.v[i].alive) vault(i);
            for (size_t i = 0; i < w.s.size(); ++i) if (m.s[i].exists) set(i);
            setPairs();
            if (c.refs) { for (size_t i = 0; i < w.r.size(); ++i) ref(i); refPairs(); }
        }
    };
    void bindByContent(World& w, Model& m, int vi);
}
