#include "observe.hpp"
namespace mc
{
        void Obs::ref(int i)
        {
            std::string n = "r" + std::to_string(i); auto& r = w.r[i]; const VaultRecordRef& cr = r; bool v = m.valid(i);
            eq(r.IsValid(), v, n + ".IsValid()");
            if (!v)
            {
                eq(r.GetRecordUniqueId(), std::string("null"), n + ".GetRecordUniqueId() of an invalid reference");
                ok(r.GetKeys().empty(), n + ".GetKeys() of an invalid reference"); ok(r.ToStrings().empty(), n + ".ToStrings() of an invalid reference");
                std::string j = r.ToJson(false); JVal jv; ok(JParser(j).parse(jv) && jv.k == JVal::OBJ && jv.o.empty(), n + ".ToJson() of an invalid reference");
                for (auto& nm : c.names)
                {
                    int d = 77; std::string s = "keep";
                    expectFull(cr.GetData(nm, d), RC::DataRecordNotValid, nm, typeid(int), typeid(void), n + ".GetData of an invalid reference"); eq(d, 77, n + ".GetData changed its output");
                    expectFull(cr.GetDataAsString(nm, s), RC::DataRecordNotValid, nm, typeid(std::string), typeid(void), n + ".GetDataAsString of an invalid reference"); eq(s, std::string("keep"), n + ".GetDataAsString changed its output");
                    ok(!r.IsKeyExist(nm), n + ".IsKeyExist of an invalid reference");
                    expectFull(r.SetData(nm, 1), RC::DataRecordNotValid, nm, typeid(int), typeid(void), n + ".SetData on an invalid reference");
                    expectFull(r.SetData(std::vector<std::pair<std::string, VaultParamInput>>{{nm, 1}, {"later", 2.5}}), RC::DataRecordNotValid, nm, typeid(int), typeid(void), n + ".SetData({}) on an invalid reference");
                }
                return;
            }
            int id = m.r[i].rec; auto& mv = m.v[m.recs.at(id).vault];
            eq(recOf(r, n), id, n + " refers to another record");
            refRow(r, id, mv.keys, n);
            { std::vector<std::string> want; for (auto& k : mv.keys) want.push_back(k.name); ok(r.GetKeys() == want, n + ".GetKeys()"); }
            ok(r.ToStrings() == strRow(id, mv.keys), n + ".ToStrings()");
            for (auto& k : mv.keys) { std::string s; expectCode(r.GetDataAsString(k.name, s), RC::Success, n + ".GetDataAsString"); eq(s, m.recs.at(id).data.at(k.name).str(), n + ".GetDataAsString"); }
            if (c.json)
            {
                JVal j; std::string t = r.ToJson(); ok(JParser(t).parse(j), n + ".ToJson is not JSON: " + t);
                std::vector<std::string> got; jsonRow(j, mv.keys, got, n + ".ToJson"); std::string s; for (auto& p : strRow(id, mv.keys)) s += p.second + "\x1f";
                eq(got[0], s, n + ".ToJson");
            }
            for (auto& nm : c.names) eq(r.IsKeyExist(nm), mv.key(nm) != nullptr, n + ".IsKeyExist(" + nm + ")");
            int d = 77; if (!mv.key("Z")) { expectFull(cr.GetData("Z", d), RC::WrongKey, "Z", typeid(int), typeid(void), n + ".GetData(unknown key)"); eq(d, 77, n + ".GetData output on failure"); }
            for (auto& k : mv.keys) { float f = 5; expectFull(cr.GetData(k.name, f), RC::WrongType, k.name, typeid(float), tix(k.t), n + ".GetData(wrong type)"); eq(f, 5.f, n + ".GetData output on failure"); }
        }
}
