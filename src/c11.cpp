// C11: sorted traversal is complete, ordered, reversible, limited and stoppable.
#include "profiles.hpp"
using namespace mc; using namespace mc::ops;
template <class Box> static void sorts(Box& box, const std::set<int>& mem, const std::vector<Key>& keys, Model& m, Obs& o, const std::string& n)
{
    for (auto& k : keys) for (int rev = 0; rev < 2; ++rev)
    {
        std::vector<Val> want; for (int id : mem) want.push_back(m.recs.at(id).data.at(k.name)); std::sort(want.begin(), want.end()); if (rev) std::reverse(want.begin(), want.end());
        std::string at = n + " by " + k.name + (rev ? " reverse" : "");
        auto check = [&](const std::vector<VaultRecordRef>& got, size_t cnt, const std::string& what)
        {
            eq(got.size(), cnt, what + ": number of records"); std::set<int> seen;
            for (size_t i = 0; i < got.size(); ++i)
            {
                int id = o.recOf(got[i], what); ok(mem.count(id), what + ": record that is not in the container"); ok(seen.insert(id).second, what + ": record visited twice");
                ok(m.recs.at(id).data.at(k.name) == want[i], what + ": position " + std::to_string(i) + " has " + m.recs.at(id).data.at(k.name).show() + " want " + want[i].show());
            }
        };
        std::vector<size_t> limits; for (size_t l = 0; l <= mem.size() + 1; ++l) if (l <= 4 || l + 1 >= mem.size() || (l & (l - 1)) == 0) limits.push_back(l);
        limits.push_back((size_t)-1);
        for (size_t l : limits)
        {
            std::string q = at + " limit " + std::to_string((long)l); size_t cnt = std::min(l, mem.size());
            auto v = box.GetSortedRecords(k.name, rev, l); check(v, cnt, q + " GetSortedRecords");
            std::vector<VaultRecordRef> cb; box.SortBy(k.name, [&](const VaultRecordRef& r) { cb.push_back(r); return true; }, rev, l); check(cb, cnt, q + " SortBy");
            ok(v == cb, q + ": vector and callback form differ");
            if (l > 4 && l != (size_t)-1) continue;
            for (size_t stop = 1; stop <= mem.size() && stop <= 4; ++stop)
            {
                cb.clear(); box.SortBy(k.name, [&](const VaultRecordRef& r) { cb.push_back(r); return cb.size() < stop; }, rev, l);
                check(cb, std::min(stop, cnt), q + " stopping after " + std::to_string(stop));
            }
        }
    }
    int calls = 0; for (int rev = 0; rev < 2; ++rev) { box.SortBy("Z", [&](const VaultRecordRef&) { ++calls; return true; }, rev); ok(box.GetSortedRecords("Z", rev).empty(), n + " unknown key"); }
    eq(calls, 0, n + " unknown key: visits");
}
static void extra(World& w, Model& m, Obs& o)
{
    for (size_t i = 0; i < w.v.size(); ++i) if (m.v[i].alive) sorts(*w.v[i], m.v[i].recs, m.v[i].keys, m, o, "v" + std::to_string(i));
    for (size_t i = 0; i < w.s.size(); ++i) if (m.s[i].exists && m.s[i].parent >= 0) sorts(*w.s[i], m.s[i].mem, m.v[m.s[i].parent].keys, m, o, "s" + std::to_string(i));
}
int main(int argc, char** argv)
{
    Explorer e;
    {
        Profile p; p.name = "sort"; p.nv = 1; p.ns = 1; p.nr = 2; p.depth = 4; p.extra = extra; p.obs.names = {"A", "B", "Z"}; p.obs.requests = p.obs.json = p.obs.strings = false;
        p.inits = {{"5 records with ties, set A>=1", ab() + OpList{create(0, {{"A", 1}, {"B", "b"}}, 0), create(0, {{"A", 2}, {"B", "a"}}), create(0, {{"A", 1}, {"B", "a"}}, 1), create(0, {{"A", -3}, {"B", "B"}}), create(0, {{"A", 10}, {"B", "aa"}}), request(0, 2, "A", 1, 0)}}, {"empty", ab() + OpList{request(0, 2, "A", 1, 0)}}};
        p.alpha = {create(0, {{"A", 1}}, 0), create(0, {{"A", -1}, {"B", "b"}}, 1), create(0, {{"A", 9}}), set(0, "A", 10), set(1, "A", -5), set(0, "B", "z"), set(1, "B", ""), eraseRef(0, 0), eraseKV(0, "A", 1, -1), eraseKV(0, "A", 1, -2), request(0, 3, "A", 5, 0), removeKV(0, "A", 10, -1), addRecord(0, 1), dropData(0)};
        e.profs.push_back(p);
    }
    {
        Profile p; p.name = "types"; p.nv = 1; p.ns = 1; p.nr = 1; p.depth = 2; p.thoroughDepth = 3; p.extra = extra; p.obs.names = {"D", "T", "L", "U", "Z"}; p.obs.requests = p.obs.json = p.obs.strings = false; p.obs.domain.clear();
        OpList o{addKey(0, "D", 0.0), addKey(0, "T", false), addKey(0, "L", 0L), addUnique(0, "U", INT)};
        int u = 0; for (double d : {-1.5, 2.25, -0.25, 2.25}) for (bool b : {true, false}) { ++u; o.push_back(create(0, {{"D", d}, {"T", b}, {"L", (long)(u % 3 - 1) * 5000000000L}, {"U", (u * 5) % 9}}, 0)); }
        p.inits = {{"8 records of other types", o + OpList{request(0, 1, "U", 2, 0)}}};
        p.alpha = {set(0, "D", -7.5), set(0, "T", true), set(0, "L", 6000000000L), set(0, "U", 100), set(0, "U", -1), eraseKV(0, "D", 2.25, -2), eraseKV(0, "U", 5, -1), eraseRef(0, 0), removeKV(0, "T", true, 2), create(0, {{"D", 1.0}, {"U", 50}}, 0)};
        e.profs.push_back(p);
    }
    {
        Profile p; p.name = "bulk"; p.nv = 1; p.ns = 1; p.nr = 2; p.depth = 2; p.extra = extra; p.obs.requests = p.obs.json = p.obs.strings = false;
        p.inits = {{"40 records over 7 values", ab() + bulk(0, 40, 7, 2) + OpList{request(0, 2, "A", 2, 0)}}};
        p.alpha = {set(0, "A", 6), set(1, "A", -1), set(1, "B", "b"), eraseKV(0, "A", 3, -2), eraseKV(0, "A", 2, 3), eraseRef(0, 1), create(0, {{"A", 3}}, 0), removeKV(0, "A", 4, -2), removeKV(0, "A", 5, 2), removeKey(0, "B")};
        e.profs.push_back(p);
    }
    {
        Profile p; p.name = "large"; p.nv = 1; p.ns = 1; p.nr = 2; p.depth = 1; p.extra = extra; p.obs.requests = p.obs.json = p.obs.strings = false;
        p.inits = {{"300 records over 13 values", ab() + bulk(0, 300, 13, 2) + OpList{request(0, 2, "A", 2, 0)}}};
        p.alpha = {set(0, "A", 6), set(1, "A", -1), eraseKV(0, "A", 3, -2), eraseKV(0, "A", 2, 3), removeKV(0, "A", 4, -2)};
        e.profs.push_back(p);
    }
    return e.run(argc, argv);
}
