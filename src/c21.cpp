// C21: printed tables show exactly the data: every content x key list x sort key x direction x limit x id mode.
#include "enumx.hpp"
#include "MVault.h"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <sstream>
using namespace mvlt; using namespace mc;
#ifdef MC_SMALL
constexpr int SHRINK = 1;
#else
constexpr int SHRINK = 0;
#endif
struct R { int n; std::string s; bool f; };
using Cells = std::map<std::string, std::string>;
static Cells cells(const R& r) { return {{"Num", std::to_string(r.n)}, {"S", r.s}, {"Flag", r.f ? "true" : "false"}}; }
struct Capture { std::ostringstream ss; std::streambuf* old; Capture() : old(std::cout.rdbuf(ss.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
template <class F> static std::string cap(F f) { Capture c; f(); std::cout.flush(); return c.ss.str(); }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> o; std::string c; for (char x : t) if (x == '\n') { o.push_back(c); c.clear(); } else c += x; if (!c.empty()) o.push_back(c); return o; }
struct Rowx { std::vector<std::string> c; std::string id; };
// Reads a printed table; checks its frame and alignment.
static std::vector<Rowx> table(const std::string& t, const std::vector<std::string>& keys, size_t count, bool id, const std::string& at)
{
    auto L = lines(t); if (L.size() < 5) fail(at + "no table printed: " + vis(t));
    auto frame = [&](const std::string& l, std::vector<size_t>& cuts) { cuts.clear(); if (l.empty()) return false; char corner = l[0]; if (corner != '+' && corner != '$') return false; char fill = corner == '+' ? '-' : '~'; for (size_t i = 0; i < l.size(); ++i) if (l[i] == corner) cuts.push_back(i); else if (l[i] != fill) return false; return l.back() == corner; };
    std::vector<size_t> cut, c2; ok(frame(L[0], cut) && cut.size() == keys.size() + 1, at + "first line does not frame " + std::to_string(keys.size()) + " columns: " + vis(t));
    ok(frame(L[2], c2) && c2 == cut, at + "header is not followed by the same frame: " + vis(t)); ok(frame(L[L.size() - 2], c2) && c2 == cut, at + "rows are not followed by the same frame: " + vis(t));
    ok(L[0][0] == '+' && L[2][0] == '+' && (L[L.size() - 2][0] == '+') == (L.size() - 5 >= count), at + "the closing line does not tell whether all records were printed: " + vis(t));
    ok(L.back() == " (" + std::to_string(count) + " records)", at + "record count line is \"" + vis(L.back()) + "\" want " + std::to_string(count));
    auto row = [&](const std::string& l, bool ids) { Rowx r; if (l.size() < L[0].size() || (!ids && l.size() != L[0].size())) fail(at + "row of another width: " + vis(t)); for (size_t i = 0; i + 1 < cut.size(); ++i) { ok(l[cut[i]] == '|' && l[cut[i] + 1] == ' ' && l[cut[i + 1] - 1] == ' ', at + "misaligned row: " + vis(t)); r.c.push_back(l.substr(cut[i] + 2, cut[i + 1] - cut[i] - 3)); } ok(l[cut.back()] == '|', at + "misaligned row: " + vis(t)); r.id = l.substr(cut.back() + 1); return r; };
    auto h = row(L[1], false); for (size_t i = 0; i < keys.size(); ++i) { std::string k = keys[i]; ok(h.c[i].size() >= k.size(), at + "header cell too narrow: " + vis(t)); k.resize(h.c[i].size(), ' '); ok(h.c[i] == k, at + "header names \"" + vis(h.c[i]) + "\" not " + keys[i] + ": " + vis(t)); }
    std::vector<Rowx> o; for (size_t i = 3; i + 2 < L.size(); ++i) { auto r = row(L[i], id); if (id) { ok(r.id.size() > 1 && r.id[0] == ' ', at + "row without its id: " + vis(t)); r.id.erase(0, 1); } o.push_back(r); } return o;
}
static bool cellIs(const std::string& c, std::string v) { if (c.size() < v.size()) return false; v.resize(c.size(), ' '); return c == v; }
// rows must be `want` distinct records, sorted by `sortBy`; unsorted order given by `exact`
struct Item { Cells c; std::string id; };
static void rows(const std::vector<Rowx>& got, const std::vector<std::string>& keys, const std::vector<Item>& recs, size_t limit, bool id, const std::string& at, const std::string& t)
{
    size_t want = std::min(limit, recs.size()); if (got.size() != want) fail(at + std::to_string(got.size()) + " rows printed, want " + std::to_string(want) + ": " + vis(t));
    auto eqRow = [&](const Rowx& g, const Item& r) { for (size_t i = 0; i < keys.size(); ++i) { auto it = r.c.find(keys[i]); if (!cellIs(g.c[i], it == r.c.end() ? "" : it->second)) return false; } return !id || g.id == r.id; };
    for (size_t i = 0; i < want; ++i) if (!eqRow(got[i], recs[i])) fail(at + "row " + std::to_string(i) + " is not the expected record: " + vis(t));
}
// recs: sorted candidates; ties are matched as groups
static void sortedRows(std::vector<Rowx> got, const std::vector<std::string>& keys, std::vector<Item> recs, const std::function<int(const Item&, const Item&)>& cmp, size_t limit, bool id, const std::string& at, const std::string& t)
{
    std::stable_sort(recs.begin(), recs.end(), [&](const Item& a, const Item& b) { return cmp(a, b) < 0; }); size_t want = std::min(limit, recs.size()); if (got.size() != want) fail(at + std::to_string(got.size()) + " rows printed, want " + std::to_string(want) + ": " + vis(t));
    auto eqRow = [&](const Rowx& g, const Item& r) { for (size_t i = 0; i < keys.size(); ++i) { auto it = r.c.find(keys[i]); if (!cellIs(g.c[i], it == r.c.end() ? "" : it->second)) return false; } return !id || g.id == r.id; };
    std::vector<bool> used(recs.size());
    for (size_t i = 0; i < want; ++i) { bool f = false; for (size_t k = 0; k < recs.size() && !f; ++k) if (!used[k] && cmp(recs[k], recs[i]) == 0 && eqRow(got[i], recs[k])) { used[k] = true; f = true; } if (!f) fail(at + "row " + std::to_string(i) + " is not the record due there: " + vis(t)); }
}
static std::function<int(const Item&, const Item&)> by(const std::string& k, bool rev) { return [=](const Item& a, const Item& b) { const auto &x = a.c.at(k), &y = b.c.at(k); int r = k == "Num" ? (std::stoi(x) > std::stoi(y)) - (std::stoi(x) < std::stoi(y)) : x.compare(y) < 0 ? -1 : x.compare(y) > 0; return rev ? -r : r; }; }
static void notice(const std::string& t, const std::string& at) { ok(!t.empty(), at + "nothing printed"); ok(t.find('|') == t.npos, at + "a table printed: " + vis(t)); auto L = lines(t); ok(!L[0].empty(), at + "no notice"); }
static const std::vector<R> POOL{{0, "", true}, {0, "abc", false}, {-12, "abc", true}, {12345, "abcdefgh", false}, {12345, "b c ", true}, {-12, "", false}};
static std::vector<std::vector<R>> contents(int n) { std::vector<std::vector<R>> out; std::vector<R> c; std::function<void(size_t)> go = [&](size_t f) { out.push_back(c); if ((int)c.size() == n) return; for (size_t k = f; k < POOL.size(); ++k) { c.push_back(POOL[k]); go(k); c.pop_back(); } }; go(0); return out; }
struct Bed { Vault v; VaultRecordSet s; std::vector<Item> recs, in; std::vector<VaultRecordRef> refs; };
static void fill(Bed& b, const std::vector<R>& c)
{
    b.v.AddKey("Num", 0); b.v.AddKey("S", std::string()); b.v.AddKey("Flag", false);
    for (auto& r : c) { VaultRecordRef ref; ok(b.v.CreateRecord(ref, {{"Num", r.n}, {"S", r.s}, {"Flag", r.f}}).IsOperationSuccess, "harness"); b.refs.push_back(ref); b.recs.push_back({cells(r), ref.GetRecordUniqueId()}); if (r.n <= 0) b.in.push_back(b.recs.back()); }
    b.v.RequestLessOrEqual("Num", 0, b.s);
}
int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        static const std::vector<std::vector<R>> C = contents(g_thorough ? 5 : SHRINK ? 2 : 3);
        static const std::vector<std::vector<std::string>> KL = [] { std::vector<std::vector<std::string>> o{{}}; std::vector<std::string> all{"Num", "S", "Flag"}; std::function<void(std::vector<std::string>)> go = [&](std::vector<std::string> c) { if (!c.empty()) o.push_back(c); for (auto& k : all) if (std::find(c.begin(), c.end(), k) == c.end()) { auto d = c; d.push_back(k); go(d); } }; go({}); o.push_back({"S", "Unknown"}); o.push_back({"Num", "Q", "Flag"}); o.push_back({"S", "S"}); return o; }();
        static const std::vector<std::string> DEF{"Num", "S", "Flag"};
        auto showC = [](size_t i) { std::string o; for (auto& r : C[i]) o += "(" + std::to_string(r.n) + "," + r.s + "," + (r.f ? "true" : "false") + ")"; return o; };
        e.secs.push_back({"tables", C.size() * KL.size(), [=](size_t i)
        {
            auto& c = C[i / KL.size()]; auto& kl = KL[i % KL.size()]; Bed b; fill(b, c); auto keys = kl.empty() ? DEF : kl; std::list<std::string> lk(kl.begin(), kl.end()); unsigned long n = 0;
            for (bool set : {false, true}) for (const char* pk : {"", "Num", "S", "Flag"}) for (bool rev : {false, true}) for (bool id : {false, true}) for (size_t lim = 0; lim <= c.size() + 2; ++lim)
            {
                size_t limit = lim == c.size() + 2 ? (size_t)-1 : lim; auto& recs = set ? b.in : b.recs; std::string at = std::string(set ? "set" : "vault") + ".Print(id " + std::to_string(id) + ", limit " + (limit == (size_t)-1 ? "all" : std::to_string(limit)) + ", by '" + pk + "', reverse " + std::to_string(rev) + "): ";
                std::string t = cap([&] { set ? b.s.Print(id, limit, pk, rev, lk) : b.v.Print(id, limit, pk, rev, lk); }); auto g = table(t, keys, recs.size(), id, at); std::string sk = *pk ? pk : keys[0]; sortedRows(g, keys, recs, by(sk, rev), limit, id, at, t); ++n;
            }
            // containers of references, in container order
            for (bool id : {false, true}) for (size_t lim = 0; lim <= c.size() + 2; ++lim)
            {
                size_t limit = lim == c.size() + 2 ? (size_t)-1 : lim; for (int rot = 0; rot < 2; ++rot)
                {
                    auto refs = b.refs; auto recs = b.recs; if (rot) { std::reverse(refs.begin(), refs.end()); std::reverse(recs.begin(), recs.end()); } std::string at = "PrintAsTable(id " + std::to_string(id) + ", limit " + (limit == (size_t)-1 ? "all" : std::to_string(limit)) + "): ";
                    std::string t = cap([&] { PrintAsTable(refs, id, limit, kl); }), t2 = cap([&] { PrintAsTable(std::list<VaultRecordRef>(refs.begin(), refs.end()), id, limit, kl); }), t3 = cap([&] { PrintAsTable(std::deque<VaultRecordRef>(refs.begin(), refs.end()), id, limit, kl); });
                    if (c.empty()) { notice(t, at); notice(t2, at); continue; } ok(t == t2 && t == t3, at + "vector, list and deque print differently"); auto g = table(t, keys, recs.size(), id, at); rows(g, keys, recs, limit, id, at, t); ++n;
                }
            }
            for (size_t k = 0; k < b.refs.size(); ++k) { std::string t = cap([&] { b.refs[k].PrintRecord(); }); auto L = lines(t); std::multiset<std::string> got, want; for (size_t q = 1; q < L.size(); ++q) got.insert(L[q]); for (auto& x : b.recs[k].c) want.insert("\t" + x.first + " = " + x.second); ok(got == want && !L.empty() && L[0].find(b.recs[k].id) != std::string::npos, "PrintRecord prints " + vis(t)); ++n; }
            evals(n, c.empty() ? 0 : n);
        }, [=](size_t i) { std::string k; for (auto& x : KL[i % KL.size()]) k += x + " "; return "records " + showC(i / KL.size()) + " keys [" + k + "]"; }, "every multiset of up to " + std::to_string(g_thorough ? 5 : SHRINK ? 2 : 3) + " records over 6 x 19 key lists x 4 sort keys x direction x ids x limits 0..n+1 and all, on vault, set, containers and single records", 30, 4});
        e.secs.push_back({"states", 15, [=](size_t i)
        {
            Bed b; fill(b, {POOL[1], POOL[2], POOL[3]}); auto pr = [&](bool set) { return cap([&] { set ? b.s.Print() : b.v.Print(); }); }; unsigned long n = 1;
            auto full = [&](bool set, std::vector<std::string> keys, std::vector<Item> recs, const std::string& at) { std::string t = pr(set); auto g = table(t, keys, recs.size(), false, at); sortedRows(g, keys, recs, by(keys[0], false), -1, false, at, t); };
            auto setv = [&](Item& it, const char* k, const char* v) { it.c[k] = v; };
            switch (i)
            {
            case 0: { Vault v; notice(cap([&] { v.Print(); }), "empty vault: "); VaultRecordSet s; notice(cap([&] { s.Print(); }), "detached set: "); notice(cap([&] { VaultRecordRef().PrintRecord(); }), "null reference: "); notice(cap([&] { PrintAsTable(std::vector<VaultRecordRef>()); }), "empty container: "); break; }
            case 1: b.v.DropVault(); notice(pr(false), "dropped vault: "); notice(pr(true), "set of a dropped vault: "); notice(cap([&] { b.refs[0].PrintRecord(); }), "reference of a dropped vault: "); cap([&] { PrintAsTable(b.refs); }); break;
            case 2: b.v.DropData(); full(false, DEF, {}, "after DropData: "); full(true, DEF, {}, "set after DropData: "); break;
            case 3: b.refs[2].SetData("Num", -7); b.recs[2].c["Num"] = "-7"; full(false, DEF, b.recs, "after update: "); full(true, DEF, b.in, "set after update: "); break;
            case 4: b.refs[0].SetData("S", std::string("a much wider cell than before")); setv(b.recs[0], "S", "a much wider cell than before"); setv(b.in[0], "S", "a much wider cell than before"); full(false, DEF, b.recs, "after widening: "); full(true, DEF, b.in, "set after widening: "); break;
            case 5: b.v.EraseRecord(b.refs[0]); b.recs.erase(b.recs.begin()); b.in.erase(b.in.begin()); full(false, DEF, b.recs, "after erase: "); full(true, DEF, b.in, "set after erase: "); break;
            case 6: b.v.RemoveKey("Num"); for (auto& r : b.recs) r.c.erase("Num"); for (auto& r : b.in) r.c.erase("Num"); full(false, {"S", "Flag"}, b.recs, "after RemoveKey: "); full(true, {"S", "Flag"}, b.in, "set after RemoveKey: "); break;
            case 7: b.v.AddKey("Extra", std::string("e")); for (auto& r : b.recs) r.c["Extra"] = "e"; for (auto& r : b.in) r.c["Extra"] = "e"; full(false, {"Num", "S", "Flag", "Extra"}, b.recs, "after AddKey: "); full(true, {"Num", "S", "Flag", "Extra"}, b.in, "set after AddKey: "); break;
            case 8: b.s.RemoveRecord(b.refs[0]); b.in.erase(b.in.begin()); full(true, DEF, b.in, "after RemoveRecord: "); full(false, DEF, b.recs, "vault after RemoveRecord: "); break;
            case 9: b.s.Reset(); notice(pr(true), "reset set: "); break;
            case 10: b.s.Clear(); full(true, DEF, {}, "cleared set: "); break;
            case 11: { b.v.EraseRecord(b.refs[1]); std::string t = cap([&] { PrintAsTable(b.refs, false, -1, DEF); }); Item none; b.recs[1] = none; rows(table(t, DEF, 3, false, "container with an invalid reference: "), DEF, b.recs, -1, false, "container with an invalid reference: ", t); notice(cap([&] { b.refs[1].PrintRecord(); }), "invalid reference: "); break; }
            case 12: { for (auto k : {"Num", "S", "Flag"}) b.v.RemoveKey(k); std::string t = pr(false); ok(t.find("(3 records)") != t.npos && t.find('|') == t.npos, "keyless vault: " + vis(t)); t = pr(true); ok(t.find("(2 records)") != t.npos && t.find('|') == t.npos, "set of a keyless vault: " + vis(t)); break; }
            case 13: { std::unique_ptr<Vault> v(new Vault); v->AddKey("A", 1); VaultRecordRef r; v->CreateRecord(r, {}); VaultRecordSet s; v->RequestEqual("A", 1, s); v.reset(); notice(cap([&] { s.Print(); }), "set of a destroyed vault: "); notice(cap([&] { r.PrintRecord(); }), "reference of a destroyed vault: "); cap([&] { PrintAsTable(std::vector<VaultRecordRef>{r, VaultRecordRef()}); }); break; }
            case 14:
            {
                // one container with references into two vaults with different keys, invalid references among them
                Vault w; w.AddKey("S", std::string()); w.AddKey("Z", 1); VaultRecordRef q, z; w.CreateRecord(q, {{"S", std::string("other")}, {"Z", 77}}); w.CreateRecord(z, {{"S", std::string("gone")}}); w.EraseRecord(z); Item iq{{{"S", "other"}, {"Z", "77"}}, q.GetRecordUniqueId()}, none;
                std::vector<VaultRecordRef> all{b.refs[0], q, VaultRecordRef(), b.refs[1], z}; std::vector<Item> want{b.recs[0], iq, none, b.recs[1], none}; std::vector<size_t> p{0, 1, 2, 3, 4};
                do
                {
                    std::vector<VaultRecordRef> c; std::vector<Item> x; for (auto k : p) { c.push_back(all[k]); x.push_back(want[k]); }
                    for (auto& kl : std::vector<std::vector<std::string>>{{"S"}, {"Z"}, {"Num"}, {"S", "Z", "Num", "Flag"}, {"Z", "S"}, {"Num", "Z"}}) for (size_t lim : {(size_t)0, (size_t)1, (size_t)3, (size_t)4, (size_t)5, (size_t)6, (size_t)-1}) { std::string at = "mixed container: ", t = cap([&] { PrintAsTable(c, false, lim, kl); }); rows(table(t, kl, 5, false, at), kl, x, lim, false, at, t); ++n; }
                    std::string t = cap([&] { PrintAsTable(c); }); if (p[0] == 2 || p[0] == 4) continue; auto kl = p[0] == 1 ? std::vector<std::string>{"S", "Z"} : DEF; auto g = table(t, kl, 5, false, "mixed container, default keys: "); rows(g, kl, x, -1, false, "mixed container, default keys: ", t); ++n;
                } while (std::next_permutation(p.begin(), p.end()));
                break;
            }
            }
            evals(n, n);
        }, [](size_t i) { return "state scenario " + std::to_string(i); }, "empty, detached, dropped, destroyed, updated and re-keyed objects; containers mixing two vaults and invalid references in every order", 20, 1});
    });
}
