// C14: reading a file adds exactly the valid rows and reports every invalid one, whatever the header / key list / preload.
#include "enumx.hpp"
#include "csvref.hpp"
#include "MVault.h"
#include <map>
#include <memory>
using namespace mvlt; using namespace mc;
#ifdef MC_SMALL
constexpr int SHRINK = 1;
#else
constexpr int SHRINK = 0;
#endif
using Row = std::vector<std::string>;
using Errs = std::vector<std::pair<std::size_t, std::string>>;
static std::string fname() { return g_scratch + "/c14_" + std::to_string(getpid()) + ".csv"; }
static void put(const std::string& t) { int f = open(fname().c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < t.size()) { ssize_t n = write(f, t.data() + o, t.size() - o); if (n <= 0) { perror("write"); _exit(3); } o += n; } close(f); }
// keys of the vault: A int default 7, S string default "d", U unique int, W unique string (optional)
struct KD { std::string name; char t; bool uniq; std::string def; };
static const std::vector<KD> KEYS2{{"A", 'i', false, "7"}, {"S", 's', false, "d"}, {"U", 'i', true, "0"}}, KEYS3{{"A", 'i', false, "7"}, {"U", 'i', true, "0"}, {"S", 's', false, "d"}, {"W", 's', true, ""}}, KEYS0{{"A", 'i', false, "7"}, {"S", 's', false, "d"}, {"B", 'b', false, "true"}};
static bool isInt(const std::string& s) { size_t i = s.size() > 1 && s[0] == '-'; if (s.empty() || s.size() - i > 9) return false; for (; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }
static bool good(const KD& k, const std::string& s) { return k.t == 's' || (k.t == 'b' ? s == "true" || s == "false" : isInt(s)); }
static std::string canon(const KD& k, const std::string& s) { return k.t == 'i' ? std::to_string(std::stol(s)) : s; }
// The vault as a list of rows (key -> text)
struct MV { const std::vector<KD>* keys; std::vector<std::map<std::string, std::string>> rows; };
// Reference reader: which rows of a parsed file are loaded, and which errors are reported. isHeader: positions count the header
// line for conversion errors, and data rows for refused unique values (both are fixed by the unit tests).
static void load(MV& m, const Rows& data, const Row& fieldKeys, bool header, Errs& errs, std::vector<std::set<std::string>>& alt)
{
    size_t line = 0;
    for (auto& r : data)
    {
        ++line; if (r.empty()) continue; std::map<std::string, std::string> rec; for (auto& k : *m.keys) rec[k.name] = k.def; bool bad = false;
        for (size_t i = 0; i < r.size() && i < fieldKeys.size(); ++i)
        {
            const KD* kd = nullptr; for (auto& k : *m.keys) if (k.name == fieldKeys[i]) kd = &k;
            if (!kd || !good(*kd, r[i])) { errs.emplace_back(line + (header ? 1 : 0), fieldKeys[i]); alt.push_back({fieldKeys[i]}); bad = true; break; }
            rec[kd->name] = canon(*kd, r[i]);
        }
        if (bad) continue;
        std::set<std::string> dup; for (auto& k : *m.keys) if (k.uniq) for (auto& o : m.rows) if (o[k.name] == rec[k.name]) dup.insert(k.name);
        if (!dup.empty()) { errs.emplace_back(line, *dup.begin()); alt.push_back(dup); continue; }
        m.rows.push_back(rec);
    }
}
static void mk(Vault& v, const std::vector<KD>& ks) { for (auto& k : ks) { bool o = k.t == 'i' ? (k.uniq ? (bool)v.AddUniqueKey<int>(k.name).IsOperationSuccess : (bool)v.AddKey(k.name, std::stoi(k.def))) : k.t == 'b' ? (bool)v.AddKey(k.name, k.def == "true") : (k.uniq ? (bool)v.AddUniqueKey<std::string>(k.name).IsOperationSuccess : (bool)v.AddKey(k.name, k.def)); ok(o, "harness: AddKey"); } }
static void add(Vault& v, MV& m, std::map<std::string, std::string> given)
{
    std::vector<std::pair<std::string, VaultParamInput>> p; std::map<std::string, std::string> rec; for (auto& k : *m.keys) { auto it = given.find(k.name); std::string x = it == given.end() ? k.def : it->second; rec[k.name] = x; if (k.t == 'i') p.emplace_back(k.name, VaultParamInput(std::stoi(x))); else if (k.t == 'b') p.emplace_back(k.name, VaultParamInput(x == "true")); else p.emplace_back(k.name, VaultParamInput(x)); }
    ok(v.CreateRecord(p).IsOperationSuccess, "harness: CreateRecord"); m.rows.push_back(rec);
}
using Multi = std::multiset<std::map<std::string, std::string>>;
static std::string show(const Multi& m) { std::string o; for (auto& r : m) { o += "{"; for (auto& f : r) o += f.first + "=" + vis(f.second) + " "; o += "}"; } return o; }
static std::string show(const Errs& e) { std::string o; for (auto& x : e) o += "(" + std::to_string(x.first) + "," + vis(x.second) + ")"; return o + "."; }
static void compare(const Vault& v, const MV& m, const std::string& at)
{
    Multi want(m.rows.begin(), m.rows.end()), got, sorted; for (auto& r : v.ToStrings()) got.insert(std::map<std::string, std::string>(r.begin(), r.end()));
    if (got != want) fail(at + "vault holds " + show(got) + " want " + show(want)); ok(v.Size() == m.rows.size(), at + "Size");
    for (auto& k : *m.keys)
    {
        size_t n = 0; for (auto& r : v.GetSortedRecords(k.name)) { ok(r.IsValid(), at + "invalid record in traversal"); ++n; } ok(n == m.rows.size(), at + "traversal by " + k.name + " visits " + std::to_string(n) + " records, not " + std::to_string(m.rows.size()));
        std::map<std::string, size_t> cnt; for (auto& r : m.rows) ++cnt[r.at(k.name)];
        for (auto& c : cnt) { std::vector<VaultRecordRef> rs; if (k.t == 'i') v.GetRecords(k.name, std::stoi(c.first), rs); else if (k.t == 'b') v.GetRecords(k.name, c.first == "true", rs); else v.GetRecords(k.name, c.first, rs); ok(rs.size() == c.second, at + "lookup " + k.name + "=" + c.first + " finds " + std::to_string(rs.size()) + " records, not " + std::to_string(c.second)); }
    }
}
// All tuples of 0..n cells over al
static std::vector<Row> tuples(const std::vector<std::string>& al, int n, bool withEmpty)
{
    std::vector<Row> out; if (withEmpty) out.push_back({}); std::vector<Row> cur{{}};
    for (int i = 0; i < n; ++i) { std::vector<Row> nx; for (auto& r : cur) for (auto& c : al) { auto q = r; q.push_back(c); nx.push_back(q); } out.insert(out.end(), nx.begin(), nx.end()); cur = nx; } return out;
}
static std::string text(const std::vector<Row>& rows, char sep, const char* eol)
{
    std::string o; for (auto& r : rows) { for (size_t i = 0; i < r.size(); ++i) { if (i) o += sep; if (r.size() == 1 && r[i].empty()) o += "\"\""; else if (r[i].find_first_of("\r\n\"") != std::string::npos) o += "\"" + r[i] + "\""; else o += r[i]; } o += eol; } return o;
}
struct Mode { bool header = true; Row keys; std::string nm; };
static std::vector<Mode> modes(const std::vector<KD>& ks)
{
    std::vector<Mode> out; std::vector<std::string> names; for (auto& k : ks) names.push_back(k.name); names.push_back("Z");
    std::vector<Row> perms; std::function<void(Row)> go = [&](Row c) { if (!c.empty()) perms.push_back(c); if (c.size() == ks.size()) return; for (auto& n : names) if (std::find(c.begin(), c.end(), n) == c.end()) { auto d = c; d.push_back(n); go(d); } }; go({});
    std::string s; for (bool h : {true, false}) for (auto& p : perms) { s = h ? "header " : "key list "; for (auto& k : p) s += k; out.push_back({h, p, s}); }
    out.push_back({false, {}, "vault order"}); return out;
}
// preload: 0 nothing, 1 a record whose unique values collide with cells, 2 two records
static void preload(Vault& v, MV& m, int p)
{
    bool w = m.keys == &KEYS3; if (p >= 1) { std::map<std::string, std::string> g{{"A", "1"}, {"S", "x"}, {"U", "1"}}; if (w) g["W"] = "x"; add(v, m, g); } if (p == 2) { std::map<std::string, std::string> g{{"A", "1"}, {"U", "0"}}; if (w) g["W"] = ""; add(v, m, g); }
}
static void run(const std::vector<KD>& ks, const Mode& md, const std::vector<Row>& rows, int pre, char sep = ',', const char* eol = "\r\n", bool trailing = true, int again = 0)
{
    Vault v; mk(v, ks); MV m{&ks, {}}; preload(v, m, pre);
    std::vector<Row> all = rows; if (md.header) all.insert(all.begin(), md.keys); std::string t = text(all, sep, eol); if (!trailing) t.resize(t.size() - strlen(eol)); put(t);
    Row fk = md.keys; if (!md.header && fk.empty()) for (auto& k : ks) fk.push_back(k.name);
    VaultRecordSet s; v.RequestEqual("A", 1, s); size_t inSet = s.Size();
    for (int k = 0; k <= again; ++k)
    {
        Errs want; std::vector<std::set<std::string>> alt; load(m, rows, fk, md.header, want, alt);
        ok(v.ReadFile(fname(), sep, md.header, md.header ? Row{} : md.keys), "ReadFile failed");
        Errs got = v.GetErrorsInLastReadedFile(); bool same = got.size() == want.size(); for (size_t i = 0; same && i < got.size(); ++i) same = got[i].first == want[i].first && alt[i].count(got[i].second);
        std::string at = "file \"" + vis(t) + "\" (" + md.nm + ", preload " + std::to_string(pre) + (k ? ", read again" : "") + "): ";
        if (!same) fail(at + "reported errors " + show(got) + " want " + show(want)); compare(v, m, at); ok(s.Size() == inSet, at + "a record set changed");
        evals(1, !m.rows.empty() && !want.empty());
    }
}
static const char* r_eol(size_t i) { return i / 4 % 2 ? "\n" : "\r\n"; }
static std::string rowsText(const std::vector<Row>& r) { return "\"" + vis(text(r, ',', "\n")) + "\""; }
int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        static const std::vector<std::string> AL{"1", "2", "x", ""}; static const std::vector<Mode> M2 = modes(KEYS2), M3 = modes(KEYS3);
        static const std::vector<Row> R4 = tuples(AL, 4, true), R3 = tuples(AL, 3, true), R2 = tuples(AL, 2, true), R1 = tuples({"1", "2", "x"}, 2, true);
        // single rows in every mode
        e.secs.push_back({"one-row", R4.size() * M2.size(), [=](size_t i) { auto& r = R4[i / M2.size()]; for (int p = 0; p < 3; ++p) { run(KEYS2, M2[i % M2.size()], {r}, p, ',', "\r\n", true, 1); if (!r.empty()) run(KEYS2, M2[i % M2.size()], {r}, p, ';', "\n", false); } }, [=](size_t i) { return "row " + rowsText({R4[i / M2.size()]}) + " " + M2[i % M2.size()].nm; }, "every row of 0-4 cells over {1,2,x,empty} x every header permutation/subset with an unknown name, key list and vault order x 3 preloads, read twice", 30, 64});
        // pairs of rows
        {
            auto rs = std::make_shared<std::vector<Row>>(SHRINK ? R1 : g_thorough ? R3 : R2); size_t n = rs->size();
            e.secs.push_back({"two-rows", n * n, [=](size_t i) { for (auto& md : M2) for (int p = 0; p < (SHRINK ? 1 : 2); ++p) run(KEYS2, md, {(*rs)[i / n], (*rs)[i % n]}, p); }, [=](size_t i) { return "rows " + rowsText({(*rs)[i / n], (*rs)[i % n]}) + " in every mode"; }, "every pair of rows of up to " + std::string(SHRINK || !g_thorough ? "2" : "3") + " cells in every mode x 2 preloads", 60, 1});
        }
        // pairs of full rows where it matters: three cells, complete headers
        if (!SHRINK)
        {
            auto rs = std::make_shared<std::vector<Row>>(); for (auto& r : R3) if (r.size() == 3) rs->push_back(r); size_t n = rs->size(); auto md = std::make_shared<std::vector<Mode>>(); for (auto& m : M2) if (m.keys.size() != 1 && m.keys.size() != 2) md->push_back(m);
            e.secs.push_back({"two-full-rows", n * n, [=](size_t i) { for (auto& m : *md) run(KEYS2, m, {(*rs)[i / n], (*rs)[i % n]}, 0); }, [=](size_t i) { return "rows " + rowsText({(*rs)[i / n], (*rs)[i % n]}) + " in every complete mode"; }, "every pair of rows of 3 cells x every mode naming 3 keys", 60, 4});
        }
        // three rows, complete header / vault order
        {
            auto rs = std::make_shared<std::vector<Row>>(SHRINK ? tuples({"1", "x"}, 2, true) : g_thorough ? R2 : tuples({"1", "x", ""}, 2, true)); size_t n = rs->size(); auto md = std::make_shared<std::vector<Mode>>(); for (auto& m : M2) if (m.nm == "header UAS" || m.nm == "header AU" || m.nm == "vault order" || m.nm == "key list US" || m.nm == "header AZU" || m.nm == "key list UZ") md->push_back(m);
            e.secs.push_back({"three-rows", n * n * n, [=](size_t i) { for (auto& m : *md) run(KEYS2, m, {(*rs)[i / n / n], (*rs)[i / n % n], (*rs)[i % n]}, 0); }, [=](size_t i) { return "rows " + rowsText({(*rs)[i / n / n], (*rs)[i / n % n], (*rs)[i % n]}); }, "every triple of rows of up to 2 cells in 6 modes", 30, 16});
        }
        // two unique keys
        {
            static const std::vector<std::string> B{"1", "2", "x"}; auto rs = std::make_shared<std::vector<Row>>(); for (auto& u : B) for (auto& w : {"x", "y", ""}) for (auto& a : {"1", "x"}) rs->push_back({u, w, a}); size_t n = rs->size(); static const std::vector<Mode> md{{true, {"U", "W", "A"}, "header UWA"}, {true, {"W", "U"}, "header WU"}, {false, {"U", "W", "A"}, "key list UWA"}, {false, {"U"}, "key list U"}, {true, {"U", "A", "Z"}, "header UAZ"}};
            e.secs.push_back({"two-unique", n * n * n, [=](size_t i) { if (SHRINK && i % 7) return; for (auto& m : md) for (int p = 0; p < 2; ++p) { std::vector<Row> rr{(*rs)[i / n / n], (*rs)[i / n % n], (*rs)[i % n]}; if (m.nm == "header WU") for (auto& r : rr) std::swap(r[0], r[1]); run(KEYS3, m, rr, p); } }, [=](size_t i) { return "two unique keys, rows " + rowsText({(*rs)[i / n / n], (*rs)[i / n % n], (*rs)[i % n]}); }, "every triple of 18 rows over two unique keys x 5 modes x 2 preloads", 30, 16});
        }
        // no unique key: types int, string, bool
        {
            static const std::vector<std::string> C{"1", "x", "", "true", "a\r\nb", "-0", "+1", "00012", "2147483648", " 1"}; static const std::vector<Mode> M0 = modes(KEYS0); static const std::vector<Row> r = tuples(C, SHRINK ? 2 : 3, false);
            e.secs.push_back({"types", r.size(), [=](size_t i) { for (auto& m : M0) { if (SHRINK && m.keys.size() == 3) continue; auto row = r[i]; run(KEYS0, m, {row, {"1", "1", "1"}, {}, row}, 1); } }, [=](size_t i) { return "row " + rowsText({r[i]}) + " before a good row, an empty line and itself"; }, "every row of 1-3 cells over 10 contents x every mode over int, string and bool keys", 30, 16});
        }
        // many rows: bad ones at every period, of three kinds, counts around powers of two
        {
            static const std::vector<int> N{63, 64, 65, 127, 128, 255, 256, 257, 300, 600}, P{1, 2, 3, 7, 64, 100000}; static std::vector<Mode> md; md.clear(); for (auto& m : M2) if (m.nm == "header AUS" || m.nm == "header USA" || m.nm == "vault order" || m.nm == "key list AU") md.push_back(m);
            size_t nn = SHRINK ? 3 : N.size();
            e.secs.push_back({"many-rows", nn * P.size() * 4, [](size_t i)
            {
                int n = N[i / 24], per = P[i / 4 % 6], kind = i % 4;
                for (auto& m : md)
                {
                    Row fk = m.keys; if (!m.header && fk.empty()) for (auto& k : KEYS2) fk.push_back(k.name); std::vector<Row> rows;
                    for (int r = 0; r < n; ++r)
                    {
                        bool bad = (r + 1) % per == 0 || r == n - 1; std::map<std::string, std::string> c{{"A", std::to_string(r % 5)}, {"S", "s" + std::to_string(r % 3)}, {"U", std::to_string(r)}}; if (bad) { if (kind == 0) c["U"] = "x"; if (kind == 1) c["U"] = std::to_string(r / 2); if (kind == 2) c["A"] = "y"; }
                        Row row; if (!(bad && kind == 3)) for (auto& k : fk) row.push_back(c[k]); rows.push_back(row);
                    }
                    run(KEYS2, m, rows, 1, ',', r_eol(i), true, 0);
                }
            }, [](size_t i) { static const char* K[] = {"conversion of the unique key", "used unique value", "conversion of an ordinary key", "blank line"}; return std::to_string(N[i / 24]) + " rows, every " + std::to_string(P[i / 4 % 6]) + "th bad: " + K[i % 4]; }, "files of 63-600 rows x bad rows at 6 periods x 4 kinds x 4 modes", 120, 1});
        }
        // row callback
        {
            static const std::vector<Mode> H = [] { std::vector<Mode> o; for (auto& m : M2) if (m.header && (m.keys.size() == 3 || m.nm == "header AU" || m.nm == "header U")) o.push_back(m); return o; }(); auto rs = std::make_shared<std::vector<Row>>(); for (auto& r : SHRINK ? R1 : R2) if (!r.empty()) rs->push_back(r); size_t n = rs->size();
            e.secs.push_back({"callback", n * n * 7, [=](size_t i)
            {
                int kind = i % 7; std::vector<Row> rows{(*rs)[i / 7 / n], (*rs)[i / 7 % n]};
                auto change = [kind](Row& v, size_t call) { switch (kind) { case 1: v[0] = "9"; break; case 2: v.push_back("5"); break; case 3: if (call % 2) v[0] = "bad"; break; case 4: v = {"3", "4", "6", "8"}; if (call) v = {"5", "6", "7"}; break; case 5: std::reverse(v.begin(), v.end()); break; case 6: v.resize(1); break; } };
                for (auto& md : H) for (int p = 0; p < 2; ++p)
                {
                    Vault v; mk(v, KEYS2); MV m{&KEYS2, {}}; preload(v, m, p); auto all = rows; all.insert(all.begin(), md.keys); std::string t = text(all, ',', "\r\n"); put(t);
                    std::string at = "file \"" + vis(t) + "\" callback kind " + std::to_string(kind) + ": ", err; size_t calls = 0; auto changed = rows; for (size_t k = 0; k < changed.size(); ++k) change(changed[k], k);
                    ok(v.ReadFile(fname(), ',', [&](const std::vector<std::string>& keys, std::vector<std::string>& values) { if (keys != md.keys && err.empty()) err = "callback got other keys than the header"; if ((calls >= rows.size() || values != rows[calls]) && err.empty()) err = "callback got other values than the row"; if (!values.empty()) change(values, calls); ++calls; }), at + "ReadFile failed");
                    ok(err.empty(), at + err); ok(calls == rows.size(), at + "callback called " + std::to_string(calls) + " times");
                    Errs want; std::vector<std::set<std::string>> alt; load(m, changed, md.keys, true, want, alt); Errs got = v.GetErrorsInLastReadedFile(); if (got != want) fail(at + "reported errors " + show(got) + " want " + show(want)); compare(v, m, at); evals(1, kind != 0);
                }
            }, [=](size_t i) { return "rows " + rowsText({(*rs)[i / 7 / n], (*rs)[i / 7 % n]}) + " callback kind " + std::to_string(i % 7); }, "every pair of rows of 1-2 cells x 7 callback behaviours x header modes x 2 preloads", 30, 16});
        }
    });
}
