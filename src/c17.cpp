// C17: faults at every file system call of a save or load, a file size limit at every byte, failing real targets.
#include "enumx.hpp"
#include "csvref.hpp"
#include "faultx.hpp"
#include "MVault.h"
#include <map>
#include <memory>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
using namespace mvlt; using namespace mc; using fx::Fault; using fx::Effect;
static std::string dir() { static pid_t p = 0; static std::string d; if (p != getpid()) { p = getpid(); d = g_scratch + "/c17_" + std::to_string(p); mkdir(d.c_str(), 0700); } return d; }
static std::string slurp(const std::string& f) { std::string o; int d = open(f.c_str(), O_RDONLY); if (d < 0) return "<none>"; char b[65536]; ssize_t n; while ((n = read(d, b, sizeof b)) > 0) o.append(b, n); close(d); return o; }
static void spit(const std::string& f, const std::string& s) { int d = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < s.size()) { ssize_t n = write(d, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } close(d); }

using Row = std::vector<std::string>; using Multi = std::multiset<Row>;
static Multi contents(const Vault& v)
{
    Multi m; auto refs = v.GetSortedRecords("A"); ok(refs.size() == v.Size(), "size and traversal differ");
    for (auto& r : refs) { int a = -1; std::string s = "?"; ok(r.GetData("A", a).IsOperationSuccess && r.GetData("S", s).IsOperationSuccess, "reading a record fails"); m.insert({std::to_string(a), s}); }
    return m;
}
static Multi contents(const VaultRecordSet& v) { Multi m; for (auto& r : v.GetSortedRecords("A")) { int a = -1; std::string s; r.GetData("A", a); r.GetData("S", s); m.insert({std::to_string(a), s}); } return m; }
static void keys(Vault& v) { v.AddKey<int>("A", 7); v.AddKey<std::string>("S", "dflt"); }
// The vault must stay usable by other threads (nothing stays locked)
static void alive(Vault& v) { std::thread t([&] { v.Size(); v.AddKey<int>("tmp", 1); v.RemoveKey("tmp"); }); t.join(); }

struct Spec { std::string name; std::vector<std::pair<int, std::string>> rows; };
static std::vector<Spec>& specs()
{
    static std::vector<Spec> s;
    if (s.empty())
    {
        auto many = [](int n, size_t len) { std::vector<std::pair<int, std::string>> r; for (int i = 0; i < n; ++i) r.emplace_back(i, std::string(len, char('a' + i % 26))); return r; };
        s.push_back({"no records", {}});
        s.push_back({"3 records", {{1, "x"}, {2, "y,\"z"}, {3, "l1\r\nl2"}}});
        s.push_back({"just under one stream buffer", many(90, 85)});
        s.push_back({"20 KB", many(1000, 15)});
        s.push_back({"one 20 KB field", many(1, 20000)});
        s.push_back({"fields longer than the buffer", many(3, 9000)});
        s.push_back({"70 KB", many(70, 1000)});
        s.push_back({"row ends on the buffer end", many(64, 124)});
    }
    return s;
}
static std::unique_ptr<Vault> make(int k) { auto v = std::make_unique<Vault>(); keys(*v); for (auto& r : specs()[k].rows) v->CreateRecord({{"A", r.first}, {"S", r.second}}); return v; }
static std::string complete(const std::string& text, const Multi& want, bool header)
{
    Rows rows; if (!csvRef(text, ',', rows)) return "not a well-formed file";
    Multi got; for (size_t i = 0; i < rows.size(); ++i) { if (header && i == 0) { if (rows[0] != Row{"A", "S"}) return "wrong header"; continue; } got.insert(rows[i]); }
    if (header && rows.empty()) return "no header"; return got == want ? "" : std::to_string(got.size()) + " rows of " + std::to_string(want.size());
}
static std::string planText(const std::vector<Fault>& p, const std::vector<int>& nrs) { std::string o; for (auto& f : p) o += (o.empty() ? "" : " + ") + std::string("call ") + std::to_string(f.k) + " (" + (f.k < (int)nrs.size() ? fx::nrName(nrs[f.k]) : "?") + ") " + f.e.name + (f.persist ? " and every later one" : ""); return o; }

// ---- scenarios
struct Scen { std::string name; bool isSave; int spec; bool set, header; int mode; std::string text; int rows; bool bigFile; };
static std::vector<Scen> g_scen; static std::vector<std::vector<int>> g_nrs;
static std::string bigText(size_t bytes, int& n)
{
    std::string t = "A,S\r\n"; n = 0;
    while (t.size() + 64 < bytes) { size_t len = std::min<size_t>(bytes - t.size() - 24, 200000 - (n * 977) % 5000); std::string f(len, char('a' + n % 26)); t += std::to_string(n) + "," + f + "\r\n"; ++n; }
    while (t.size() < bytes) { size_t left = bytes - t.size(); std::string num = std::to_string(n); if (left < num.size() + 3) { t.insert(t.size() - 2, std::string(left, 'z')); break; } t += num + "," + std::string(left - num.size() - 3, 'q') + "\r\n"; ++n; }
    return t;
}
static const std::string& textOf(int s) { static std::map<int, std::string> m; auto it = m.find(s); if (it != m.end()) return it->second; Scen& sc = g_scen[s]; std::string t = sc.text; if (sc.bigFile) { int n; t = bigText(strtoul(sc.text.c_str(), nullptr, 10), n); } return m[s] = t; }
static Multi rowsOf(const std::string& text) { Rows rows; csvRef(text, ',', rows); Multi m; for (size_t i = 1; i < rows.size(); ++i) if (!rows[i].empty()) m.insert(rows[i]); return m; }

static bool hard(const Effect& e) { return e.kind != 1; }
static void runSave(int s, const std::vector<Fault>& plan, std::vector<int>* nrs = nullptr)
{
    Scen& sc = g_scen[s]; std::string f = dir() + "/out.csv"; auto v = make(sc.spec); VaultRecordSet set; if (sc.set) v->RequestGreaterOrEqual("A", 0, set);
    Multi before = contents(*v); if (sc.mode) spit(f, std::string(100000, 'J')); else unlink(f.c_str());
    fx::g_prefix = dir(); fx::arm(plan);
    bool r = sc.set ? set.SaveToFile(f, {}, ",", sc.header) : v->SaveToFile(f, {}, ",", sc.header);
    fx::disarm();
    if (nrs) { for (int i = 0; i < fx::g_calls; ++i) nrs->push_back(fx::g_log[i].nr); }
    bool closeFail = false, anyHard = false; for (size_t i = 0; i < plan.size(); ++i) if (fx::g_applied[i]) { if (hard(plan[i].e)) anyHard = true; if (fx::g_log[plan[i].k].nr == SYS_close) closeFail = true; }
    if (r) { std::string c = complete(slurp(f), before, sc.header); if (!c.empty()) fail("SaveToFile returned true, but the file is incomplete: " + c); }
    if (r && closeFail) fail("SaveToFile returned true, but closing the file failed");
    if (!r && !anyHard) fail("SaveToFile returned false although no call failed");
    ok(contents(*v) == before, "a failed save changed the vault"); if (sc.set) ok(contents(set) == before, "a failed save changed the set");
    alive(*v);
    bool again = sc.set ? set.SaveToFile(f, {}, ",", sc.header) : v->SaveToFile(f, {}, ",", sc.header);
    ok(again && complete(slurp(f), before, sc.header).empty(), "saving again after the fault does not work");
    evals(1, r ? 0 : 1);
}
static void runLoad(int s, const std::vector<Fault>& plan, std::vector<int>* nrs = nullptr)
{
    Scen& sc = g_scen[s]; std::string f = dir() + "/in" + std::to_string(s) + ".csv"; struct stat st; if (stat(f.c_str(), &st)) spit(f, textOf(s));
    static std::map<int, Multi> wantOf; auto it = wantOf.find(s); if (it == wantOf.end()) it = wantOf.emplace(s, rowsOf(textOf(s))).first; const Multi& want = it->second;
    Vault v; keys(v); v.CreateRecord({{"A", -5}, {"S", std::string("pre")}}); VaultRecordSet set; v.RequestEqual("A", -5, set); VaultRecordRef ref; v.GetRecord("A", -5, ref);
    auto load = [&] { size_t seen = 0; if (sc.mode == 1) return v.ReadFile(f, ',', false, {"A", "S"}); if (sc.mode == 2) return v.ReadFile(f, ',', std::function<void(const std::vector<std::string>&, std::vector<std::string>&)>([&](const std::vector<std::string>&, std::vector<std::string>&) { ++seen; })); if (sc.mode == 3) return v.ReadFile(f, ',', false); return v.ReadFile(f); };
    fx::g_prefix = dir(); fx::arm(plan);
    bool r = load();
    fx::disarm();
    if (nrs) { for (int i = 0; i < fx::g_calls; ++i) nrs->push_back(fx::g_log[i].nr); }
    bool anyHard = false; for (size_t i = 0; i < plan.size(); ++i) if (fx::g_applied[i] && hard(plan[i].e)) anyHard = true;
    Multi got = contents(v); auto pre = got.find({"-5", "pre"}); ok(pre != got.end(), "loading changed an existing record"); got.erase(pre);
    ok(ref.IsValid() && set.Size() == 1, "loading changed an existing record, its reference or its set");
    if (r) ok(got == want, "ReadFile returned true, but loaded " + std::to_string(got.size()) + " rows of " + std::to_string(want.size()) + " (or changed ones)");
    else for (auto& x : got) if (got.count(x) > want.count(x)) fail("ReadFile returned false and left a row that is not in the file: " + vis(x[0] + "|" + x[1]));
    if (!r && !anyHard) fail("ReadFile returned false although no call failed");
    alive(v);
    if (sc.bigFile && !plan.empty()) { evals(1, r ? 0 : 1); return; }
    v.DropData(); ok(load(), "loading again after the fault does not work"); ok(contents(v) == want, "loading again after the fault loads other rows");
    evals(1, r ? 0 : 1);
}
static void runScen(int s, const std::vector<Fault>& plan, std::vector<int>* nrs = nullptr) { ok(fx::install(), "harness: seccomp filter not available"); if (g_scen[s].isSave) runSave(s, plan, nrs); else runLoad(s, plan, nrs); }

// every (call, effect, persistence) of one scenario
static std::vector<Fault> singles(int s) { std::vector<Fault> o; for (size_t k = 0; k < g_nrs[s].size(); ++k) for (auto& e : fx::effects(g_nrs[s][k])) { o.push_back({(int)k, e, false}); bool pers = fx::isRead(g_nrs[s][k]) || fx::isWrite(g_nrs[s][k]); if (pers && e.kind != 1 && e.err != EINTR) o.push_back({(int)k, e, true}); } return o; }
struct PlanSpace { std::vector<size_t> off; size_t total = 0; std::vector<int> scen; };

int main(int argc, char** argv)
{
    return Enumerator().run(argc, argv, [](Enumerator& en) {
        signal(SIGXFSZ, SIG_IGN);
        auto addScen = [](Scen s) { g_scen.push_back(s); };
        for (int k = 0; k < (int)specs().size(); ++k)
            for (int set = 0; set < 2; ++set)
            {
                addScen({std::string("save ") + (set ? "set, " : "vault, ") + specs()[k].name, true, k, set != 0, true, 0, "", 0, false});
                addScen({std::string("save over an older file, ") + (set ? "set, no header, " : "vault, no header, ") + specs()[k].name, true, k, set != 0, false, 1, "", 0, false});
            }
        auto rowsText = [](int n, size_t len, const char* eol) { std::string t = std::string("A,S") + eol; for (int i = 0; i < n; ++i) t += std::to_string(i) + "," + std::string(len, char('a' + i % 26)) + eol; return t; };
        addScen({"load empty file", false, 0, false, true, 0, "", 0, false});
        addScen({"load header only", false, 0, false, true, 0, "A,S\r\n", 0, false});
        addScen({"load 3 rows", false, 0, false, true, 0, "A,S\r\n1,x\r\n2,\"y,\"\"z\"\r\n3,\"l1\r\nl2\"", 0, false});
        addScen({"load 3 rows, row handler", false, 0, false, true, 2, "A,S\n1,x\n2,yy\n3,z\n", 0, false});
        addScen({"load 20 KB", false, 0, false, true, 0, rowsText(1000, 15, "\r\n"), 0, false});
        addScen({"load 1 MB", false, 0, false, true, 2, rowsText(100, 10000, "\n"), 0, false});
        size_t TH = 10 * 1024 * 1024;
        for (size_t sz : {TH - 1, TH, TH + 1, TH + 2, TH + 1000, TH + 3 * 1024 * 1024 + 7}) addScen({"load " + std::to_string(sz) + " bytes", false, 0, false, true, sz == TH + 2 ? 2 : 0, std::to_string(sz), 0, true});
        // dry runs in child processes: which calls are there
        for (size_t s = 0; s < g_scen.size(); ++s)
        {
            int p[2]; if (pipe(p)) exit(2); fflush(nullptr); pid_t c = fork();
            if (!c) { Enumerator::arm(30); std::vector<int> n; try { runScen((int)s, {}, &n); } catch (...) {} if (write(p[1], n.data(), n.size() * sizeof(int)) < 0) {} _exit(0); }
            close(p[1]); std::vector<int> n; int x; while (read(p[0], &x, sizeof x) == sizeof x) n.push_back(x); close(p[0]); waitpid(c, nullptr, 0); g_nrs.push_back(n);
        }
        auto* single = new std::vector<std::pair<int, std::vector<Fault>>>; auto* multi = new std::vector<std::pair<int, std::vector<Fault>>>; auto* big = new std::vector<std::pair<int, std::vector<Fault>>>;
        size_t calls = 0;
        for (int s = 0; s < (int)g_scen.size(); ++s)
        {
            auto f = singles(s); calls += g_nrs[s].size(); auto* to = g_scen[s].bigFile ? big : single;
            to->push_back({s, {}});
            int n = (int)g_nrs[s].size(); bool full = g_scen[s].bigFile && g_scen[s].text == std::to_string(TH + 1000);
            // chunked files have thousands of reads: in the quick tier one file gets an error at each of them, the others at the first and last calls and every 64th
            for (auto& x : f) if (!g_scen[s].bigFile || g_thorough || x.k < 6 || x.k > n - 6 || (x.k % 64 == 0 && !x.persist) || (full && x.e.err == EIO && !x.persist)) to->push_back({s, {x}});
            if (g_scen[s].bigFile) continue;
            size_t cap = g_thorough ? 400 : 130; if (f.size() > cap) continue;
            for (size_t i = 0; i < f.size(); ++i) for (size_t j = i; j < f.size(); ++j)
            {
                Fault b = f[j]; if (b.k == f[i].k) { b.k = f[i].k + 1; } // a retry of the call may be hit again
                multi->push_back({s, {f[i], b}});
                if (g_thorough && f.size() <= 70) for (size_t l = j; l < f.size(); ++l) { Fault c = f[l]; if (c.k <= b.k) c.k = b.k + 1; multi->push_back({s, {f[i], b, c}}); }
            }
        }
        auto sec = [&](const char* name, std::vector<std::pair<int, std::vector<Fault>>>* v, std::string bounds, int al, size_t chunk) {
            en.secs.push_back({name, v->size(), [v](size_t i) { runScen((*v)[i].first, (*v)[i].second); }, [v](size_t i) { return g_scen[(*v)[i].first].name + ": " + ((*v)[i].second.empty() ? "no fault" : planText((*v)[i].second, g_nrs[(*v)[i].first])); }, bounds, al, chunk}); };
        sec("single", single, "every file system call of " + std::to_string(g_scen.size()) + " save and load scenarios (" + std::to_string(calls) + " calls) x every error, short count, end of file, once and persistently", 20, 16);
        sec("multi", multi, g_thorough ? "every pair and (small scenarios) triple of faults" : "every pair of faults in the smaller scenarios", 20, 64);
        sec("chunked", big, g_thorough ? "files around and beyond the 10 MiB threshold: every fault at every call" : "files around and beyond the 10 MiB threshold: an error at every call of one file, every fault at the first and last 6 calls and every 64th of all", 60, 1);
        // file size limit at every byte
        {
            struct L { int spec; bool set; size_t size; size_t from; }; auto* ls = new std::vector<L>; size_t tot = 0;
            for (int k : {0, 1, 2, 3, 5}) for (int set = 0; set < 2; ++set) { if ((k == 3 || (set && k > 2)) && !g_thorough) continue; size_t n = 0; Multi m; for (auto& r : specs()[k].rows) { n += std::to_string(r.first).size() + 1 + FormatStringToCsv(r.second, ",").size() + 2; } n += 5; ls->push_back({k, set != 0, n, tot}); tot += n + 3; }
            en.secs.push_back({"limit", tot, [ls](size_t i) {
                size_t q = ls->size(); while ((*ls)[q - 1].from > i) --q; L& l = (*ls)[q - 1]; size_t n = i - l.from;
                auto v = make(l.spec); VaultRecordSet set; if (l.set) v->RequestGreaterOrEqual("A", 0, set); Multi before = contents(*v); std::string f = dir() + "/lim.csv"; unlink(f.c_str());
                rlimit old; getrlimit(RLIMIT_FSIZE, &old); rlimit nw = old; nw.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &nw);
                bool r = l.set ? set.SaveToFile(f) : v->SaveToFile(f);
                setrlimit(RLIMIT_FSIZE, &old);
                std::string c = complete(slurp(f), before, true);
                if (r && !c.empty()) fail("SaveToFile returned true on a device with room for " + std::to_string(n) + " of " + std::to_string(l.size) + " bytes: " + c);
                if (!r && n >= l.size) fail("SaveToFile returned false although there was room");
                ok(contents(*v) == before, "a failed save changed the vault"); alive(*v); evals(1, r ? 0 : 1);
            }, [ls](size_t i) { size_t q = ls->size(); while ((*ls)[q - 1].from > i) --q; L& l = (*ls)[q - 1]; return std::string(l.set ? "set, " : "vault, ") + specs()[l.spec].name + ": room for " + std::to_string(i - l.from) + " of " + std::to_string(l.size) + " bytes"; }, "a device with room for exactly N bytes, every N from 0 to the size of the file", 20, 64});
        }
        // real failing targets
        static const char* tg[] = {"save /dev/full", "save directory", "save missing directory", "save empty name", "save below a file", "load missing", "load directory", "load empty name", "load below a file", "load /proc/self/mem", "load too long name"};
        en.secs.push_back({"targets", 11 * specs().size(), [](size_t i) {
            size_t t = i % 11; int k = int(i / 11); auto v = make(k); Multi before = contents(*v); VaultRecordSet set; v->RequestGreaterOrEqual("A", 0, set); std::string d = dir(), reg = d + "/reg"; spit(reg, "x"); bool r = false, r2 = false; std::string lng(5000, 'n');
            std::string name = t == 0 ? "/dev/full" : t == 1 || t == 6 ? d : t == 2 ? d + "/no/such/f.csv" : t == 3 || t == 7 ? "" : t == 4 || t == 8 ? reg + "/f.csv" : t == 5 ? d + "/missing.csv" : t == 9 ? "/proc/self/mem" : d + "/" + lng;
            if (t <= 4) { r = v->SaveToFile(name); r2 = set.SaveToFile(name); } else { r = v->ReadFile(name); r2 = v->ReadFile(name, ',', false, {"A", "S"}) || v->ReadFile(name, ',', std::function<void(const std::vector<std::string>&, std::vector<std::string>&)>([](const std::vector<std::string>&, std::vector<std::string>&) {})) || v->ReadFile(name, ';', false); }
            ok(!r && !r2, "success reported"); ok(contents(*v) == before, "the vault changed"); ok(contents(set) == before, "the set changed"); alive(*v);
            std::string good = d + "/good.csv"; ok(v->SaveToFile(good) && complete(slurp(good), before, true).empty(), "saving afterwards does not work"); evals(1, 1);
        }, [](size_t i) { return std::string(tg[i % 11]) + ", " + specs()[i / 11].name; }, "targets that cannot be opened, written or read", 20, 4});
    });
}
