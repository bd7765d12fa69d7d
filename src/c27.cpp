// C27: builds with diagnostics (no NDEBUG) behave like release builds, report exactly the type errors, and use no destroyed memory at any moment of the program's life.
#include "enumx.hpp"
#include "MVault.h"
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <thread>
using namespace mvlt; using namespace mc;
#ifdef NDEBUG
constexpr bool REPORTS = false;
#else
constexpr bool REPORTS = true;
#endif
#ifdef MC_SMALL
constexpr int SHRINK = 1;
#else
constexpr int SHRINK = 0;
#endif
static std::vector<std::string> g_commands;
extern "C" int system(const char* c) { g_commands.push_back(c); return 0; } // nothing is executed, only recorded

// ---- objects of static and thread-local storage: every creation order and storage class ----
// Roles: V vault, S set of it, R reference to a record of it, U object whose destructor makes calls
static int g_alive; // bit per role
static Vault* pv; static VaultRecordSet* ps; static VaultRecordRef* pr;
static void lifeFail(const char* w) { fprintf(stderr, "LIFE: %s\n", w); fflush(stderr); _exit(7); }
static void link()
{   // whatever exists is connected as soon as possible
    if ((g_alive & 1) && pv->Size() == 0 && !pv->IsKeyExist("A")) { if (!pv->AddKey("A", 7) || !pv->AddUniqueKey<int>("U").IsOperationSuccess) lifeFail("AddKey"); for (int i = 0; i < 3; ++i) if (!pv->CreateRecord({{"U", i}}).IsOperationSuccess) lifeFail("CreateRecord"); }
    if ((g_alive & 3) == 3 && ps->Size() == 0) pv->RequestGreaterOrEqual("U", 1, *ps);
    if ((g_alive & 5) == 5 && !pr->IsValid()) if (!pv->GetRecord("U", 2, *pr).IsOperationSuccess) lifeFail("GetRecord");
}
static void use()
{   // the calls made while objects are being destroyed
    bool v = g_alive & 1, s = g_alive & 2, r = g_alive & 4;
    if (v)
    {
        VaultRecordRef x; VaultRecordSet t; if (pv->Size() != 3) lifeFail("Size"); if (!pv->GetRecord("U", 1, x).IsOperationSuccess) lifeFail("GetRecord at the end"); pv->RequestLess("U", 2, t); if (t.Size() != 2) lifeFail("RequestLess at the end");
        if (pv->GetRecord("U", 2.5, x).ResultCode != VaultOperationResultCode::WrongType) lifeFail("wrong type at the end"); if (pv->GetSortedRecords("U").size() != 3) lifeFail("GetSortedRecords at the end"); if (!pv->CreateRecord({{"U", 9}}).IsOperationSuccess || !pv->EraseRecord("U", 9).IsOperationSuccess) lifeFail("CreateRecord at the end");
    }
    if (s) { if (ps->Size() != (v ? 2u : 0u)) lifeFail("set size at the end"); if (ps->GetIsParentVaultValid() != v) lifeFail("set parent at the end"); ps->ToStrings(); }
    if (r) { int a = 0; bool g = pr->GetData("A", a).IsOperationSuccess; if (pr->IsValid() != v || g != v || (v && a != 7)) lifeFail("reference at the end"); }
}
template <class T, int ROLE> struct Held { T o; Held() { g_alive |= ROLE; } ~Held() { use(); g_alive &= ~ROLE; } };
struct User { User() { g_alive |= 8; } ~User() { use(); g_alive &= ~8; } };
// destructors of Held run before the held object is destroyed: mark it as gone only for objects destroyed later
template <class H> H& stat() { static H h; return h; }
template <class H> H& tls() { static thread_local H h; return h; }
static void makeRole(int role, bool isTls)
{
    switch (role)
    {
    case 0: pv = isTls ? &tls<Held<Vault, 1>>().o : &stat<Held<Vault, 1>>().o; break;
    case 1: ps = isTls ? &tls<Held<VaultRecordSet, 2>>().o : &stat<Held<VaultRecordSet, 2>>().o; break;
    case 2: pr = isTls ? &tls<Held<VaultRecordRef, 4>>().o : &stat<Held<VaultRecordRef, 4>>().o; break;
    default: if (isTls) tls<User>(); else stat<User>(); break;
    }
    link();
}
// Life code: order (24) x storage bits (16) x when (0 before main, 1 in main, 2 thread-locals belong to a second thread that ends before main does)
static void life(int code)
{
    int perm = code % 24, st = code / 24 % 16, when = code / 24 / 16 % 3; std::vector<int> o{0, 1, 2, 3}; for (int i = 0; i < perm; ++i) std::next_permutation(o.begin(), o.end());
    auto all = [&](int only) { for (int r : o) { bool t = st >> r & 1; if (only == 2 || only == t) makeRole(r, t); } };
    if (when != 2) { all(2); use(); return; }
    all(0); std::thread th([&] { all(1); use(); }); th.join(); use();
}
static int g_lifeCode = -1;
__attribute__((constructor(65000))) static void beforeMain(int argc, char** argv)
{   // runs before main; the library's own globals and the streams are ready
    if (argc == 3 && !strcmp(argv[1], "--life")) g_lifeCode = atoi(argv[2]);
}
static struct Early { Early() { if (g_lifeCode >= 0) { static std::ios_base::Init streams; std::cout.setstate(std::ios::badbit); if (g_lifeCode / 24 / 16 % 3 == 0) life(g_lifeCode); } } } g_early;
static std::string lifeShow(size_t c)
{
    static const char* N[4] = {"vault", "set", "reference", "user"}; std::vector<int> o{0, 1, 2, 3}; for (size_t i = 0; i < c % 24; ++i) std::next_permutation(o.begin(), o.end());
    std::string s = "objects created in the order"; for (int r : o) s += std::string(" ") + N[r] + (c / 24 % 16 >> r & 1 ? "(thread-local)" : "(static)"); static const char* W[3] = {" before main", " in main", " with the thread-local ones in a second thread"}; return s + W[c / 24 / 16 % 3];
}
static std::string g_out;
static void child(const char* mode, size_t c)
{
    std::string f = g_scratch + "/life." + std::to_string(getpid()); pid_t p = fork();
    if (!p) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); int fo = open((f + ".o").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fo, 1); std::string n = std::to_string(c); execl("/proc/self/exe", "harness", mode, n.c_str(), (char*)nullptr); _exit(99); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); in.close(); unlink(f.c_str()); std::string e = ss.str(); std::ifstream io(f + ".o"); std::stringstream so; so << io.rdbuf(); io.close(); unlink((f + ".o").c_str()); g_out = so.str(); evals(1, 1);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return; size_t q = e.find("ERROR:"); if (q == std::string::npos) q = e.find("runtime error"); if (q == std::string::npos) q = 0;
    fail(std::string("the program ") + (WIFSIGNALED(st) ? "was killed by signal " + std::to_string(WTERMSIG(st)) : "ended with status " + std::to_string(WEXITSTATUS(st))) + ": " + e.substr(q, 300));
}

static void lifeRun(size_t c) { child("--life", c); }

// ---- reports ----
struct W { Vault v; VaultRecordRef r, gone; VaultRecordSet s, t; VaultRecordRef x; std::vector<VaultRecordRef> xs; };
struct Expect { bool report; std::string key; std::type_index req, saved; std::vector<std::string> funcs; };
struct Op { std::string name; std::function<void(W&)> run; Expect e; VaultOperationResultCode code; };
static VaultOperationResult g_res;
static std::vector<Op> ops()
{
    std::vector<Op> o; using RC = VaultOperationResultCode;
    auto bad = [&](std::string name, std::string key, std::type_index req, std::type_index saved, std::function<VaultOperationResult(W&)> f, std::vector<std::string> fn) { o.push_back({name, [f](W& w) { g_res = f(w); }, {true, key, req, saved, fn}, RC::WrongType}); };
    auto quiet = [&](std::string name, std::function<VaultOperationResult(W&)> f, RC code) { o.push_back({name, [f](W& w) { g_res = f(w); }, {false, "", typeid(void), typeid(void), {}}, code}); };
    std::type_index I = typeid(int), D = typeid(double), S = typeid(std::string); const std::string txt("x");
    bad("v.GetRecord", "Num", D, I, [](W& w) { return w.v.GetRecord("Num", 2.5, w.x); }, {"GetRecord"});
    bad("v.GetRecords", "Num", S, I, [txt](W& w) { return w.v.GetRecords("Num", txt, w.xs); }, {"GetRecords"});
    bad("v.RequestEqual", "Str", I, S, [](W& w) { return w.v.RequestEqual("Str", 1, w.t); }, {"RequestEqual"});
    bad("v.RequestGreater", "Num", D, I, [](W& w) { return w.v.RequestGreater("Num", 2.5, w.t); }, {"RequestGreater"});
    bad("v.RequestInterval", "Num", D, I, [](W& w) { return w.v.RequestInterval("Num", 2.5, 3.5, w.t); }, {"RequestInterval"});
    bad("v.EraseRecord", "Num", D, I, [](W& w) { return w.v.EraseRecord("Num", 2.5); }, {"EraseRecord"});
    bad("v.EraseRecords", "Str", I, S, [](W& w) { return w.v.EraseRecords("Str", 1); }, {"EraseRecords"});
    bad("v.UpdateKey", "Num", D, I, [](W& w) { return w.v.UpdateKey("Num", 2.5); }, {"UpdateKey"});
    bad("v.GetKeyValue", "Str", D, S, [](W& w) { double d; return w.v.GetKeyValue("Str", d); }, {"GetKeyValue"});
    bad("v.CreateRecord", "Num", D, I, [](W& w) { return w.v.CreateRecord(w.x, {{"Str", std::string("q")}, {"Num", 2.5}}); }, {"CreateRecord"});
    bad("v.CreateRecord without reference", "Num", S, I, [txt](W& w) { return w.v.CreateRecord({{"Num", txt}}); }, {"CreateRecord"});
    bad("r.SetData", "Num", D, I, [](W& w) { return w.r.SetData("Num", 2.5); }, {"SetData"});
    bad("r.SetData list", "Str", I, S, [](W& w) { return w.r.SetData({{"Num", 1}, {"Str", 5}}); }, {"SetData"});
    bad("r.GetData", "Str", D, S, [](W& w) { double d; return w.r.GetData("Str", d); }, {"GetData"});
    bad("s.GetRecord", "Num", D, I, [](W& w) { return w.s.GetRecord("Num", 2.5, w.x); }, {"GetRecord"});
    bad("s.GetRecords", "Num", D, I, [](W& w) { return w.s.GetRecords("Num", 2.5, w.xs); }, {"GetRecords"});
    bad("s.RequestLess", "Str", I, S, [](W& w) { return w.s.RequestLess("Str", 1, w.t); }, {"RequestLess"});
    bad("s.RemoveRecord", "Num", D, I, [](W& w) { return w.s.RemoveRecord("Num", 2.5); }, {"RemoveRecord"});
    bad("s.GetKeyValue", "Num", S, I, [](W& w) { std::string d; return w.s.GetKeyValue("Num", d); }, {"GetKeyValue"});
    auto inside = [&](std::string name, std::vector<std::string> fn, std::function<void(W&, std::function<void()>)> around) { bad("r.GetData inside " + name, "Num", D, I, [around](W& w) { VaultOperationResult res; around(w, [&] { double d; res = w.r.GetData("Num", d); }); return res; }, fn); };
    inside("v.SortBy", {"GetData", "SortBy"}, [](W& w, std::function<void()> f) { w.v.SortBy("Num", [&](const VaultRecordRef&) { f(); return false; }); });
    inside("s.SortBy", {"GetData", "SortBy"}, [](W& w, std::function<void()> f) { w.s.SortBy("Num", [&](const VaultRecordRef&) { f(); return false; }); });
    inside("a predicate", {"GetData", "RequestGreater"}, [](W& w, std::function<void()> f) { bool once = true; w.v.RequestGreater("Num", 0, w.t, -1, [&](const VaultRecordRef&) { if (once) f(); once = false; return true; }); });
    quiet("v.GetRecord found", [](W& w) { return w.v.GetRecord("Num", 1, w.x); }, RC::Success);
    quiet("v.GetRecord wrong key", [](W& w) { return w.v.GetRecord("None", 1, w.x); }, RC::WrongKey);
    quiet("v.GetRecord wrong value", [](W& w) { return w.v.GetRecord("Num", 99, w.x); }, RC::WrongValue);
    quiet("v.CreateRecord wrong key", [](W& w) { return w.v.CreateRecord({{"None", 1}}); }, RC::WrongKey);
    quiet("duplicate unique value", [](W& w) { return w.v.CreateRecord({{"Uni", 1}}); }, RC::UniqueKeyValueAlredyInSet);
    quiet("duplicate key", [](W& w) { return w.v.AddUniqueKey<int>("Num"); }, RC::DuplicateKey);
    quiet("r.SetData", [](W& w) { return w.r.SetData("Num", 1); }, RC::Success);
    quiet("invalid reference", [](W& w) { return w.gone.SetData("Num", 2.5); }, RC::DataRecordNotValid);
    quiet("s.RequestEqual", [](W& w) { return w.s.RequestEqual("Num", 1, w.t); }, RC::Success);
    quiet("detached set", [](W& w) { VaultRecordSet d; return d.GetRecord("Num", 2.5, w.x); }, RC::ParentVaultNotValid);
    quiet("other calls", [](W& w) { Vault c(w.v); Vault m(std::move(c)); VaultRecordSet k(w.s); w.v.ToJson(); w.s.ToStrings(); w.v.GetSortedRecords("Num"); k.Reset(); m.DropVault(); return w.v.UpdateKey("Str", std::string("d")); }, RC::Success);
    o.push_back({"reports off", [](W&) { SetBackTraceFormat(BackTraceFormat::None); }, {false, "", typeid(void), typeid(void), {}}, RC::Idle});
    o.push_back({"reports on", [](W&) { SetBackTraceFormat(BackTraceFormat::Compact); }, {false, "", typeid(void), typeid(void), {}}, RC::Idle});
    return o;
}
static std::string plainText(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\x1b') { while (i < s.size() && s[i] != 'm') ++i; continue; } o += s[i]; } return o; }
static bool word(const std::string& t, const std::string& w) { for (size_t p = t.find(w); p != std::string::npos; p = t.find(w, p + 1)) { auto alnum = [&](size_t i) { return i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_'); }; if (!(p && alnum(p - 1)) && !alnum(p + w.size())) return true; } return false; }
// leaves bytes that are not zero where the next calls will have their frames
__attribute__((noinline)) static void dirty(int depth) { volatile char b[8192]; for (size_t i = 0; i < sizeof b; ++i) b[i] = 'x'; if (depth) dirty(depth - 1); asm volatile("" : : "r"(b) : "memory"); }
static void step(const Op& op, W& w, bool& on, bool otherThread, const std::string& at)
{
    std::ostringstream out; auto* old = std::cout.rdbuf(out.rdbuf()); g_commands.clear(); g_res = VaultOperationResult();
    struct Back { std::streambuf* o; ~Back() { std::cout.rdbuf(o); } } back{old};
    auto body = [&] { dirty(6); op.run(w); }; if (otherThread) { std::thread t(body); t.join(); } else body();
    std::string t = plainText(out.str()); if (op.name == "reports off") on = false; if (op.name == "reports on") on = true;
    ok(g_res.ResultCode == op.code, at + "result code " + std::to_string((int)g_res.ResultCode));
    if (!(REPORTS && on && op.e.report)) { ok(t.empty(), at + "printed " + vis(t)); ok(g_commands.empty(), at + "ran a command"); return; }
    size_t n = 0; for (size_t p = t.find("Internal error!"); p != std::string::npos; p = t.find("Internal error!", p + 1)) ++n; ok(n == 1, at + std::to_string(n) + " reports: " + vis(t));
    { VaultOperationResult why; why.ResultCode = op.code; ok(t.find(why.ResultCodeString()) != std::string::npos, at + "report without the reason: " + vis(t)); }
    ok(word(t, op.e.key), at + "report without the key: " + vis(t)); size_t rq = t.find("Requested type: " + std::string(op.e.req.name()) + "."), sv = t.find("SavedType: " + std::string(op.e.saved.name()) + "."); ok(rq != std::string::npos, at + "report without the requested type: " + vis(t)); ok(sv != std::string::npos, at + "report without the saved type: " + vis(t));
    size_t fl = t.find("\n\t", sv); ok(fl != std::string::npos, at + "report without the function: " + vis(t)); std::string f = t.substr(fl + 2); f = f.substr(0, f.find_first_of(" \n")); ok(std::find(op.e.funcs.begin(), op.e.funcs.end(), f) != op.e.funcs.end(), at + "report names " + vis(f));
    char exe[4096]; ssize_t l = readlink("/proc/self/exe", exe, sizeof exe); std::string path(exe, l > 0 ? l : 0);
    for (auto& c : g_commands) { size_t q = c.find(path); ok(q != std::string::npos && (q + path.size() == c.size() || !strchr("x/.", c[q + path.size()])), at + "command for another program: " + vis(c)); for (unsigned char ch : c) ok(ch >= 32 && ch < 127, at + "command with rubbish: " + vis(c)); }
}
static void setup(W& w)
{
    w.v.AddKey("Num", 5); w.v.AddKey("Str", std::string("s")); w.v.AddUniqueKey<int>("Uni"); VaultRecordRef k; w.v.CreateRecord(w.r, {{"Num", 1}, {"Uni", 1}}); w.v.CreateRecord({{"Num", 2}, {"Uni", 2}}); w.v.CreateRecord(w.gone, {{"Num", 3}, {"Uni", 3}}); w.v.EraseRecord(w.gone); w.v.RequestGreater("Num", 0, w.s);
}
// Wrong-type calls made straight from main, where few callers are on the stack
static int shallow(int k)
{
    Vault v; v.AddKey("Num", 5); VaultRecordRef r; v.CreateRecord(r, {{"Num", 1}}); VaultRecordSet s; VaultOperationResult res; std::vector<VaultRecordRef> xs; double d = 2.5; dirty(6);
    switch (k)
    {
    case 0: res = v.RequestEqual("Num", 2.5, s); break;
    case 1: res = v.RequestInterval("Num", 2.5, 3.5, s); break;
    case 2: res = v.RequestGreaterOrEqual("Num", 2.5, s); break;
    case 3: res = v.GetRecord("Num", 2.5, r); break;
    case 4: res = v.GetRecords("Num", 2.5, xs); break;
    case 5: res = r.SetData("Num", 2.5); break;
    case 6: res = r.GetData("Num", d); break;
    case 7: res = v.EraseRecords("Num", 2.5); break;
    case 8: res = v.UpdateKey("Num", 2.5); break;
    default: { VaultRecordSet t; v.RequestGreater("Num", 0, s); res = s.RequestEqual("Num", 2.5, t); break; }
    }
    return res.ResultCode == VaultOperationResultCode::WrongType ? 0 : 8;
}
int main(int argc, char** argv)
{
    if (argc == 3 && !strcmp(argv[1], "--shallow")) return shallow(atoi(argv[2]));
    if (g_lifeCode >= 0) { if (g_lifeCode / 24 / 16 % 3 != 0) life(g_lifeCode); else use(); return 0; }
    Enumerator e;
    return e.run(argc, argv, [](Enumerator& e)
    {
        auto o = std::make_shared<std::vector<Op>>(ops()); size_t n = o->size(); int depth = g_thorough ? 3 : SHRINK ? 2 : 3; size_t total = 1; for (int i = 0; i < depth; ++i) total *= n;
        auto seqOf = [=](size_t i) { std::vector<size_t> s; i /= 2; for (int k = 0; k < depth; ++k) { s.push_back(i % n); i /= n; } return s; };
        e.secs.push_back({"reports", total * 2, [=](size_t i)
        {
            SetBackTraceFormat(BackTraceFormat::Compact); bool on = true; W w; setup(w); int k = 0; for (size_t x : seqOf(i)) { step((*o)[x], w, on, i % 2 && k == 1, std::to_string(++k) + ". " + (*o)[x].name + ": "); }
            SetBackTraceFormat(BackTraceFormat::Compact); evals(depth, depth);
        }, [=](size_t i) { std::string s; for (size_t x : seqOf(i)) s += (s.empty() ? "" : ", then ") + (*o)[x].name; return s + (i % 2 ? ", the second call in another thread" : ""); }, "every history of " + std::to_string(depth) + " of " + std::to_string(n) + " calls, in one and in two threads", 20, 64});
        static const char* F[] = {"RequestEqual", "RequestInterval", "RequestGreaterOrEqual", "GetRecord", "GetRecords", "SetData", "GetData", "EraseRecords", "UpdateKey", "RequestEqual"};
        e.secs.push_back({"calls from main", 10, [=](size_t i) { child("--shallow", i); std::string t = plainText(g_out); if (!REPORTS) { ok(t.empty(), "printed " + vis(t)); return; } ok(word(t, "Num") && word(t, F[i]) && t.find("Requested type: d.") != std::string::npos && t.find("SavedType: i.") != std::string::npos, "report: " + vis(t)); },
            [=](size_t i) { return std::string("a wrong-type ") + (i == 9 ? "set " : "") + F[i] + " straight from main"; }, "ten wrong-type calls each as the only one of a program, made by main itself", 60, 1});
        e.secs.push_back({"lifetimes", 24 * 16 * 3, lifeRun, lifeShow, "every creation order of a vault, a set, a reference and an object calling them in its destructor x static/thread-local storage of each x before main / in main / second thread", 60, 8});
    });
}
