// C18: every schedule of lock programs on the real read-write locks.
#include "enumx.hpp"
#include "schedx.hpp"
#include "ReadWriteMutex.h"
#include <memory>
using namespace mvlt; using namespace mc;
// A lock program: tokens r/w lock for reading/writing, ) releases the innermost lock; upper case works on the second mutex.
// p: rendezvous with all threads that have a p in their program
using Progs = std::vector<std::string>;
enum Kind { PLAIN, RECURSIVE };
static const char* kindName(int k) { return k ? "recursive" : "plain"; }

template <class M> struct LockRun : sx::Program
{
    Progs progs; bool raii; int disabled; // bit m: mutex m is disabled
    bool reincarnate;                     // both mutexes are destroyed and created again at the same place between the locks
    LockRun(Progs p, bool r, int d, bool re) : progs(p), raii(r), disabled(d), reincarnate(re) {}
    // The program's world; allocated per execution
    struct World { alignas(16) char mem[2][sizeof(M)]; M* m[2]; long data[2]; };
    World* w = nullptr;
    // Monitor state (not part of the explored program)
    int eff[4][2]; int wantsWrite[4][2]; long grants[4][2]; int arrived, expected;
    int threads() override { return progs.size(); }
    void setup() override
    {
        w = new World; w->data[0] = w->data[1] = 0; for (int i = 0; i < 2; ++i) { w->m[i] = new (w->mem[i]) M; if (disabled >> i & 1) w->m[i]->Disable(); }
        memset(eff, 0, sizeof eff); memset(wantsWrite, 0, sizeof wantsWrite); memset(grants, 0, sizeof grants); arrived = expected = 0; for (auto& p : progs) if (p.find('p') != std::string::npos) ++expected;
        if (reincarnate) { for (int i = 0; i < 2; ++i) { w->m[i]->WriteLock(); w->m[i]->WriteUnlock(); w->m[i]->~M(); w->m[i] = new (w->mem[i]) M; } }
    }
    void finish(bool) override { for (int i = 0; i < 2; ++i) { w->m[i]->WriteLock(); w->m[i]->WriteUnlock(); w->m[i]->~M(); } delete w; w = nullptr; }
    bool off(int m) const { return disabled >> m & 1; }
    void conflict(int t, int m, char what)
    {
        if (off(m)) return;
        for (int o = 0; o < (int)progs.size(); ++o) if (o != t && eff[o][m] && (eff[o][m] == 2 || eff[t][m] == 2))
            sx::violation(std::string("thread ") + std::to_string(t + 1) + " holds the lock for " + (eff[t][m] == 2 ? "writing" : "reading") + " after '" + what + "' while thread " + std::to_string(o + 1) + " holds it for " + (eff[o][m] == 2 ? "writing" : "reading"));
    }
    void inside(int t, int m) // a step inside the critical section
    {
        if (eff[t][m] == 2) ++w->data[m]; else if (eff[t][m] == 1) { volatile long x = w->data[m]; (void)x; }
    }
    template <class F> void acquire(int t, int m, bool write, int before, F f)
    {
        // what the caller can already know: the writers that are waiting inside WriteLock
        unsigned long waiting = sx::observe([&] { unsigned long k = 0; if (!off(m) && before == 0 && !write) for (int o = 0; o < (int)progs.size(); ++o) if (o != t && (wantsWrite[o][m] == 2 ? sx::blockedInCond(o) : wantsWrite[o][m] && sx::blockedInWait(o))) k |= 1ul << o; return k; });
        long had[4]; for (int o = 0; o < 4; ++o) had[o] = grants[o][m];
        if (write && before == 1) eff[t][m] = 0; // a write lock inside a read lock gives the read lock up
        if (write) wantsWrite[t][m] = before == 1 ? 2 : 1; // while giving up the read lock it does not wait yet
        f();
        wantsWrite[t][m] = 0; ++grants[t][m]; eff[t][m] = write ? 2 : before ? before : 1;
        for (int o = 0; o < (int)progs.size(); ++o) if ((waiting >> o & 1) && grants[o][m] == had[o]) sx::violation("thread " + std::to_string(t + 1) + " was given the lock for reading although thread " + std::to_string(o + 1) + " was already waiting to write");
        conflict(t, m, write ? 'w' : 'r'); if (!off(m)) inside(t, m);
        sx::observe([] { return 0ul; }); if (!off(m)) inside(t, m);
    }
    template <class F> void release(int t, int m, int held, int below, F f)
    {
        // leaving the section: from here on nothing is held, or the outer lock still is
        if (held == 2 && below == 2) {} else if (held == 2 && below == 1) eff[t][m] = 0; else eff[t][m] = below;
        f();
        eff[t][m] = below; if (below) { conflict(t, m, ')'); if (!off(m)) inside(t, m); sx::observe([] { return 0ul; }); }
    }
    // Runs the program from position i at nesting depth; returns the position after the matching release
    size_t block(int t, const std::string& p, size_t i, std::vector<std::pair<int, int>>& st)
    {
        while (i < p.size() && p[i] != ')')
        {
            char c = p[i++];
            if (c == 'p') { { sx::Rt r; ++arrived; } sx::touched(); sx::await([this] { return arrived == expected; }); continue; }
            int m = c == 'R' || c == 'W'; bool write = c == 'w' || c == 'W';
            int before = 0; for (auto& s : st) if (s.first == m) before = s.second;
            int now = write ? 2 : before ? before : 1;
            st.push_back({m, now});
            if (raii)
            {
                if (write) { std::unique_ptr<mvlt::WriteLock<M>> l; acquire(t, m, true, before, [&] { l.reset(new mvlt::WriteLock<M>(*w->m[m])); }); i = block(t, p, i, st); release(t, m, now, before, [&] { l.reset(); }); }
                else { std::unique_ptr<mvlt::ReadLock<M>> l; acquire(t, m, false, before, [&] { l.reset(new mvlt::ReadLock<M>(*w->m[m])); }); i = block(t, p, i, st); release(t, m, now, before, [&] { l.reset(); }); }
            }
            else
            {
                acquire(t, m, write, before, [&] { if (write) w->m[m]->WriteLock(); else w->m[m]->ReadLock(); });
                i = block(t, p, i, st);
                release(t, m, now, before, [&] { if (write) w->m[m]->WriteUnlock(); else w->m[m]->ReadUnlock(); });
            }
            st.pop_back();
            if (i < p.size()) ++i; // the ')'
        }
        return i;
    }
    void body(int t) override { std::vector<std::pair<int, int>> st; block(t, progs[t], 0, st); }
};

struct Sc { int kind; Progs p; bool raii; int disabled; bool re; int pre, spur; };
static std::string show(const Sc& s)
{
    std::string o = std::string(kindName(s.kind)) + (s.raii ? " RAII" : "") + (s.disabled ? s.disabled == 1 ? " first disabled" : s.disabled == 2 ? " second disabled" : " both disabled" : "") + (s.re ? " recreated" : ""); for (size_t i = 0; i < s.p.size(); ++i) o += " T" + std::to_string(i + 1) + "=" + s.p[i]; return o + " (preemptions " + std::to_string(s.pre) + ", spurious " + std::to_string(s.spur) + ")";
}
static void runSc(const Sc& s)
{
    sx::Config c; c.preemptions = s.pre; c.spurious = s.spur; sx::Stats st;
    if (s.kind == PLAIN) { LockRun<ReadWriteMutex> r(s.p, s.raii, s.disabled, s.re); st = sx::explore(r, c); } else { LockRun<RecursiveReadWriteMutex> r(s.p, s.raii, s.disabled, s.re); st = sx::explore(r, c); }
    explored(st.states, st.transitions, st.execs, st.aborted); evals(st.execs, st.execs > 1 ? st.execs : 0);
}
// all well-nested programs of exactly n locks over the given letters, nesting at most d
static void programs(int n, int d, const std::string& letters, const std::string& pre, int open, Progs& out)
{
    if (n == 0) { out.push_back(pre + std::string(open, ')')); return; }
    for (char c : letters) if (open < d) programs(n - 1, d, letters, pre + c, open + 1, out);
    if (open > 0) programs(n, d, letters, pre + ")", open - 1, out);
}
static Progs upTo(int n, int d, const std::string& letters) { Progs o; for (int k = 1; k <= n; ++k) programs(k, d, letters, "", 0, o); std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); return o; }
// the order of the two mutexes is kept: the first is never requested while only the second is held (two threads doing so may block each other legitimately)
static bool ordered(const std::string& p) { std::string st; for (char c : p) { if (c == ')') st.pop_back(); else { if ((c == 'r' || c == 'w') && (st.find('R') != std::string::npos || st.find('W') != std::string::npos)) return false; st += c; } } return true; }
static bool both(const std::string& p) { return p.find_first_of("rw") != std::string::npos && p.find_first_of("RW") != std::string::npos; }

int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [&](Enumerator& e) {
        bool T = g_thorough;
        auto add = [&](const char* name, std::vector<Sc> v, const std::string& bounds) { auto sv = std::make_shared<std::vector<Sc>>(std::move(v)); e.secs.push_back({name, sv->size(), [sv](size_t i) { runSc((*sv)[i]); }, [sv](size_t i) { return show((*sv)[i]); }, bounds, 20, 1}); };
        {
            std::vector<Sc> v; Progs p = upTo(T ? 3 : 2, 1, "rw"); int pre = T ? 4 : 3;
            for (size_t i = 0; i < p.size(); ++i) for (size_t j = i; j < p.size(); ++j) for (int s = 0; s <= (T ? 2 : 1); ++s) v.push_back({PLAIN, {p[i], p[j]}, false, 0, false, pre, s});
            Progs q = upTo(T ? 2 : 1, 1, "rw"); for (size_t i = 0; i < q.size(); ++i) for (size_t j = i; j < q.size(); ++j) for (size_t k = j; k < q.size(); ++k) v.push_back({PLAIN, {q[i], q[j], q[k]}, false, 0, false, T ? 3 : 3, 1});
            if (!T) for (auto& three : std::vector<Progs>{{"r)r)", "w)", "w)"}, {"r)", "r)r)", "w)"}, {"r)r)", "w)w)", "r)"}, {"w)w)", "r)", "w)"}}) v.push_back({PLAIN, three, false, 0, false, 2, 1});
            add("plain", v, "ReadWriteMutex: all pairs of sequences of up to " + std::string(T ? "3" : "2") + " locks in 2 threads, all triples of up to " + (T ? "2" : "1") + " in 3 threads");
        }
        {
            std::vector<Sc> v; Progs p = upTo(T ? 3 : 2, 3, "rw"), p3 = upTo(3, 3, "rw"), p1 = upTo(1, 1, "rw");
            for (size_t i = 0; i < p.size(); ++i) for (size_t j = i; j < p.size(); ++j) v.push_back({RECURSIVE, {p[i], p[j]}, false, 0, false, T ? 3 : 3, 1});
            if (!T) for (auto& a : p3) for (auto& b : p1) v.push_back({RECURSIVE, {a, b}, false, 0, false, 2, 1});
            Progs q = upTo(T ? 2 : 1, 2, "rw"); for (size_t i = 0; i < q.size(); ++i) for (size_t j = i; j < q.size(); ++j) for (size_t k = j; k < q.size(); ++k) v.push_back({RECURSIVE, {q[i], q[j], q[k]}, false, 0, false, 2, T ? 1 : 1});
            if (!T) for (auto& three : std::vector<Progs>{{"rw))", "rw))", "rw))"}, {"rw))", "w)", "r)"}, {"rr))", "ww))", "r)"}, {"wr))", "rw))", "w)"}}) v.push_back({RECURSIVE, three, false, 0, false, 2, 0});
            add("recursive", v, "RecursiveReadWriteMutex: all pairs of well-nested programs of up to 3 locks (quick: 3 locks against 1) in 2 threads, all triples of up to " + std::string(T ? "2" : "1") + " locks in 3 threads");
        }
        {
            std::vector<Sc> v; Progs p = upTo(2, 2, "rw"); for (int kind : {PLAIN, RECURSIVE}) for (auto& a : p) for (auto& b : p) { if (kind == PLAIN && (a.find("))") != std::string::npos || b.find("))") != std::string::npos)) continue; if (a <= b) v.push_back({kind, {a, b}, true, 0, false, 2, 0}); }
            add("RAII", v, "ReadLock/WriteLock objects: all pairs of programs of up to 2 locks");
        }
        {
            // everybody must be inside at once
            std::vector<Sc> v;
            for (int kind : {PLAIN, RECURSIVE}) for (bool raii : {false, true})
            {
                auto A = [&](Progs p, int dis) { v.push_back({kind, p, raii, dis, false, T ? 3 : 2, 0}); };
                A({"rp)", "rp)"}, 0); A({"rp)", "rp)", "rp)"}, 0); A({"wp)", "Wp)"}, 0); A({"wp)", "Rp)"}, 0); A({"rp)", "Wp)"}, 0); A({"wp)", "Wp)", "p"}, 0); A({"r)rp)", "rp)r)"}, 0);
                A({"wp)", "wp)"}, 1); A({"wp)", "rp)"}, 1); A({"rp)", "wp)", "wp)"}, 3); A({"Wp)", "Rp)"}, 2); A({"wp)", "Rp)", "Rp)"}, 1); A({"wWp))", "wp)"}, 1); A({"rWp))", "rp)"}, 0); A({"wRp))", "Rp)"}, 0);
                if (kind == RECURSIVE) { A({"rrp))", "rp)"}, 0); A({"rr)p)", "rr)p)"}, 0); A({"rrp))", "rr)p)", "rp)"}, 0); A({"rw)p)", "Rp)"}, 0); A({"rr)w)p)", "Wp)"}, 0); A({"wr)p)", "Wr)p)"}, 1); A({"wwp))", "wp)"}, 1); A({"ww)p)", "WW)p)"}, 0); A({"ww))p", "wr))p"}, 0); A({"wrp))", "WRp))"}, 0); A({"rwp))", "Wp)"}, 0); }
            }
            add("together", v, "programs whose threads must be inside their sections at the same time: readers of one mutex, holders of different mutexes, users of disabled mutexes");
        }
        {
            std::vector<Sc> v; Progs p; for (auto& x : upTo(T ? 3 : 2, 3, "rwRW")) if (ordered(x) && both(x)) p.push_back(x);
            Progs q = upTo(1, 1, "rwRW"); if (T) for (auto& x : upTo(2, 2, "rwRW")) if (ordered(x) && both(x)) q.push_back(x);
            for (auto& a : p) for (auto& b : q) v.push_back({RECURSIVE, {a, b}, false, 0, false, 2, T ? 1 : 0});
            Progs p2; for (auto& x : upTo(2, 2, "rwRW")) if (ordered(x) && both(x)) p2.push_back(x);
            for (size_t i = 0; i < p2.size(); ++i) for (size_t j = i; j < p2.size(); ++j) v.push_back({RECURSIVE, {p2[i], p2[j]}, false, 0, false, 2, 0});
            for (auto& a : p2) { bool nest = a.find("))") != std::string::npos; for (auto& b : p2) if (a <= b && !(nest && false)) v.push_back({PLAIN, {a, b}, false, 0, false, 2, 0}); }
            add("two mutexes", v, "all pairs of well-nested programs over two mutexes that take them in one order");
        }
        {
            std::vector<Sc> v; Progs p = upTo(2, 2, "rw"); for (auto& a : p) for (auto& b : p) if (a <= b) v.push_back({RECURSIVE, {a, b}, false, 0, true, 2, 0}); for (auto& a : upTo(1, 1, "rw")) for (auto& b : upTo(1, 1, "rw")) v.push_back({PLAIN, {a, b}, false, 0, true, 2, 0});
            add("recreated", v, "the same programs on mutexes created where used ones were destroyed");
        }
    });
}
