// Exhaustive enumerator: every case index of every section is executed exactly once, split over forked workers; crashes,
// sanitizer reports and hangs are attributed to the case that was running.
#pragma once
#include "report.hpp"
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <algorithm>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#ifndef MC_VIOLATION
#define MC_VIOLATION
namespace mc { struct Violation { std::string msg; }; [[noreturn]] inline void fail(const std::string& m) { throw Violation{m}; } inline void ok(bool c, const std::string& w) { if (!c) fail(w); } }
#endif
namespace mc
{
    struct Section { std::string name; size_t total; std::function<void(size_t)> run; std::function<std::string(size_t)> show; std::string bounds; int alarm = 20; size_t chunk = 64; };
    struct ESlot { volatile long sec, idx; volatile unsigned long evals, nontrivial, states, transitions, histories, aborted; volatile int done; };
    struct EViol { volatile int used; long sec, idx; char msg[1200]; };
    struct EShared { std::atomic<long> next[64]; std::atomic<int> stop, timedOut, nviol; ESlot slot[64]; EViol viol[256]; };
    inline EShared* g_esh = nullptr; inline ESlot* g_eslot = nullptr; inline unsigned long g_evalDummy, g_evalDummy2;
    inline bool g_thorough = false;
    inline std::string g_scratch = ".";
    // Called by cases: how many inputs this case evaluated, and how many of them were non-trivial.
    inline void evals(unsigned long n, unsigned long nontrivial) { if (g_eslot) { g_eslot->evals += n; g_eslot->nontrivial += nontrivial; } }
    // Model-checking coverage of one case
    inline void explored(unsigned long states, unsigned long transitions, unsigned long histories, unsigned long aborted) { if (g_eslot) { g_eslot->states += states; g_eslot->transitions += transitions; g_eslot->histories += histories; g_eslot->aborted += aborted; } }
    inline int g_isoFd = -1;
    inline double g_deadline = 1e18; // a long case may stop exploring then and report that it was not completed
    inline double clockNow() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
    // Reports a violation of the running case from any thread and ends this process
    [[noreturn]] void die(const std::string& m);
    inline std::string vis(const std::string& s)
    {
        std::string o; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c; }
        return o.size() > 300 ? o.substr(0, 300) + "...(" + std::to_string(s.size()) + " bytes)" : o;
    }
    struct Enumerator
    {
        std::vector<Section> secs;
        static void put(long s, long i, const std::string& m) { int k = g_esh->nviol++; if (k < 256) { auto& v = g_esh->viol[k]; v.sec = s; v.idx = i; strncpy(v.msg, m.c_str(), sizeof v.msg - 1); v.used = 1; } if (k >= 60) g_esh->stop = 1; }
        static void onAlarm(int) { const char* m = "does not terminate (hang)"; int k = g_esh->nviol++; if (k < 256) { auto& v = g_esh->viol[k]; v.sec = g_eslot->sec; v.idx = g_eslot->idx; strcpy(v.msg, m); v.used = 1; } _exit(97); }
        static void arm(int s) { itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_REAL, &t, nullptr); }
        std::string one(long s, long i)
        {
            try { secs[s].run(i); } catch (Violation& v) { return v.msg.empty() ? "violated" : v.msg; } catch (std::exception& e) { return std::string("exception: ") + e.what(); }
            return "";
        }
        void worker(int id, double deadline)
        {
            g_eslot = &g_esh->slot[id]; signal(SIGALRM, onAlarm);
            auto now = [] { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); };
            for (size_t s = 0; s < secs.size(); ++s)
                for (;;)
                {
                    long b = g_esh->next[s].fetch_add(secs[s].chunk); if (b >= (long)secs[s].total) break;
                    for (long i = b; i < std::min<long>(b + secs[s].chunk, secs[s].total); ++i)
                    {
                        if (g_esh->stop) _exit(0);
                        if (now() > deadline) { g_esh->timedOut = 1; g_esh->stop = 1; _exit(0); }
                        g_eslot->sec = s; g_eslot->idx = i; if ((i & 63) == 0 || secs[s].chunk < 64) arm(secs[s].alarm);
                        std::string m = one(s, i); if (!m.empty()) put(s, i, m);
                    }
                    arm(0);
                }
            g_eslot->done = 1; _exit(0);
        }
        std::string isolated(long s, long i)
        {
            char tmpl[] = "/tmp/enumx_errXXXXXX"; int efd = mkstemp(tmpl); int pfd[2]; if (pipe(pfd)) return "";
            fflush(nullptr); pid_t c = fork();
            if (!c) { dup2(efd, 2); dup2(efd, 1); signal(SIGALRM, SIG_DFL); arm(secs[s].alarm); g_isoFd = pfd[1]; std::string m = one(s, i); if (!m.empty()) { if (write(pfd[1], m.data(), std::min<size_t>(m.size(), 60000)) < 0) {} _exit(98); } _exit(0); }
            close(pfd[1]); std::string out; char b[4096]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) out.append(b, n); close(pfd[0]);
            int st; waitpid(c, &st, 0); std::string err; lseek(efd, 0, SEEK_SET); while ((n = read(efd, b, sizeof b)) > 0) err.append(b, n); close(efd); unlink(tmpl);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
            if (out.empty()) out = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "does not terminate (hang)" : "crash: signal " + std::to_string(WTERMSIG(st))) : "crash: exit " + std::to_string(WEXITSTATUS(st));
            auto q = err.find("ERROR: "); if (q == std::string::npos) q = err.find("runtime error: "); if (q != std::string::npos) out += " (" + err.substr(q, std::min(err.find('\n', q) - q, size_t(200))) + ")";
            return out;
        }
        // build: fills secs, after g_thorough and g_scratch are known
        int run(int argc, char** argv, const std::function<void(Enumerator&)>& build)
        {
            const char* out = ""; int jobs = 8; double limit = 1e9; std::string replay, only;
            for (int i = 1; i < argc; ++i)
            {
                std::string a = argv[i];
                if (a == "--out") out = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--limit") limit = atof(argv[++i]); else if (a == "--tier") g_thorough = std::string(argv[++i]) == "thorough";
                else if (a == "--scratch") g_scratch = argv[++i]; else if (a == "--replay") replay = argv[++i]; else if (a == "--only") only = argv[++i];
            }
            if (!replay.empty() && replay.compare(0, 2, "T:") == 0) { g_thorough = true; }
            build(*this);
            if (!only.empty()) { std::vector<Section> k; for (auto& s : secs) if (s.name == only) k.push_back(s); secs = k; }
            g_esh = (EShared*)mmap(nullptr, sizeof(EShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (!replay.empty())
            {
                std::string r = replay.substr(2); auto p = r.rfind(':'); std::string n = r.substr(0, p); long i = atol(r.c_str() + p + 1);
                for (size_t s = 0; s < secs.size(); ++s) if (secs[s].name == n) { std::string m = isolated(s, i); printf("%s\n%s\n", secs[s].show(i).c_str(), m.empty() ? "held" : m.c_str()); return m.empty() ? 0 : 1; }
                fprintf(stderr, "unknown section\n"); return 2;
            }
            Report rep(out);
            double deadline = clockNow() + limit; g_deadline = deadline;
            std::vector<pid_t> pid(jobs); int live = 0;
            auto spawn = [&](int i) { fflush(nullptr); pid_t c = fork(); if (!c) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); worker(i, deadline); } pid[i] = c; ++live; };
            for (int i = 0; i < jobs; ++i) spawn(i);
            bool lostChunk = false;
            while (live)
            {
                int st; pid_t c = wait(&st); if (c < 0) break; --live; int i = std::find(pid.begin(), pid.end(), c) - pid.begin();
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 97)) put(g_esh->slot[i].sec, g_esh->slot[i].idx, "crash");
                lostChunk = true; if (!g_esh->stop.load()) spawn(i);
            }
            unsigned long ev = 0, nt = 0; for (int i = 0; i < jobs; ++i) { ev += g_esh->slot[i].evals; nt += g_esh->slot[i].nontrivial; }
            unsigned long cases = 0; for (size_t s = 0; s < secs.size(); ++s) { cases += std::min<unsigned long>(g_esh->next[s].load(), secs[s].total); rep.note(secs[s].name + ": " + std::to_string(secs[s].total) + " cases; " + secs[s].bounds); }
            rep.count("cases", cases); rep.count("evaluations", ev); rep.count("nontrivial", nt);
            unsigned long mcs = 0, mct = 0, mch = 0, mca = 0; for (int i = 0; i < jobs; ++i) { mcs += g_esh->slot[i].states; mct += g_esh->slot[i].transitions; mch += g_esh->slot[i].histories; mca += g_esh->slot[i].aborted; }
            if (mch) { rep.count("states", mcs); rep.count("transitions", mct); rep.count("histories", mch); }
            if (mca) rep.incomplete(std::to_string(mca) + " scenarios were not explored to the end of their bounds");
            for (auto& s : secs) if (s.total) { rep.sample(s.name + ": " + s.show(s.total / 3)); rep.sample(s.name + ": " + s.show(s.total - 1)); }
            if (g_esh->timedOut) rep.incomplete("time limit reached before the space was exhausted");
            int nv = std::min(256, g_esh->nviol.load()); std::vector<EViol*> vs; for (int i = 0; i < nv; ++i) if (g_esh->viol[i].used) vs.push_back(&g_esh->viol[i]);
            if (lostChunk && vs.empty()) rep.incomplete("a worker was lost");
            std::sort(vs.begin(), vs.end(), [](EViol* a, EViol* b) { return std::make_pair(a->sec, a->idx) < std::make_pair(b->sec, b->idx); });
            std::set<std::string> seen; int reported = 0;
            std::string unrepro;
            for (auto* v : vs)
            {
                if (reported >= (getenv("MC_ALL") ? 60 : 3)) break;
                std::string sig = secs[v->sec].name + ": " + secs[v->sec].show(v->idx); if (!seen.insert(sig).second) continue;
                std::string again = isolated(v->sec, v->idx); if (again.empty()) { unrepro = sig + " -- " + v->msg; rep.note("not reproducible in isolation: " + unrepro); again = isolated(v->sec, v->idx); if (again.empty()) continue; }
                rep.violation(sig, again, std::string(g_thorough ? "T:" : "Q:") + secs[v->sec].name + ":" + std::to_string(v->idx)); ++reported;
            }
            if (!reported && !unrepro.empty()) { rep.violation("unreproducible", unrepro, "-"); ++reported; }
            rep.done(); return reported ? 1 : 0;
        }
    };
    inline void die(const std::string& m)
    {
        if (g_isoFd >= 0) { if (write(g_isoFd, m.data(), m.size()) < 0) {} _exit(98); }
        if (g_eslot) { Enumerator::put(g_eslot->sec, g_eslot->idx, m); _exit(97); }
        fprintf(stderr, "%s\n", m.c_str()); _exit(98);
    }
}
