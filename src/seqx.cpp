#include "seqx.hpp"
#include <atomic>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

inline std::atomic<long> g_live{0};
#ifndef MC_NO_ALLOC_COUNT
void* operator new(std::size_t n) { g_live.fetch_add(1, std::memory_order_relaxed); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); free(p); }
#endif

namespace mc
{
    constexpr int MAXLEN = 16;
    struct Path { int prof = 0, init = 0, len = 0; short op[MAXLEN]; };
    struct Slot { Path cur; volatile long nodes; volatile long trans; char msg[1500]; volatile int viol; volatile int done; volatile long skipped; };
    struct Shared
    {
        std::atomic<unsigned long> hashCount; std::atomic<int> stop; std::atomic<int> timedOut;
        Slot slot[64]; std::atomic<unsigned long> hash[1 << 22];
    };
    inline volatile sig_atomic_t g_hang = 0;
    inline Slot* g_slot = nullptr;
    inline void onAlarm(int) { if (g_slot) strcpy(g_slot->msg, "operation sequence does not terminate (hang)"); _exit(97); }

    struct Engine
    {
        std::vector<Profile>& profs; explicit Engine(std::vector<Profile>& p) : profs(p) {}
        Shared* sh = nullptr; std::atomic<unsigned char>* claims = nullptr; double deadline = 0;
        std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
        double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

        std::string show(const Path& p)
        {
            auto& pr = profs[p.prof]; std::string o = "[" + pr.name + "] start: " + pr.inits[p.init].name + "; ";
            for (int i = 0; i < p.len; ++i) o += (i ? " ; " : "") + pr.alpha[p.op[i]].name;
            return o;
        }
        std::string code(const Path& p)
        {
            std::string o = profs[p.prof].name + ":" + std::to_string(p.init) + ":";
            for (int i = 0; i < p.len; ++i) o += (i ? "," : "") + std::to_string(p.op[i]);
            return o;
        }
        static unsigned long hashModel(const Path& p, const Model& m)
        {
            std::string s = std::to_string(p.prof) + "/";
            for (auto& v : m.v)
            {
                s += v.alive ? "V" : "-"; for (auto& k : v.keys) s += k.name + char('0' + k.t) + (k.uniq ? "u" : "") + k.def.show() + ",";
                std::vector<std::string> rows; for (int id : v.recs) rows.push_back(showRow(m.recs.at(id).data)); std::sort(rows.begin(), rows.end());
                for (auto& r : rows) s += r; s += "|";
            }
            for (auto& st : m.s)
            {
                s += st.exists ? "S" : "-"; s += std::to_string(st.parent); std::vector<std::string> rows; for (int id : st.mem) rows.push_back(showRow(m.recs.at(id).data)); std::sort(rows.begin(), rows.end());
                for (auto& r : rows) s += r; s += "|";
            }
            for (size_t i = 0; i < m.r.size(); ++i) s += m.valid(i) ? showRow(m.recs.at(m.r[i].rec).data) + ";" : (m.r[i].rec >= 0 ? "x;" : ".;");
            return std::hash<std::string>()(s);
        }
        void note(unsigned long h)
        {
            if (!h) h = 1;
            for (unsigned long i = h, n = 0; n < 64; ++i, ++n)
            {
                auto& c = sh->hash[i & ((1 << 22) - 1)]; unsigned long e = 0;
                if (c.load(std::memory_order_relaxed) == h) return;
                if (c.compare_exchange_strong(e, h)) { sh->hashCount++; return; }
                if (e == h) return;
            }
        }
        // Execute one history from scratch. Returns the operations enabled afterwards.
        std::vector<short> exec(const Path& p, bool observe, Slot* sl)
        {
            auto& pr = profs[p.prof]; std::vector<short> enabled; enabled.reserve(pr.alpha.size());
            auto body = [&]
            {
                World w(pr.nv, pr.ns, pr.nr); Model m; m.v.resize(pr.nv); m.s.resize(pr.ns); m.r.resize(pr.nr);
                for (auto& o : pr.inits[p.init].ops) o.run(w, m);
                for (int i = 0; i < p.len; ++i) { pr.alpha[p.op[i]].run(w, m); sl->trans++; }
                if (observe)
                {
                    for (int i = 0; i < pr.nv; ++i) if (m.v[i].alive) bindByContent(w, m, i);
                    Obs o(w, m, pr.obs); o.all(); if (pr.extra) pr.extra(w, m, o);
                    note(hashModel(p, m));
                }
                enabled.clear();
                for (size_t i = 0; i < pr.alpha.size(); ++i) if (pr.alpha[i].en(m)) enabled.push_back((short)i);
                int h = p.len; for (int i = 0; i < p.len; ++i) h = h * 7 + p.op[i];
                static const int order[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
                for (int k = 0; k < 3; ++k) switch (order[(unsigned)h % 6][k])
                {
                case 0: for (auto& x : w.v) x.reset(); break;
                case 1: for (auto& x : w.s) x.reset(); break;
                case 2: w.r.clear(); break;
                }
            };
            long before = g_live.load(); body();
            if (observe && g_live.load() > before)
            {   // a leak only counts if every repetition leaks
                bool leak = true; for (int i = 0; i < 3 && leak; ++i) { before = g_live.load(); body(); if (g_live.load() <= before) leak = false; }
                if (leak) fail("memory is leaked: objects are still allocated after every vault, set and reference is destroyed");
            }
            return enabled;
        }
        size_t claimBase(int prof, int init) { size_t b = 0; for (int i = 0; i < prof; ++i) b += profs[i].inits.size() * span(i); return b + init * span(prof); }
        size_t span(int prof) { size_t a = profs[prof].alpha.size(); return 1 + a + a * a; }
        bool claim(const Path& p)
        {
            size_t a = profs[p.prof].alpha.size(), i = p.len == 0 ? 0 : p.len == 1 ? 1 + p.op[0] : 1 + a + p.op[0] * a + p.op[1];
            unsigned char e = 0; return claims[claimBase(p.prof, p.init) + i].compare_exchange_strong(e, 1);
        }
        void arm(int sec) { itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_REAL, &t, nullptr); }
        void dfs(Path& p, Slot* sl)
        {
            if (sh->stop.load()) return;
            if (deadline > 0 && now() > deadline) { sh->timedOut = 1; sh->stop = 1; return; }
            bool mine = p.len > 2 ? true : claim(p);
            if (p.len == 2 && !mine) return;
            if (p.len >= profs[p.prof].depth && !mine) return;
            sl->cur = p; arm(20);
            std::vector<short> en;
            try { en = exec(p, mine, sl); if (mine) sl->nodes++; }
            catch (Violation& v) { if (mine) { strncpy(sl->msg, v.msg.c_str(), sizeof sl->msg - 1); sl->viol = 1; _exit(98); } return; }
            catch (std::exception& e) { if (mine) { strncpy(sl->msg, (std::string("exception escaped: ") + e.what()).c_str(), sizeof sl->msg - 1); _exit(98); } return; }
            arm(0);
            if (p.len >= profs[p.prof].depth) return;
            for (short o : en) { p.op[p.len++] = o; dfs(p, sl); --p.len; }
        }
        void worker(int id)
        {
            Slot* sl = &sh->slot[id]; g_slot = sl; signal(SIGALRM, onAlarm);
            for (size_t i = 0; i < profs.size(); ++i) for (size_t j = 0; j < profs[i].inits.size(); ++j) { Path p; p.prof = i; p.init = j; dfs(p, sl); }
            sl->done = 1; _exit(0);
        }
        // Run one history in a child: empty string = held.
        std::string tryPath(const Path& p, std::string* errOut = nullptr)
        {
            Slot* sl = &sh->slot[63]; memset(sl, 0, sizeof *sl); char tmpl[] = "/tmp/seqx_errXXXXXX"; int efd = mkstemp(tmpl);
            pid_t c = fork();
            if (!c)
            {
                dup2(efd, 2); dup2(efd, 1); g_slot = sl; signal(SIGALRM, onAlarm); arm(20);
                try { exec(p, true, sl); } catch (Violation& v) { strncpy(sl->msg, v.msg.c_str(), sizeof sl->msg - 1); _exit(98); } catch (std::exception& e) { strncpy(sl->msg, e.what(), sizeof sl->msg - 1); _exit(98); }
                _exit(0);
            }
            int st; waitpid(c, &st, 0); std::string out;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) out = "";
            else if (sl->msg[0]) out = sl->msg;
            else out = "crash: " + (WIFSIGNALED(st) ? std::string("signal ") + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)));
            std::string err; lseek(efd, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(efd, b, sizeof b)) > 0) err.append(b, n); close(efd); unlink(tmpl);
            auto q = err.find("ERROR: "); if (q == std::string::npos) q = err.find("runtime error: ");
            if (!out.empty() && q != std::string::npos) out += " (" + err.substr(q, std::min(err.find('\n', q) - q, size_t(160))) + ")";
            if (errOut) *errOut = err; return out;
        }
        Path shrink(Path p)
        {
            for (bool again = true; again;)
            {
                again = false;
                for (int i = 0; i < p.len; ++i)
                {
                    Path q = p; for (int j = i; j + 1 < p.len; ++j) q.op[j] = q.op[j + 1]; --q.len;
                    if (!valid(q)) continue;
                    if (!tryPath(q).empty()) { p = q; again = true; break; }
                }
            }
            return p;
        }
        bool valid(const Path& p)   // every step enabled (in a child: a prefix may crash)
        {
            Path q = p; q.len = 0; Slot* sl = &sh->slot[63];
            for (int i = 0; i < p.len; ++i)
            {
                q.len = i; pid_t c = fork();
                if (!c) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); arm(20); try { auto e = exec(q, false, sl); _exit(std::count(e.begin(), e.end(), p.op[i]) ? 0 : 1); } catch (...) { _exit(1); } }
                int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) return false;
            }
            return true;
        }
        int run(int argc, char** argv)
        {
            const char* out = ""; int jobs = 8, maxViol = 3; double limit = 0; std::string replay; int delta = 0; bool thorough = false;
            for (int i = 1; i < argc; ++i)
            {
                std::string a = argv[i];
                if (a == "--out") out = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--limit") limit = atof(argv[++i]);
                else if (a == "--replay") replay = argv[++i]; else if (a == "--depth+") delta = atoi(argv[++i]);
                else if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
                else if (a == "--scratch") ++i;
                else if (a == "--only") { std::string n = argv[++i]; std::vector<Profile> k; for (auto& p : profs) if (p.name == n) k.push_back(p); profs = k; }
            }
            for (auto& p : profs) { p.depth += delta; if (thorough) p.depth = p.thoroughDepth ? p.thoroughDepth : p.depth + 1; }
            sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (!replay.empty())
            {
                Path p; size_t a = replay.find(':'), b = replay.find(':', a + 1); std::string pn = replay.substr(0, a); p.init = atoi(replay.c_str() + a + 1); bool found = false;
                for (size_t i = 0; i < profs.size(); ++i) if (profs[i].name == pn) { p.prof = i; found = true; }
                if (!found) { fprintf(stderr, "unknown profile\n"); return 2; }
                std::stringstream ss(replay.substr(b + 1)); std::string t; while (std::getline(ss, t, ',')) p.op[p.len++] = atoi(t.c_str());
                std::string err, r = tryPath(p, &err); printf("%s\n%s\n%s\n", show(p).c_str(), r.empty() ? "held" : r.c_str(), err.c_str()); return r.empty() ? 0 : 1;
            }
            Report rep(out); deadline = limit;
            size_t tot = 0; for (size_t i = 0; i < profs.size(); ++i) tot += profs[i].inits.size() * span(i);
            claims = (std::atomic<unsigned char>*)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            std::vector<pid_t> pid(jobs); std::vector<int> restarts(jobs, 0); int liveW = 0; std::vector<std::pair<Path, std::string>> bad;
            auto spawn = [&](int i)
            {
                sh->slot[i].msg[0] = 0; fflush(nullptr); pid_t c = fork();
                if (!c) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); worker(i); }
                pid[i] = c; ++liveW;
            };
            for (int i = 0; i < jobs; ++i) spawn(i);
            while (liveW)
            {
                int st; pid_t c = wait(&st); if (c < 0) break; --liveW;
                int i = std::find(pid.begin(), pid.end(), c) - pid.begin();
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->slot[i].done) continue;
                Slot& s = sh->slot[i]; std::string m = s.msg[0] ? s.msg : "crash";
                bad.emplace_back(s.cur, m);
                if ((int)bad.size() >= 24) sh->stop = 1; else if (!sh->stop.load()) spawn(i);
            }
            unsigned long nodes = 0, trans = 0; for (int i = 0; i < jobs; ++i) { nodes += sh->slot[i].nodes; trans += sh->slot[i].trans; }
            rep.count("histories", nodes); rep.count("transitions", trans); rep.count("states", sh->hashCount.load());
            for (auto& p : profs) rep.note("profile " + p.name + ": " + std::to_string(p.inits.size()) + " start states, " + std::to_string(p.alpha.size()) + " operations, all sequences up to length " + std::to_string(p.depth));
            for (auto& p : profs) if (!p.alpha.empty()) { Path q; q.prof = &p - &profs[0]; q.len = std::min<int>(p.depth, 3); for (int i = 0; i < q.len; ++i) q.op[i] = (i * 5 + 1) % p.alpha.size(); rep.sample(show(q)); }
            if (sh->timedOut) rep.incomplete("time limit reached before the bounded space was exhausted");
            std::sort(bad.begin(), bad.end(), [](auto& a, auto& b) { return a.first.len < b.first.len; });
            std::set<std::string> seen; int reported = 0;
            for (auto& b : bad)
            {
                if (reported >= maxViol) break;
                std::string again = tryPath(b.first);
                if (again.empty()) { rep.note("not reproducible in isolation: " + show(b.first) + " -- " + b.second); if (tryPath(b.first).empty()) { unrepro.push_back(show(b.first) + " -- " + b.second); continue; } }
                Path p = shrink(b.first); std::string c = show(p); if (!seen.insert(c).second) continue;
                rep.violation(c, tryPath(p), code(p)); ++reported;
            }
            if (!reported && !unrepro.empty()) rep.violation("unreproducible", unrepro[0], "-");
            rep.done(); return reported || !unrepro.empty() ? 1 : 0;
        }
        std::vector<std::string> unrepro;
    };
    int Explorer::run(int argc, char** argv) { mvlt::SetBackTraceFormat(mvlt::BackTraceFormat::None); Engine e(profs); return e.run(argc, argv); }
}
