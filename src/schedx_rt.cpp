// Runtime of the concurrency explorer (see schedx.hpp). Not instrumented.
#pragma GCC optimize("O2")
#include "schedx.hpp"
#include "enumx.hpp"
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <semaphore.h>
#include <exception>

namespace sx
{
    constexpr int MAXT = 5; // 0 is the controller
    using u64 = std::uint64_t; using u32 = std::uint32_t;
    static u64 mix(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdULL; a ^= a >> 32; a *= 0xc4ceb9fe1a85ec53ULL; return a ^ (a >> 29); }

    // ---- memory: one bump arena per thread, never reused within an execution, so addresses depend only on the thread's own history
    constexpr size_t ARENA = 16u << 20; constexpr size_t ARENAS = ARENA * MAXT;
    static char* g_arena = nullptr; static size_t g_cur[MAXT];
    struct Cell { u32 gen; u32 w; u32 r[MAXT]; u32 wpc, rpc; unsigned char wt, split, mask; };           // one per 8-byte word
    static Cell* g_cells = nullptr; static Cell (*g_sub)[8] = nullptr;                                   // per-byte cells of split words
    static u32* g_freed = nullptr; static u32* g_freedPc = nullptr;
    static char* g_glo = nullptr; static char* g_ghi = nullptr; static Cell* g_gcells = nullptr; static Cell (*g_gsub)[8] = nullptr;
    static u32 g_gen = 0; static long g_liveBlocks = 0;
    struct Hdr { u32 size, gen; u32 state, tid; u32 pc, pad[3]; };                                        // before every block; 32 bytes keeps 16-byte alignment
    static char* g_exe = nullptr;

    enum Op { OP_LOCK, OP_UNLOCK, OP_TRYLOCK, OP_CWAIT, OP_CSIGNAL, OP_CBCAST, OP_ALOAD, OP_ASTORE, OP_ARMW, OP_RDLOCK, OP_WRLOCK, OP_ONCE, OP_AWAIT, OP_CBEGIN, OP_CEND, OP_START, OP_YIELD };
    static const char* opName(int o) { static const char* n[] = {"mutex lock", "mutex unlock", "mutex trylock", "condition wait", "condition signal", "condition broadcast", "atomic load", "atomic store", "atomic read-modify-write", "shared lock", "exclusive lock", "once", "await", "call begin", "call end", "start", "yield"}; return n[o]; }
    struct Obj { u64 addr; u32 gen; int owner, count, readers; u64 last, reads; u32 vc[MAXT]; unsigned id; int onceState; };
    struct Thr
    {
        int id; pthread_t th; std::atomic<int> go; bool live, finished, waitingCond, spurious; bool yielding; Obj* cond; void* condMutex; int op; Obj* o; unsigned pc; int rc; std::function<bool()> const* pred;
        u64 chain; u32 vc[MAXT]; void* spinKey[32]; u64 spinVal[32], spinChain[32]; int nspin; u64 spinEpoch; bool didYield, window; unsigned wE, wD, wS, lower;
    };
    static Thr g_t[MAXT]; static int g_n = 0; // threads 1..g_n
    static thread_local Thr* tl_me = nullptr; static thread_local int tl_rt = 0;
    static volatile bool g_live = false; static bool g_raceCheck = true; static int g_current = 0; static u64 g_epoch = 0; static std::atomic<int> g_done; static long g_steps, g_free; static long g_resp;
    static u64 g_respHash; static bool g_exec = false;

    struct Node { int alt[MAXT * 3]; int n, idx, used, spur; bool curCan; };
    static std::vector<Node>* g_path; static size_t g_depth; static int g_used, g_spur; static bool g_prune, g_nondet; static Config g_cfg; static Stats g_stats; static std::unordered_map<u64, int>* g_seen;
    struct Ev { unsigned char t, op; unsigned obj, pc; }; static Ev g_ev[1 << 16]; static int g_nev;
    struct Sw { int ev; short from, to; unsigned char op; unsigned pc; bool preempt; }; static Sw g_sw[512]; static int g_nsw;
    constexpr int NOBJ = 1 << 13; static Obj g_obj[NOBJ]; static unsigned g_nobj;

    Rt::Rt() { ++tl_rt; } Rt::~Rt() { --tl_rt; }
    static long futex(std::atomic<int>* a, int op, int v) { return syscall(SYS_futex, (int*)a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }
    static void park(Thr* t) { while (!t->go.load()) futex(&t->go, FUTEX_WAIT, 0); t->go.store(0); }
    static void unpark(Thr* t) { t->go.store(1); futex(&t->go, FUTEX_WAKE, 1); }

    static std::string where(unsigned pc)
    {
        if (!pc) return "?"; Dl_info i; void* p = g_exe + pc; if (!dladdr(p, &i) || !i.dli_sname) { char b[32]; snprintf(b, sizeof b, "+0x%x", pc); return b; }
        int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); std::string s = d ? d : i.dli_sname; free(d);
        auto shorten = [&](const char* from, const char* to) { size_t q; while ((q = s.find(from)) != std::string::npos) s.replace(q, strlen(from), to); };
        shorten("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "string"); if (s.size() > 90) s = s.substr(0, 90) + "..."; return s;
    }
    [[noreturn]] void violation(const std::string& m)
    {
        ++tl_rt; bool wasLive = g_live; g_live = false; g_exec = false;
        std::string o = m; if (g_nsw) { o += " | schedule:"; for (int i = 0; i < g_nsw && o.size() < 1050; ++i) { auto& s = g_sw[i]; o += " T" + std::to_string(s.from) + (s.preempt ? " preempted before " : " stops at ") + opName(s.op) + " in " + where(s.pc) + " -> T" + std::to_string(s.to) + ";"; } }
        (void)wasLive; mc::die(o);
    }
    static void badExec(const std::string& m) { violation(m); }

    static Obj* obj(const void* a)
    {
        unsigned h = (unsigned)(((u64)a >> 3) * 0x9e3779b1u) % NOBJ;
        for (;; h = (h + 1) % NOBJ)
        {
            Obj& o = g_obj[h];
            if (o.gen == g_gen && o.addr == (u64)a) return &o;
            if (o.gen != g_gen) { memset(&o, 0, sizeof o); o.gen = g_gen; o.addr = (u64)a; o.owner = -1; o.id = ++g_nobj; if (g_nobj > NOBJ * 3 / 4) badExec("harness: too many synchronisation objects"); return &o; }
        }
    }
    static void joinVc(u32* a, const u32* b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
    static void changed() { ++g_epoch; for (int i = 1; i <= g_n; ++i) g_t[i].yielding = false; }
    static unsigned rel(void* pc) { return (unsigned)((char*)pc - g_exe); }

    static bool opEnabled(Thr& t)
    {
        switch (t.op)
        {
        case OP_LOCK: return t.o->owner == -1 && t.o->readers == 0;
        case OP_WRLOCK: return t.o->owner == -1 && t.o->readers == 0;
        case OP_RDLOCK: return t.o->owner == -1;
        case OP_AWAIT: return (*t.pred)();
        case OP_ONCE: return t.o->onceState != 1;
        default: return true;
        }
    }
    static bool enabled(Thr& t) { return t.live && !t.finished && !t.waitingCond && opEnabled(t); }
    static u64 stateKey(int cur, bool can) { u64 k = mix(1234567, g_respHash); for (int i = 1; i <= g_n; ++i) k = mix(mix(k, g_t[i].chain), (g_t[i].finished ? 1 : 0) | (g_t[i].yielding ? 2 : 0) | (g_t[i].waitingCond ? 4 : 0) | g_t[i].lower << 3), k = g_t[i].window ? mix(mix(k, g_t[i].wE | g_t[i].wD << 8), g_t[i].wS) : k; return mix(mix(k, cur * 2 + can), g_spur); }

    // Fair scheduling (as in CHESS): a thread that yields comes after the threads it kept from running since its last yield
    static unsigned g_prevEnabled, g_prevChosen;
    static unsigned enabledSet() { unsigned e = 0; for (int i = 1; i <= g_n; ++i) if (enabled(g_t[i])) e |= 1u << i; return e; }
    static void fairBefore(unsigned en)
    {
        if (g_prevChosen) g_t[g_prevChosen].wD |= g_prevEnabled & ~en;
        for (int i = 1; i <= g_n; ++i)
        {
            Thr& t = g_t[i]; t.wE &= en;
            if (t.didYield) { t.didYield = false; if (t.window) t.lower |= (t.wE | t.wD) & ~t.wS & ~(1u << i); t.window = true; t.wE = en; t.wD = t.wS = 0; }
        }
        g_prevEnabled = en; g_prevChosen = 0;
    }
    static void fairChosen(int c) { g_prevChosen = c; for (int i = 1; i <= g_n; ++i) { g_t[i].wS |= 1u << c; g_t[i].lower &= ~(1u << c); } }
    // Chooses who performs the next operation. Called by the running thread with its next operation in op/o. Returns the chosen thread.
    static int choose(Thr* me)
    {
        for (;;)
        {
            if (++g_steps > 200000) badExec("livelock: no end after 200000 steps");
            unsigned en = enabledSet(); fairBefore(en); auto ready = [&](Thr& t) { return (en >> t.id & 1) && !t.yielding && !(t.lower & en); };
            int alt[MAXT * 3], n = 0; bool can = me->id > 0 && ready(*me);
            if (can) alt[n++] = me->id;
            for (int i = 1; i <= g_n; ++i) if (i != me->id && ready(g_t[i])) { if (can && g_used >= g_cfg.preemptions) continue; alt[n++] = i; }
            if (n == 0)
            {
                // only threads that wait for somebody else's change are left
                int y = 0; for (int i = 1; i <= g_n; ++i) if (enabled(g_t[i]) && g_t[i].yielding) ++y;
                if (y) { if (++g_free > 3000) badExec("livelock: threads spin forever"); for (int i = 1; i <= g_n; ++i) g_t[i].yielding = false; continue; }
                bool any = false; std::string d; for (int i = 1; i <= g_n; ++i) if (!g_t[i].finished) { any = true; }
                if (!any) return 0;
                { Rt r; for (int i = 1; i <= g_n; ++i) if (!g_t[i].finished) d += " T" + std::to_string(i) + " blocked at " + opName(g_t[i].waitingCond ? OP_CWAIT : g_t[i].op) + " in " + where(g_t[i].pc) + ";"; badExec("deadlock:" + d); }
            }
            if (g_cfg.spurious > g_spur) for (int i = 1; i <= g_n; ++i) if (g_t[i].waitingCond) alt[n++] = 16 + i;
            int c = alt[0];
            if (n > 1)
            {
                if (g_depth < g_path->size())
                {
                    Node& nd = (*g_path)[g_depth]; bool same = nd.n == n; for (int i = 0; same && i < n; ++i) same = nd.alt[i] == alt[i];
                    if (!same) { g_nondet = true; }
                    else { c = nd.alt[nd.idx]; g_used = nd.used; }
                    ++g_depth;
                }
                else if (!g_prune && !g_nondet)
                {
                    u64 k = stateKey(me->id, can); Rt r; auto it = g_seen->find(k);
                    if (it != g_seen->end() && it->second <= g_used) { g_prune = true; ++g_stats.pruned; }
                    else { if (it == g_seen->end()) ++g_stats.states; (*g_seen)[k] = g_used; Node nd; memcpy(nd.alt, alt, sizeof alt); nd.n = n; nd.idx = 0; nd.used = g_used; nd.spur = g_spur; nd.curCan = can; g_path->push_back(nd); ++g_depth; g_stats.maxDepth = std::max<int>(g_stats.maxDepth, (int)g_depth); }
                }
            }
            if (c >= 16) { Thr& t = g_t[c - 16]; ++g_spur; t.waitingCond = false; t.chain = mix(t.chain, 777); t.op = OP_LOCK; t.o = obj(t.condMutex); changed(); continue; }
            if (can && c != me->id) ++g_used;
            fairChosen(c); return c;
        }
    }
    static void record(Thr* me, int op, Obj* o, bool write, u64 extra = 0)
    {
        ++g_stats.transitions; if (op == OP_CBEGIN || op == OP_CEND || op == OP_AWAIT) me->nspin = 0;
        u64 h = mix(mix(mix(me->chain, op + 100), o ? o->last : 0), extra); if (o && write) h = mix(h, o->reads);
        me->chain = h; if (o) { if (write) { o->last = h; o->reads = 0; } else o->reads += mix(h, 5); }
        if (g_nev < (1 << 16)) { g_ev[g_nev++] = {(unsigned char)me->id, (unsigned char)op, o ? o->id : 0, me->pc}; }
    }
    static void switchFrom(Thr* me, int c, bool wait)
    {
        if (g_nsw < 512) { g_sw[g_nsw++] = {g_nev, (short)me->id, (short)c, (unsigned char)(me->waitingCond ? OP_CWAIT : me->op), me->pc, !me->finished && enabled(*me)}; }
        g_current = c;
        if (c == 0) { g_done.store(1); futex(&g_done, FUTEX_WAKE, 1); } else unpark(&g_t[c]);
        if (wait) park(me);
    }
    // Scheduling point before an operation; returns when it is this thread's turn and the operation is possible.
    static void visible(int op, Obj* o, void* pc)
    {
        Thr* me = tl_me; me->op = op; me->o = o; me->pc = rel(pc);
        for (;;)
        {
            int c = choose(me);
            if (c == me->id) { if (!enabled(*me)) continue; return; }
            switchFrom(me, c, true);
            return; // we were chosen, so our operation is enabled
        }
    }
    static void spinCheck(Thr* me, void* key, u64 val, u64 before)
    {
        (void)before;
        if (me->spinEpoch != g_epoch) { me->spinEpoch = g_epoch; me->nspin = 0; }
        for (int i = 0; i < me->nspin; ++i) if (me->spinKey[i] == key && me->spinVal[i] == val) { me->chain = me->spinChain[i]; me->yielding = me->didYield = true; return; }
        if (me->nspin < 32) { me->spinKey[me->nspin] = key; me->spinVal[me->nspin] = val; me->spinChain[me->nspin] = me->chain; ++me->nspin; }
    }
    static bool managed() { return g_live && tl_me && tl_me->id > 0 && tl_rt == 0; }

    // ---- data accesses
    static inline bool tracked(const void* a, Cell*& c, Cell (*&s)[8], size_t& w)
    {
        if ((char*)a >= g_arena && (char*)a < g_arena + ARENAS) { w = ((char*)a - g_arena) >> 3; c = g_cells; s = g_sub; return true; }
        if ((char*)a >= g_glo && (char*)a < g_ghi) { w = ((char*)a - g_glo) >> 3; c = g_gcells; s = g_gsub; return true; }
        return false;
    }
    static void raceReport(const void* a, Thr* me, bool write, int ot, bool owrite, unsigned pc, unsigned opc)
    {
        Rt r; violation("data race: T" + std::to_string(me->id) + (write ? " writes in " : " reads in ") + where(pc) + " and T" + std::to_string(ot) + (owrite ? " writes in " : " reads in ") + where(opc) + " the same memory unsynchronised" + ((char*)a >= g_arena && (char*)a < g_arena + ARENAS ? "" : " (global)"));
    }
    static inline void checkCell(Cell& c, const void* a, Thr* me, bool write, unsigned pc)
    {
        int t = me->id;
        if (c.w && c.wt != t && c.w > me->vc[c.wt]) raceReport(a, me, write, c.wt, true, pc, c.wpc);
        if (write)
        {
            for (int i = 0; i < MAXT; ++i) if (i != t && c.r[i] > me->vc[i]) raceReport(a, me, true, i, false, pc, c.rpc);
            c.w = me->vc[t]; c.wt = t; c.wpc = pc;
        }
        else { c.r[t] = me->vc[t]; c.rpc = pc; }
    }
    static inline void access(const void* addr, size_t size, bool write, void* pcp)
    {
        if (!g_exec || !tl_me || tl_rt) return;
        Cell* cells; Cell (*sub)[8]; size_t w; if (!tracked(addr, cells, sub, w)) return;
        unsigned pc = rel(pcp); Thr* me = tl_me;
        size_t off = (u64)addr & 7; bool inArena = cells == g_cells;
        while (size)
        {
            size_t n = std::min(size, 8 - off);
            if (inArena && g_freed[w] == g_gen) { unsigned fp = g_freedPc[w]; g_freed[w] = 0; Rt r; violation(std::string("use after free: T") + std::to_string(me->id) + (write ? " writes in " : " reads in ") + where(pc) + " memory freed in " + where(fp)); }
            if (g_live && me->id > 0 && g_raceCheck)
            {
                Cell& c = cells[w]; if (c.gen != g_gen) { memset(&c, 0, sizeof c); c.gen = g_gen; }
                if (n == 8 && !c.split) checkCell(c, addr, me, write, pc);
                else
                {
                    if (!c.split) { c.split = 1; for (int i = 0; i < 8; ++i) { sub[w][i] = c; } }
                    for (size_t i = off; i < off + n; ++i) checkCell(sub[w][i], addr, me, write, pc);
                }
            }
            size -= n; off = 0; ++w;
        }
    }
    static void* arenaAlloc(size_t n, void* pc)
    {
        int t = tl_me->id; size_t need = (n + sizeof(Hdr) + 31) & ~size_t(31); if (need == sizeof(Hdr)) need += 32;
        if (g_cur[t] + need > ARENA) { ++tl_rt; violation("harness: arena exhausted"); }
        Hdr* h = (Hdr*)(g_arena + ARENA * t + g_cur[t]); g_cur[t] += need; h->size = (u32)n; h->gen = g_gen; h->state = 0xA110CA7E; h->tid = t; h->pc = rel(pc); memset(h + 1, 0xA5, need - sizeof(Hdr)); ++g_liveBlocks; return h + 1;
    }
    static bool inArena(void* p) { return (char*)p >= g_arena && (char*)p < g_arena + ARENAS; }
    static void arenaFree(void* p, void* pc)
    {
        Hdr* h = (Hdr*)p - 1;
        if (!g_exec) return;
        if (h->gen != g_gen || h->state != 0xA110CA7E) { ++tl_rt; violation(h->state == 0xF4EED && h->gen == g_gen ? "double free in " + where(rel(pc)) + ", first freed in " + where(h->pc) : "free of a block that was not allocated, in " + where(rel(pc))); }
        if (g_live && tl_me && tl_me->id > 0) access(p, (h->size + 7) & ~7u, true, pc);
        h->state = 0xF4EED; --g_liveBlocks; h->pc = rel(pc); memset(p, 0xDB, h->size);
        size_t w = ((char*)p - g_arena) >> 3; for (size_t i = 0; i < (h->size + 7) / 8; ++i) { g_freed[w + i] = g_gen; g_freedPc[w + i] = rel(pc); }
    }
    static bool arenaOn() { return g_exec && tl_me && tl_rt == 0; }

    extern "C" { extern char __executable_start[]; extern char __data_start[]; extern char _end[]; }
    static void init()
    {
        static bool d = false; if (d) return; d = true; ++tl_rt;
        g_exe = __executable_start;
        auto map = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return p; };
        void* at = mmap((void*)0x700000000000ULL, ARENAS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (at == MAP_FAILED) abort();
        g_arena = (char*)at; g_cells = (Cell*)map(sizeof(Cell) * (ARENAS / 8)); g_sub = (Cell(*)[8])map(sizeof(Cell) * ARENAS); g_freed = (u32*)map(4 * (ARENAS / 8)); g_freedPc = (u32*)map(4 * (ARENAS / 8));
        g_glo = (char*)((u64)__data_start & ~7ULL); g_ghi = _end; size_t gw = (g_ghi - g_glo) / 8 + 2; g_gcells = (Cell*)map(sizeof(Cell) * gw); g_gsub = (Cell(*)[8])map(sizeof(Cell) * 8 * gw);
        g_path = new std::vector<Node>; g_seen = new std::unordered_map<u64, int>; --tl_rt;
    }

    static Program* g_prog;
    static void* threadMain(void* a)
    {
        Thr* me = (Thr*)a; tl_me = me; park(me);
        try { g_prog->body(me->id - 1); } catch (mc::Violation& v) { violation(v.msg); } catch (std::exception& e) { violation(std::string("exception left a thread: ") + e.what()); }
        return nullptr; // thread_local destructors run while the thread is still scheduled; the key destructor below ends it
    }
    static pthread_key_t g_key; static bool g_haveKey = false;
    // Runs after the C++ thread_local destructors of the thread: the thread leaves the schedule
    static void threadEnd(void* a)
    {
        Thr* me = (Thr*)a; me->finished = true; me->op = OP_START; changed(); record(me, 99, nullptr, false); tl_me = nullptr;
        ++tl_rt; // no instrumentation from here on
        int c; { tl_me = me; c = choose(me); tl_me = nullptr; } switchFrom(me, c, false); --tl_rt;
    }
    static void* threadEntry(void* a) { pthread_setspecific(g_key, a); return threadMain(a); }

    struct Ctl { Program* p; const std::function<void()>* seq; std::string err; bool threw; };
    static void* controller(void* a)
    {
        Ctl* c = (Ctl*)a; tl_me = &g_t[0]; g_exec = true;
        try
        {
            if (c->seq) (*c->seq)();
            else
            {
                c->p->setup();
                ++tl_rt;
                g_n = c->p->threads(); for (int i = 1; i <= g_n; ++i) { Thr& t = g_t[i]; t.id = i; t.go.store(0); t.live = true; t.finished = t.waitingCond = t.yielding = t.spurious = false; t.op = OP_START; t.o = nullptr; t.pc = 0; t.chain = i * 7919; t.nspin = 0; t.spinEpoch = 0; t.didYield = t.window = false; t.wE = t.wD = t.wS = t.lower = 0; memset(t.vc, 0, sizeof t.vc); t.vc[i] = 1; }
                g_done.store(0); g_live = true;
                for (int i = 1; i <= g_n; ++i) if (pthread_create(&g_t[i].th, nullptr, threadEntry, &g_t[i])) abort();
                Thr dummy; memset((void*)&dummy, 0, sizeof dummy); dummy.id = 0; dummy.finished = true; int first = choose(&dummy); g_current = first; unpark(&g_t[first]);
                while (!g_done.load()) futex(&g_done, FUTEX_WAIT, 0);
                g_live = false; for (int i = 1; i <= g_n; ++i) pthread_join(g_t[i].th, nullptr);
                --tl_rt;
                c->p->finish(true);
            }
        }
        catch (mc::Violation& v) { ++tl_rt; c->err = v.msg; c->threw = true; --tl_rt; }
        return nullptr;
    }
    static void execute(Program* p, const std::function<void()>* seq)
    {
        init(); ++tl_rt; g_prog = p; ++g_gen; memset(g_cur, 0, sizeof g_cur); g_liveBlocks = 0; g_nobj = 0; g_nev = g_nsw = 0; g_depth = 0; g_used = g_spur = 0; g_prune = false; g_steps = g_free = 0; g_prevEnabled = g_prevChosen = 0; g_epoch = 1; g_resp = 0; g_respHash = 0; g_n = 0;
        if (!g_haveKey) { g_haveKey = true; pthread_key_create(&g_key, threadEnd); }
        memset((void*)&g_t[0], 0, sizeof g_t[0]); g_t[0].id = 0;
        Ctl c{p, seq, "", false}; pthread_t th; if (pthread_create(&th, nullptr, controller, &c)) abort(); pthread_join(th, nullptr);
        g_exec = false; if (c.threw) violation(c.err);
        if (g_cfg.leaks && g_liveBlocks != 0 && !g_nondet)
        {
            std::string d; for (int t = 0; t < MAXT; ++t) for (size_t q = 0; q < g_cur[t];) { Hdr* h = (Hdr*)(g_arena + ARENA * t + q); size_t need = (h->size + sizeof(Hdr) + 31) & ~size_t(31); if (need == sizeof(Hdr)) need += 32; if (h->state == 0xA110CA7E && d.size() < 200) d += " " + std::to_string(h->size) + " bytes allocated in " + where(h->pc) + ";"; q += need; }
            violation("leak:" + d);
        }
        --tl_rt;
    }
    void sequential(const std::function<void()>& f) { Config old = g_cfg; g_nondet = false; execute(nullptr, &f); g_cfg = old; }
    Stats explore(Program& p, const Config& c)
    {
        init(); ++tl_rt; g_cfg = c; g_raceCheck = c.races; g_stats = Stats(); g_path->clear(); g_seen->clear(); g_nondet = false;
        for (;;)
        {
            if ((g_stats.execs & 63) == 0) { mc::Enumerator::arm(20); if (mc::clockNow() > mc::g_deadline) { ++g_stats.aborted; break; } }
            --tl_rt; execute(&p, nullptr); ++tl_rt; ++g_stats.execs;
            if (g_nondet) { ++g_stats.aborted; break; }
            if (c.maxExecs && (long)g_stats.execs >= c.maxExecs) { ++g_stats.aborted; break; }
            while (!g_path->empty() && g_path->back().idx + 1 >= g_path->back().n) g_path->pop_back();
            if (g_path->empty()) break;
            ++g_path->back().idx;
        }
        --tl_rt; return g_stats;
    }
    void callBegin() { if (!managed()) return; visible(OP_CBEGIN, nullptr, __builtin_return_address(0)); record(tl_me, OP_CBEGIN, nullptr, false, g_respHash); }
    void callEnd() { if (!managed()) return; visible(OP_CEND, nullptr, __builtin_return_address(0)); record(tl_me, OP_CEND, nullptr, false); ++g_resp; g_respHash += mix(tl_me->chain, 99); }
    long responses() { return g_resp; }
    void await(const std::function<bool()>& pred) { if (!managed()) return; Rt r; tl_me->pred = &pred; visible(OP_AWAIT, obj(&g_prog), __builtin_return_address(0)); record(tl_me, OP_AWAIT, obj(&g_prog), true); }
    unsigned long observe(const std::function<unsigned long()>& f) { if (!managed()) return f(); visible(OP_CBEGIN, nullptr, __builtin_return_address(0)); Rt r; unsigned long v = f(); record(tl_me, OP_CBEGIN, nullptr, false, v + 1); return v; }
    void touched() { if (!managed()) return; Rt r; record(tl_me, OP_ASTORE, obj(&g_prog), true); changed(); }
    bool blockedInWait(int t) { Thr& x = g_t[t + 1]; return x.waitingCond || x.yielding; }
    bool blockedInCond(int t) { return g_t[t + 1].waitingCond; }
    int self() { return tl_me ? tl_me->id - 1 : -1; }

    // ---- operations
    static int mutexLock(void* m, bool rec, void* pc)
    {
        Obj* o = obj(m); Thr* me = tl_me;
        if (rec && o->owner == me->id) { ++o->count; return 0; }
        visible(OP_LOCK, o, pc); o->owner = me->id; o->count = 1; joinVc(me->vc, o->vc); record(me, OP_LOCK, o, true); changed(); return 0;
    }
    static int mutexUnlock(void* m, void* pc)
    {
        Obj* o = obj(m); Thr* me = tl_me; me->pc = rel(pc);
        if (o->owner != me->id) { Rt r; violation("T" + std::to_string(me->id) + " unlocks a mutex it does not hold, in " + where(rel(pc))); }
        if (--o->count > 0) return 0;
        o->owner = -1; memcpy(o->vc, me->vc, sizeof o->vc); ++me->vc[me->id]; record(me, OP_UNLOCK, o, true); changed(); return 0;
    }
    static int mutexTry(void* m, bool rec, void* pc)
    {
        Obj* o = obj(m); Thr* me = tl_me; if (rec && o->owner == me->id) { ++o->count; return 0; }
        visible(OP_TRYLOCK, o, pc); if (o->owner == -1) { o->owner = me->id; o->count = 1; joinVc(me->vc, o->vc); record(me, OP_TRYLOCK, o, true); changed(); return 0; }
        record(me, OP_TRYLOCK, o, false, 1); spinCheck(me, pc, 1, 0); return EBUSY;
    }
    static int condWait(void* cv, void* m, void* pc)
    {
        Thr* me = tl_me; Obj* c = obj(cv); Obj* o = obj(m); visible(OP_CWAIT, c, pc); record(me, OP_CWAIT, c, true);
        if (o->owner != me->id) { Rt r; violation("condition wait without holding the mutex in " + where(rel(pc))); }
        int cnt = o->count; o->owner = -1; o->count = 0; memcpy(o->vc, me->vc, sizeof o->vc); ++me->vc[me->id]; record(me, OP_UNLOCK, o, true); changed();
        me->waitingCond = true; me->cond = c; me->condMutex = m; me->op = OP_LOCK; me->o = o;
        int ch = choose(me); if (ch != me->id) switchFrom(me, ch, true);
        o->owner = me->id; o->count = cnt; joinVc(me->vc, o->vc); record(me, OP_LOCK, o, true); changed(); return 0;
    }
    static int condWake(void* cv, bool all, void* pc)
    {
        Obj* c = obj(cv); Thr* me = tl_me; visible(all ? OP_CBCAST : OP_CSIGNAL, c, pc);
        int w[MAXT], n = 0; for (int i = 1; i <= g_n; ++i) if (g_t[i].waitingCond && g_t[i].cond == c) w[n++] = i;
        if (n == 0) { record(me, OP_CBCAST, c, false); return 0; }
        // the lowest waiter is woken by a signal; different choices are covered by different arrival orders
        for (int i = 0; i < (all ? n : 1); ++i) { Thr& t = g_t[w[i]]; t.waitingCond = false; t.chain = mix(t.chain, me->chain); }
        record(me, OP_CBCAST, c, true); changed(); return 0;
    }
    static int rwLock(void* m, bool write, void* pc) { Obj* o = obj(m); Thr* me = tl_me; visible(write ? OP_WRLOCK : OP_RDLOCK, o, pc); if (write) o->owner = me->id; else ++o->readers; joinVc(me->vc, o->vc); record(me, write ? OP_WRLOCK : OP_RDLOCK, o, true); changed(); return 0; }
    static int rwTry(void* m, bool write, void* pc) { Obj* o = obj(m); Thr* me = tl_me; visible(OP_TRYLOCK, o, pc); if (o->owner == -1 && (!write || o->readers == 0)) { if (write) o->owner = me->id; else ++o->readers; joinVc(me->vc, o->vc); record(me, OP_TRYLOCK, o, true); changed(); return 0; } record(me, OP_TRYLOCK, o, false, 1); spinCheck(me, pc, 1, 0); return EBUSY; }
    static int rwUnlock(void* m, void* pc)
    {
        Obj* o = obj(m); Thr* me = tl_me; me->pc = rel(pc); if (o->owner == me->id) { o->owner = -1; memcpy(o->vc, me->vc, sizeof o->vc); } else if (o->readers > 0) { --o->readers; joinVc(o->vc, me->vc); } else { Rt r; violation("unlock of a shared mutex that is not held, in " + where(rel(pc))); }
        ++me->vc[me->id]; record(me, OP_UNLOCK, o, true); changed(); return 0;
    }
    static Obj* atomicPoint(const volatile void* a, int op, void* pc) { Obj* o = obj((void*)a); visible(op, o, pc); return o; }
    static void atomicSync(Obj* o, bool write) { Thr* me = tl_me; joinVc(me->vc, o->vc); if (write) { joinVc(o->vc, me->vc); ++me->vc[me->id]; } }
}
using namespace sx;

// ---- instrumentation entry points
#define PC __builtin_return_address(0)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
    void __tsan_read1(void* a) { access(a, 1, false, PC); } void __tsan_read2(void* a) { access(a, 2, false, PC); } void __tsan_read4(void* a) { access(a, 4, false, PC); } void __tsan_read8(void* a) { access(a, 8, false, PC); } void __tsan_read16(void* a) { access(a, 16, false, PC); }
    void __tsan_write1(void* a) { access(a, 1, true, PC); } void __tsan_write2(void* a) { access(a, 2, true, PC); } void __tsan_write4(void* a) { access(a, 4, true, PC); } void __tsan_write8(void* a) { access(a, 8, true, PC); } void __tsan_write16(void* a) { access(a, 16, true, PC); }
    void __tsan_unaligned_read2(void* a) { access(a, 2, false, PC); } void __tsan_unaligned_read4(void* a) { access(a, 4, false, PC); } void __tsan_unaligned_read8(void* a) { access(a, 8, false, PC); } void __tsan_unaligned_read16(void* a) { access(a, 16, false, PC); }
    void __tsan_unaligned_write2(void* a) { access(a, 2, true, PC); } void __tsan_unaligned_write4(void* a) { access(a, 4, true, PC); } void __tsan_unaligned_write8(void* a) { access(a, 8, true, PC); } void __tsan_unaligned_write16(void* a) { access(a, 16, true, PC); }
    void __tsan_volatile_read1(void* a) { access(a, 1, false, PC); } void __tsan_volatile_read2(void* a) { access(a, 2, false, PC); } void __tsan_volatile_read4(void* a) { access(a, 4, false, PC); } void __tsan_volatile_read8(void* a) { access(a, 8, false, PC); }
    void __tsan_volatile_write1(void* a) { access(a, 1, true, PC); } void __tsan_volatile_write2(void* a) { access(a, 2, true, PC); } void __tsan_volatile_write4(void* a) { access(a, 4, true, PC); } void __tsan_volatile_write8(void* a) { access(a, 8, true, PC); }
    void __tsan_read_range(void* a, size_t n) { access(a, n, false, PC); } void __tsan_write_range(void* a, size_t n) { access(a, n, true, PC); }
    void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, true, PC); } void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }

#define ATOMICS(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int) { if (!managed()) return __atomic_load_n(a, 5); void* pc = PC; Obj* o = atomicPoint(a, OP_ALOAD, pc); T v = __atomic_load_n(a, 5); atomicSync(o, false); record(tl_me, OP_ALOAD, o, false, (u64)v); spinCheck(tl_me, pc, (u64)v, 0); return v; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int) { if (!managed()) { __atomic_store_n(a, v, 5); return; } Obj* o = atomicPoint(a, OP_ASTORE, PC); T old = __atomic_load_n(a, 5); __atomic_store_n(a, v, 5); { Thr* me = tl_me; memcpy(o->vc, me->vc, sizeof o->vc); ++me->vc[me->id]; } record(tl_me, OP_ASTORE, o, true, (u64)v); if (old != v) changed(); } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { if (!managed()) return __atomic_exchange_n(a, v, 5); Obj* o = atomicPoint(a, OP_ARMW, PC); T old = __atomic_exchange_n(a, v, 5); atomicSync(o, true); record(tl_me, OP_ARMW, o, true, (u64)old); if (old != v) changed(); else spinCheck(tl_me, PC, (u64)old, 0); return old; } \
    ATOMIC_RMW(N, T, add) ATOMIC_RMW(N, T, sub) ATOMIC_RMW(N, T, and) ATOMIC_RMW(N, T, or) ATOMIC_RMW(N, T, xor) ATOMIC_RMW(N, T, nand) \
    bool __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { if (!managed()) return __atomic_compare_exchange_n(a, e, v, false, 5, 5); Obj* o = atomicPoint(a, OP_ARMW, PC); T old = __atomic_load_n(a, 5); bool r = __atomic_compare_exchange_n(a, e, v, false, 5, 5); atomicSync(o, r); record(tl_me, OP_ARMW, o, r, (u64)old); if (r && old != v) changed(); else spinCheck(tl_me, PC, (u64)old, 0); return r; } \
    bool __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int x, int y) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, x, y); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int x, int y) { __tsan_atomic##N##_compare_exchange_strong(a, &e, v, x, y); return e; }
#define ATOMIC_RMW(N, T, OP) \
    T __tsan_atomic##N##_fetch_##OP(volatile T* a, T v, int) { if (!managed()) return __atomic_fetch_##OP(a, v, 5); Obj* o = atomicPoint(a, OP_ARMW, PC); T old = __atomic_fetch_##OP(a, v, 5); atomicSync(o, true); record(tl_me, OP_ARMW, o, true, (u64)old); if (__atomic_load_n(a, 5) != old) changed(); return old; }
    ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
    void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

    // ---- pthread
#define REAL(name, ...) static decltype(&name) real; if (!real) real = (decltype(&name))dlsym(RTLD_NEXT, #name); return real(__VA_ARGS__)
    static bool isRec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (managed()) return mutexLock(m, isRec(m), PC); REAL(pthread_mutex_lock, m); }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (managed()) return mutexUnlock(m, PC); REAL(pthread_mutex_unlock, m); }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (managed()) return mutexTry(m, isRec(m), PC); REAL(pthread_mutex_trylock, m); }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) noexcept { if (managed()) return mutexLock(m, isRec(m), PC); REAL(pthread_mutex_timedlock, m, t); }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (managed()) return condWait(c, m, PC); static decltype(&pthread_cond_wait) real; if (!real) real = (decltype(&pthread_cond_wait))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"); return real(c, m); }
    // a timeout may always elapse first, so it only yields
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (managed()) { mutexUnlock(m, PC); tl_me->yielding = tl_me->didYield = true; mutexLock(m, isRec(m), PC); return ETIMEDOUT; } static decltype(&pthread_cond_timedwait) real; if (!real) real = (decltype(&pthread_cond_timedwait))dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2"); return real(c, m, t); }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (managed()) { mutexUnlock(m, PC); tl_me->yielding = tl_me->didYield = true; mutexLock(m, isRec(m), PC); return ETIMEDOUT; } REAL(pthread_cond_clockwait, c, m, k, t); }
    int pthread_cond_signal(pthread_cond_t* c) noexcept { if (managed()) return condWake(c, false, PC); static decltype(&pthread_cond_signal) real; if (!real) real = (decltype(&pthread_cond_signal))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2"); return real(c); }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (managed()) return condWake(c, true, PC); static decltype(&pthread_cond_broadcast) real; if (!real) real = (decltype(&pthread_cond_broadcast))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2"); return real(c); }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (managed()) return rwLock(m, false, PC); REAL(pthread_rwlock_rdlock, m); }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (managed()) return rwLock(m, true, PC); REAL(pthread_rwlock_wrlock, m); }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { if (managed()) return rwTry(m, false, PC); REAL(pthread_rwlock_tryrdlock, m); }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { if (managed()) return rwTry(m, true, PC); REAL(pthread_rwlock_trywrlock, m); }
    int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (managed()) return rwUnlock(m, PC); REAL(pthread_rwlock_unlock, m); }
    int sched_yield() noexcept { if (managed()) { tl_me->yielding = tl_me->didYield = true; visible(OP_YIELD, nullptr, PC); return 0; } REAL(sched_yield); }
    int nanosleep(const timespec* a, timespec* b) { if (managed()) { tl_me->yielding = tl_me->didYield = true; visible(OP_YIELD, nullptr, PC); return 0; } REAL(nanosleep, a, b); }
    int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) { if (managed()) { tl_me->yielding = tl_me->didYield = true; visible(OP_YIELD, nullptr, PC); return 0; } REAL(clock_nanosleep, c, f, a, b); }
    int usleep(useconds_t u) { if (managed()) { tl_me->yielding = tl_me->didYield = true; visible(OP_YIELD, nullptr, PC); return 0; } REAL(usleep, u); }
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        if (!managed()) { REAL(pthread_once, o, f); }
        if (*(volatile int*)o == 2) { joinVc(tl_me->vc, obj(o)->vc); return 0; } // already done before this execution or in it
        Obj* b = obj(o); visible(OP_ONCE, b, PC); if (*(volatile int*)o == 2) return 0;
        b->onceState = 1; f(); *(volatile int*)o = 2; b->onceState = 2; joinVc(b->vc, tl_me->vc); ++tl_me->vc[tl_me->id]; record(tl_me, OP_ONCE, b, true); changed(); return 0;
    }
    // a static object lives longer than the execution, so its initialisation is not part of the explored program's memory
    int __cxa_guard_acquire(long long* g)
    {
        if (*(volatile char*)g) return 0;
        if (!managed()) return 1;
        Obj* b = obj(g); visible(OP_ONCE, b, PC); joinVc(tl_me->vc, b->vc); if (*(volatile char*)g) return 0;
        b->onceState = 1; b->owner = tl_me->id; record(tl_me, OP_ONCE, b, true); ++tl_rt; return 1;
    }
    static Obj* guardHeld(long long* g) { if (!g_live || !tl_me || tl_me->id <= 0 || tl_rt == 0) return nullptr; Obj* b = obj(g); return b->onceState == 1 && b->owner == tl_me->id ? b : nullptr; }
    void __cxa_guard_release(long long* g) { __atomic_store_n((char*)g, 1, 5); if (Obj* b = guardHeld(g)) { --tl_rt; b->onceState = 2; b->owner = -1; joinVc(b->vc, tl_me->vc); ++tl_me->vc[tl_me->id]; record(tl_me, OP_ONCE, b, true); changed(); } }
    void __cxa_guard_abort(long long* g) { if (Obj* b = guardHeld(g)) { --tl_rt; b->onceState = 0; b->owner = -1; changed(); } }

    // ---- block operations of instrumented code (--wrap)
    void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*);
    void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
    void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
    void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
    int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return __real_memcmp(a, b, n); }
}
void* operator new(size_t n) { if (arenaOn()) return arenaAlloc(n, PC); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { if (arenaOn()) return arenaAlloc(n, PC); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (arenaOn()) return arenaAlloc(n, PC); return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (arenaOn()) return arenaAlloc(n, PC); return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (!p) return; if (inArena(p)) arenaFree(p, PC); else free(p); }
void operator delete[](void* p) noexcept { if (!p) return; if (inArena(p)) arenaFree(p, PC); else free(p); }
void operator delete(void* p, size_t) noexcept { if (!p) return; if (inArena(p)) arenaFree(p, PC); else free(p); }
void operator delete[](void* p, size_t) noexcept { if (!p) return; if (inArena(p)) arenaFree(p, PC); else free(p); }
