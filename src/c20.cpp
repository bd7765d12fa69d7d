// C20: data races, lifetime errors, leaks and deadlocks in every schedule of concurrent calls.
#include "conc.hpp"
using namespace mc;
// Replaces the system's random source: the same identifiers in every execution of a schedule.
#include <random>
std::random_device::result_type std::random_device::_M_getval() { static thread_local unsigned k = 0; return 0x9e3779b9u * ++k + 77u * (unsigned)(sx::self() + 2); }
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
int main(int argc, char** argv)
{
    static NullBuf nb; std::cout.rdbuf(&nb);
    Enumerator e;
    return e.run(argc, argv, [&](Enumerator& e) {
        bool T = g_thorough; int n = cops().size();
        std::vector<int> one, cross; for (int i = 0; i < n; ++i) (cops()[i].cross ? cross : one).push_back(i);
        std::vector<CSc> v; for (size_t i = 0; i < one.size(); ++i) for (size_t j = i; j < one.size(); ++j) { auto &a = cops()[one[i]], &b = cops()[one[j]]; bool h = (a.heavy && b.heavy) || (a.reads && b.reads); v.push_back({{{one[i]}, {one[j]}}, T ? 3 : h ? 1 : 2, 0}); }
        addScenarios(e, "pairs", v, false, true, "every pair of " + std::to_string(one.size()) + " calls in two threads, preemption bound " + (T ? "3" : "2 (1 between two serialising or two reading calls)"));
        v.clear(); for (size_t i = 0; i < cross.size(); ++i) for (size_t j = i; j < cross.size(); ++j) v.push_back({{{cross[i]}, {cross[j]}}, T ? 2 : 1, 0});
        addScenarios(e, "two vaults", v, false, true, "every pair of " + std::to_string(cross.size()) + " calls involving two vaults, preemption bound " + (T ? "2" : "1"));
        auto life = opList({"EraseRecord(r0)", "EraseRecords(A,0)", "DropData()", "r0.Reset()", "r0.GetData(A)", "r0.SetData(A,5)", "copy of a shared reference", "GetRecord(U,0)", "own=s1", "own.Reset()", "{set created and destroyed}", "s1.RemoveRecord(r0)", "CreateRecord(U=5,A=0)"});
        v.clear(); for (size_t i = 0; i < life.size(); ++i) for (size_t j = i; j < life.size(); ++j) for (size_t k = j; k < life.size(); ++k) v.push_back({{{life[i]}, {life[j]}, {life[k]}}, T ? 2 : 1, 0});
        addScenarios(e, "triples", v, false, true, "every triple of " + std::to_string(life.size()) + " calls in three threads, preemption bound " + (T ? "2" : "1"));
        v.clear(); for (size_t a = 0; a < life.size(); ++a) for (size_t b = 0; b < life.size(); ++b) if (a != b) for (size_t c = 0; c < life.size(); ++c) v.push_back({{{life[a], life[b]}, {life[c]}}, T ? 2 : 1, 0});
        addScenarios(e, "sequences", v, false, true, "every two of " + std::to_string(life.size()) + " calls in one thread against one in another, preemption bound " + (T ? "2" : "1"));
        addScenarios(e, "unheld", unheldScenarios(T, (int)cops().size() - 1), false, true, std::string("records held by no reference: every call that erases them against every call that reaches records, preemption bound ") + (T ? "3 (2 for two calls in a row)" : "2 (1 for serialising calls and for two calls in a row)"));
    });
}
