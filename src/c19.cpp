// C19: every schedule of concurrent calls is equivalent to a one-at-a-time order of the same calls on the real library.
#include "conc.hpp"
using namespace mc;
// Replaces the system's random source: the same identifiers in every execution of a schedule.
#include <random>
std::random_device::result_type std::random_device::_M_getval() { static thread_local unsigned k = 0; return 0x9e3779b9u * ++k + 77u * (unsigned)(sx::self() + 2); }
int main(int argc, char** argv)
{
    Enumerator e;
    return e.run(argc, argv, [&](Enumerator& e) {
        bool T = g_thorough; int n = lastLinear() + 1;
        std::vector<CSc> v; for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { bool h = (cops()[i].heavy && cops()[j].heavy) || (cops()[i].reads && cops()[j].reads); v.push_back({{{i}, {j}}, T ? 3 : h ? 1 : 2, 0}); }
        addScenarios(e, "pairs", v, true, false, "every pair of " + std::to_string(n) + " calls in two threads, preemption bound " + (T ? "3" : "2 (1 between two serialising or two reading calls)"));
        // three threads
        auto three = opList({"CreateRecord(U=5,A=0)", "CreateRecord(U=5,A=2)", "r0.SetData(U,5)", "r1.SetData(U,5)", "EraseRecord(U,1)", "EraseRecords(A,0)", "r0.SetData({U=6,A=7})", "GetRecords(A,0)", "SortBy(U)", "s1.Join(s2)", "RequestEqual(A,0)", "RemoveKey(A)"});
        v.clear(); for (size_t i = 0; i < three.size(); ++i) for (size_t j = i; j < three.size(); ++j) for (size_t k = j; k < three.size(); ++k) v.push_back({{{three[i]}, {three[j]}, {three[k]}}, T ? 2 : 1, 0});
        addScenarios(e, "triples", v, true, false, "every triple of " + std::to_string(three.size()) + " calls in three threads, preemption bound " + (T ? "2" : "1"));
        // two calls after each other in one thread: what a thread did or saw stays so
        auto first = opList({"CreateRecord(U=5,A=0)", "r0.SetData(U,5)", "r0.SetData(A,5)", "EraseRecord(U,1)", "s1.Join(s2)", "RequestEqual(A,0)", "AddKey(B,7)", "GetRecord(U,5)", "GetRecords(A,0)"});
        auto second = opList({"GetRecord(U,5)", "GetRecords(A,0)", "r0.GetData(A)", "r0.GetData(U)", "ToStrings()", "s1.ToStrings()", "SortBy(U)", "r0.IsKeyExist(B)", "s1.GetRecords(A,0)", "own.AddRecord(r0)", "EraseRecord(U,5)"});
        auto other = opList({"CreateRecord(U=5,A=2)", "EraseRecord(U,5)", "EraseRecord(r0)", "EraseRecords(A,0)", "r1.SetData(U,5)", "r1.SetData({S=c,A=5})", "s1.RemoveRecord(U,1)", "UpdateKey(A,9)", "DropData()", "RemoveKey(A)"});
        v.clear(); for (int a : first) for (int b : second) for (int c : other) v.push_back({{{a, b}, {c}}, T ? 2 : 1, 0});
        addScenarios(e, "sequences", v, true, false, std::to_string(first.size()) + " x " + std::to_string(second.size()) + " call sequences of one thread against " + std::to_string(other.size()) + " calls of another, preemption bound " + (T ? "2" : "1"));
        addScenarios(e, "unheld", unheldScenarios(T, n - 1), true, false, std::string("records held by no reference: every call that erases them against every call that reaches records, preemption bound ") + (T ? "3 (2 for two calls in a row)" : "2 (1 for serialising calls and for two calls in a row)"));
        v.clear(); for (int a : other) for (int b : first) for (int c : other) for (int d : second) if (T || (a + b + c + d) % 7 == 0) v.push_back({{{b, c}, {a, d}}, 1, 0});
        if (T) addScenarios(e, "two by two", v, true, false, "two calls in each of two threads, preemption bound 1");
    });
}
