// Systematic concurrency explorer. The library and the harness bodies are compiled with -fsanitize=thread, but linked
// against the runtime in schedx_rt.cpp: every lock, condition variable and atomic operation of the real code is a scheduling
// point of a controlled scheduler (one thread runs at a time), every plain access is checked by a vector-clock race
// detector and against freed memory. explore() runs every schedule up to a preemption bound (depth-first, with pruning of
// prefixes that lead to a happens-before graph already explored).
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sx
{
    struct Config { int preemptions = 2; int spurious = 0; bool races = true; bool leaks = true; long maxExecs = 0; };
    struct Stats { unsigned long execs = 0, states = 0, transitions = 0, pruned = 0, aborted = 0; int maxDepth = 0; };
    struct Program
    {
        virtual ~Program() {}
        virtual int threads() = 0;
        virtual void setup() = 0;          // controller thread, before the threads start
        virtual void body(int t) = 0;      // thread t
        virtual void finish(bool deadlockFree) = 0; // controller thread, after all threads ended; throws mc::Violation
    };
    // Reports through die() and does not return when a schedule violates the property.
    Stats explore(Program& p, const Config& c);
    // One run without concurrency: f runs in a fresh controller thread between setup and finish
    void sequential(const std::function<void()>& f);
    [[noreturn]] void violation(const std::string& msg); // from any thread: reports with the schedule so far
    // To be called from bodies
    void callBegin(); void callEnd();      // call boundaries: scheduling points that are part of the explored history
    void await(const std::function<bool()>& pred); // blocks until the predicate (over harness state) holds
    unsigned long observe(const std::function<unsigned long()>& f); // scheduling point; the value seen becomes part of the explored state
    void touched();                        // harness state used by await predicates has changed
    bool blockedInWait(int t);             // thread t is blocked at a condition variable or spinning
    bool blockedInCond(int t);             // thread t is blocked at a condition variable
    long responses();                      // number of callEnd()s so far
    int self();
    struct Rt { Rt(); ~Rt(); };            // memory allocated within this scope is not part of the explored program
}
