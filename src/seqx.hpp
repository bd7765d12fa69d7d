// Sequential explorer: executes EVERY enabled operation sequence up to a depth on the real library, in lock step with the
// reference model, observing the complete public state after every sequence. Work is split over forked workers; a crash,
// sanitizer report, hang or leak of one sequence is attributed to that sequence. Implementation: seqx.cpp
#pragma once
#include "ops.hpp"
#include "report.hpp"
namespace mc
{
    struct Init { std::string name; std::vector<Op> ops; };
    struct Profile
    {
        std::string name; int nv = 1, ns = 0, nr = 0;
        std::vector<Init> inits; std::vector<Op> alpha; int depth = 3; ObsCfg obs;
        std::function<void(World&, Model&, Obs&)> extra;   // additional observations after each sequence
        int thoroughDepth = 0;   // 0: depth + 1
    };
    struct Explorer
    {
        std::vector<Profile> profs;
        int run(int argc, char** argv);
    };
}
