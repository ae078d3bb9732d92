// sched.hpp - controlled scheduler for the real multi-threaded code.
//
// The code under test is compiled with gcc's -fsanitize=thread instrumentation, but linked against our own
// runtime (tsanrt.cpp) instead of libtsan: every memory access, every atomic operation and every mutex
// operation calls into the scheduler. Logical threads are fibers of one OS thread; a switch can happen
// before any operation that conflicts with another thread. Which operations those are is learned: the
// exploration restarts from scratch whenever a new conflicting instruction shows, until the set is closed.
// The explorer enumerates all schedules with at most `bound` preemptions (switches at blocking operations
// and at the end of a thread are free). Interleavings are sequentially consistent; in addition, accesses
// that are not ordered by happens-before (honouring the memory orders used) are reported as races.
#pragma once
#include "mc.hpp"
#include "tbb/mtbb.h"
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Options {
    uint64_t maxSteps = 20000;       // scheduling points after which an execution counts as not terminating
    bool reportRaces = false;        // a data race on plain accesses is a violation
    bool orderCosts = false;         // which thread runs first (or next after one ends) is a choice within the bound, not free
};

// run the bodies as logical threads; throws mc::Fail on deadlock, livelock, use after free, race
void run(mc::Choice &c, std::vector<std::function<void()>> bodies, const Options &o = Options());

// logical time (monotonic over the events of this execution), for histories
uint64_t now();

// an operation of the history begins or ends here
void boundary();

// *b becomes the time of the first scheduling point the running thread passes from here on (what comes
// before is invisible to the others: an operation that begins here might as well begin there)
void opBegin(uint64_t *b);

// no scheduling point was passed: the operation begins now
void opEnd();

// the bookkeeping of the harness itself: invisible to the scheduler
struct Quiet {
    bool old;
    Quiet();
    ~Quiet();
};

// index of the running logical thread, -1 outside
int self();

// number of scheduling points / context switches of the last run
uint64_t points();
uint64_t switches();

// policy through which the mini-TBB announces its operations
mtbb::Policy *policy();

// parallel loops reached outside of run() execute their leaves as logical threads
struct Threaded : mtbb::Policy {
    mc::Choice *c;
    std::size_t leaves;
    Options opt;

    Threaded(mc::Choice *c_, std::size_t leaves_, bool races = true) : c(c_), leaves(leaves_) { opt.reportRaces = races; }

    std::size_t maxLeaves() override { return leaves; }

    bool threaded() override { return true; }

    void runThreads(std::vector<std::function<void()>> &l) override {
        if (l.size() == 1) l[0](); else run(*c, l, opt);
    }
};

struct Setup {                        // installs policy and hooks of the explorer
    Setup();
};
static Setup setup_;

} // namespace sched
