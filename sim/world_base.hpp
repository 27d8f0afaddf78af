// The frame every simulated world shares: a stored first violation (so that one raised inside a handler survives
// the scheduler's unwinding), checks, refused calls, and the payload accounting around a run.
#pragma once
#include "sparta_world.hpp"
#include "alloc_fault.hpp"
#include <deque>
#include <algorithm>
namespace {
typedef sparta::Scheduler::Tick Tick;
typedef unsigned long ul;
using sparta::SchedulingPhase;
using namespace dst;

struct PBase {
    Ctx & c; const Plan & plan;
    std::unique_ptr<sparta::Scheduler> sched; std::unique_ptr<sparta::ClockManager> cm; std::unique_ptr<sparta::RootTreeNode> rtn;
    std::vector<sparta::Clock::Handle> clks;
    std::unique_ptr<Violation> stored;
    PBase(Ctx & c_, const Plan & p) : c(c_), plan(p) {}
    ~PBase() { if (rtn) rtn->enterTeardown(); }
    [[noreturn]] void failv(const char * cls, const std::string & m) { if (!stored) stored.reset(new Violation(cls, m)); throw *stored; }
#define FAIL(cls, ...) do { char b_[900]; snprintf(b_, sizeof b_, __VA_ARGS__); failv(cls, b_); } while (0)
#define CHECK(cond, cls, ...) do { if (!(cond)) FAIL(cls, __VA_ARGS__); } while (0)
    Tick now() { return sched->getCurrentTick(); }
    // runs f; true if it was refused with an exception
    template<class F> bool refused(F && f) { std::string m; bool t = throws(f, &m); if (stored) throw *stored; if (t && c.trace) printf("  [refused: %.160s]\n", m.c_str()); return t; }
};

template<class W> void runWorld(const Plan & p, Ctx & c) {
    Canary::live().clear(); Canary::errors() = 0;
    af::Lay lay(af::seed_of(p));
    std::unique_ptr<W> w(new W(c, p));
    w->go();
    if (w->stored) throw *w->stored;
    w.reset();
    Canary::require(c);
    if (!Canary::live().empty()) c.fail("payload-leak", "%zu payloads still alive after everything was destroyed", Canary::live().size());
    af::no_stray_writes(c);
}
} // namespace
