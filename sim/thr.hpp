// Deterministic threads and clocks.  The pthread and clock symbols are interposed by the harness executable
// (thr.cpp): while thr::begin() is in force exactly one thread runs at a time, and the plan decides at every
// synchronisation point (and, in code built with the "yield" variant, at every memory access) who runs next.
// Time is virtual: it moves only when a thread burns it or when every thread waits for a deadline.
#pragma once
#include "dst.hpp"
#include <functional>
namespace dst { namespace thr {
void begin(Ctx & c, const Plan & p);            // calling thread becomes thread 0; reads "op pre <gap> <thread>" and cfg bseed
void end();                                     // every other thread must be done
bool on();
int  self();
int  spawn(std::function<void()> f);            // a simulated thread (a real one under control)
void join(int id);
void point(const char * what);                  // explicit scheduling point
int64_t now_ns();                               // virtual monotonic time
void burn(int64_t cpu_ns);                      // the calling thread computes for that long (wall and user time move)
void stall(int64_t wall_ns);                    // wall time passes, no cpu time
void step_realtime(int64_t ns);                 // CLOCK_REALTIME jumps (ntp step)
uint64_t points(); uint64_t switches();
// called when a thread started through pthread_create lets an exception escape (std::terminate in production)
extern std::function<void(int id, const std::string & what)> on_thread_exception;
}
// end the run from any thread, reporting success (cls == nullptr) or a violation
[[noreturn]] void finish_run(const char * cls, const std::string & msg);
// run gen helper: random preemption list
inline void gen_preemptions(Rng & r, Plan & p, int maxn, int maxgap) {
    int n = (int)r.range(0, maxn); int style = (int)r.below(3);
    for (int i = 0; i < n; ++i) p.add("pre", {style == 0 ? r.range(1, 6) : style == 1 ? r.range(1, maxgap) : r.range(1, r.p(70) ? 4 : maxgap), r.range(0, 5)});
    p.cfg["bseed"] = r.p(30) ? 0 : r.range(1, 1000000);
}
}
