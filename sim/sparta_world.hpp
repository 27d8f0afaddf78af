// Shared pieces of the harnesses: a canary payload with live-object accounting and a small simulated device
// tree (scheduler + clocks + tree nodes) in the shipped sparta classes.
#pragma once
#include "dst.hpp"
#include "sparta/sparta.hpp"
#include "sparta/kernel/Scheduler.hpp"
#include "sparta/simulation/Clock.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/simulation/TreeNode.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/kernel/SleeperThread.hpp"
#include <memory>

namespace dst {

// A payload that knows whether it is alive.  Every copy is registered; use after destruction, double destruction
// and leaks are visible to the harness.
struct Canary {
    static constexpr uint64_t ALIVE = 0x51A5AFE0C0DEULL, DEAD = 0xDEADDEADDEADULL;
    static std::set<const Canary *> & live() { static std::set<const Canary *> s; return s; }
    static uint64_t & errors() { static uint64_t e = 0; return e; }
    static std::string & what() { static std::string w; return w; }
    static void err(const char * w) { if (!errors()++) what() = w; }
    uint64_t magic = ALIVE; int64_t val = 0; uint64_t serial = 0;
    Canary(int64_t v = 0, uint64_t s = 0) : val(v), serial(s) { reg(); }
    Canary(const Canary & o) : val(o.val), serial(o.serial) { o.check("copy from dead payload"); reg(); }
    Canary(Canary && o) : val(o.val), serial(o.serial) { o.check("move from dead payload"); reg(); }
    Canary & operator=(const Canary & o) { check("assign to dead payload"); o.check("assign from dead payload"); val = o.val; serial = o.serial; return *this; }
    Canary & operator=(Canary && o) { check("assign to dead payload"); o.check("assign from dead payload"); val = o.val; serial = o.serial; return *this; }
    ~Canary() { check("payload destroyed twice"); magic = DEAD; if (!live().erase(this)) err("destroying an unknown payload"); }
    void reg() { magic = ALIVE; if (!live().insert(this).second) err("payload constructed over a live payload"); }
    bool alive() const { return magic == ALIVE && live().count(this); }
    void check(const char * w) const { if (!alive()) err(w); }
    bool operator==(const Canary & o) const { check("compare dead payload"); o.check("compare dead payload"); return val == o.val; }
    static void require(Ctx & c) { if (errors()) c.fail("payload-lifetime", "%s", what().c_str()); }
};
inline std::ostream & operator<<(std::ostream & o, const Canary & c) { return o << c.val; }

template<class F> bool throws(F && f, std::string * msg = nullptr) {
    try { f(); } catch (Violation &) { throw; } catch (std::exception & e) { if (msg) *msg = e.what(); return true; }
    return false;
}

} // namespace dst
