// C06: asynchronous scheduling from other threads.  C07: the watchdogs (wall/CPU timeout thread, infinite-loop
// detection, tick watchdog) under virtual time.  All threads run under thr.cpp; Scheduler.cpp is compiled so that
// each of its memory accesses is a scheduling point.
#include "sparta_world.hpp"
#include "thr.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/events/AsyncEvent.hpp"
#include "sparta/kernel/SleeperThread.hpp"
#include <unistd.h>
#include <algorithm>

using namespace dst;
namespace {
typedef sparta::Scheduler::Tick Tick;
using sparta::SchedulingPhase;

struct Base {
    Ctx & c; const Plan & plan;
    std::unique_ptr<sparta::Scheduler> sched; std::unique_ptr<sparta::ClockManager> cm; std::unique_ptr<sparta::RootTreeNode> rtn;
    std::vector<sparta::Clock::Handle> clks; std::vector<std::unique_ptr<sparta::TreeNode>> nodes; std::vector<std::unique_ptr<sparta::EventSet>> sets;
    std::unique_ptr<Violation> stored;
    Base(Ctx & c_, const Plan & p) : c(c_), plan(p) {}
    void tree(int div) {
        sched.reset(new sparta::Scheduler()); cm.reset(new sparta::ClockManager(sched.get())); rtn.reset(new sparta::RootTreeNode("dstroot"));
        clks.push_back(cm->makeRoot(rtn.get()));
        if (div > 1) clks.push_back(cm->makeClock("c1", clks[0], div, 1));
        cm->normalize(); rtn->setClock(clks[0].get());
        for (size_t i = 0; i < clks.size(); ++i) { nodes.emplace_back(new sparta::TreeNode(rtn.get(), "n" + std::to_string(i), "n")); nodes.back()->setClock(clks[i].get()); sets.emplace_back(new sparta::EventSet(nodes.back().get())); }
    }
    void up() { rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize(); }
    void down() { rtn->enterTeardown(); }
    [[noreturn]] void failv(const char * cls, const std::string & m) { stored.reset(new Violation(cls, m)); throw *stored; }
#define FAIL(cls, ...) do { char b_[900]; snprintf(b_, sizeof b_, __VA_ARGS__); failv(cls, b_); } while (0)
#define CHECK(cond, cls, ...) do { if (!(cond)) FAIL(cls, __VA_ARGS__); } while (0)
};

// ------------------------------------------------------------------------------------------------ C06
struct AWorld : Base {
    using Base::Base;
    struct Call { int ev; Tick delay; uint64_t inv = 0, ret = 0; Tick tick_inv = 0; uint64_t kill_sure = ~0ull; bool optional = false; int thr = 0; };
    struct Del { int ev; Tick tick; uint64_t seq; };
    struct Rec { AWorld * w; int id; int phase; int clk; std::shared_ptr<void> own; std::function<void(uint64_t)> sched; std::function<void()> sched0; std::function<void()> cancel; uint64_t d0 = 0; uint64_t per = 1;
        void fire() { w->on_async(*this); } };
    struct HB { AWorld * w; void fire() { w->on_hb(); } };
    std::vector<std::unique_ptr<Rec>> ev; std::vector<Call> calls; std::vector<Del> dels;
    std::vector<std::pair<uint64_t, Tick>> hend;       // handler ends: (seq, tick)
    struct Kill { int ev; uint64_t a, b; }; std::vector<Kill> kills;
    uint64_t seq = 0; Tick hb_next = 0, hb_per = 1, hb_cyc = 1, hb_until = 0; bool hb_on = false; std::unique_ptr<sparta::Event<SchedulingPhase::Tick>> hb; HB hbo{this};
    std::deque<Op> hq; Tick last_tick = 0; bool any_tick = false; Tick epoch_base = 0; uint64_t epoch = 0;

    void mkev(const Op & o) {
        std::unique_ptr<Rec> r(new Rec); Rec * R = r.get(); R->w = this; R->id = (int)ev.size(); R->phase = (int)(o.arg(0) % 4); R->clk = (int)(o.arg(1) % clks.size()); R->d0 = o.arg(2);
        auto mk = [&](auto P) { constexpr SchedulingPhase ph = decltype(P)::value;
            auto e = std::make_shared<sparta::AsyncEvent<ph>>(sets[R->clk].get(), "async" + std::to_string(R->id), CREATE_SPARTA_HANDLER_WITH_OBJ(Rec, R, fire), R->d0);
            R->own = e; R->sched = [e](uint64_t d) { e->schedule(d); }; R->sched0 = [e] { e->schedule(); }; R->cancel = [e] { e->cancel(); }; e->setContinuing(o.arg(3, 1) != 0); };
        switch (R->phase) { case 0: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::Update>()); break; case 1: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::Tick>()); break;
            case 2: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::PortUpdate>()); break; default: mk(std::integral_constant<SchedulingPhase, SchedulingPhase::PostTick>()); }
        ev.push_back(std::move(r));
    }
    void call(int thr, int e, int64_t d) {
        Rec & r = *ev[e % ev.size()]; size_t k = calls.size(); Call x; x.ev = r.id; x.thr = thr; x.delay = (d < 0 ? r.d0 : (uint64_t)d) * r.per; x.inv = ++seq; x.tick_inv = sched->getCurrentTick();
        calls.push_back(x); c.log("T%d schedules async %d delay %lu at tick %lu", thr, r.id, (unsigned long)x.delay, (unsigned long)x.tick_inv);
        if (d < 0) r.sched0(); else r.sched((uint64_t)d);
        calls[k].ret = ++seq; c.log("T%d scheduled #%zu", thr, k);
    }
    void cancel(int e) {
        Rec & r = *ev[e % ev.size()]; uint64_t a = ++seq; c.log("cancel async %d at %lu", r.id, (unsigned long)sched->getCurrentTick());
        r.cancel(); uint64_t b = ++seq; kill(r.id, a, b); c.probe("async cancel");
    }
    void kill(int e, uint64_t a, uint64_t b) {
        for (auto & x : calls) if ((e < 0 || x.ev == e) && x.inv < b) {
            if (x.ret && x.ret < a) x.kill_sure = std::min(x.kill_sure, a); else x.optional = true; }
        kills.push_back({e, a, b});
    }
    void enter(Tick t) { if (any_tick) CHECK(t >= last_tick, "time-went-back", "tick %lu after %lu", (unsigned long)t, (unsigned long)last_tick); last_tick = t; any_tick = true; }
    void leave(Tick t) { hend.push_back({++seq, t}); }
    void on_async(Rec & r) {
        Tick t = sched->getCurrentTick(); enter(t); ++seq; dels.push_back({r.id, t, seq}); c.log("async %d fires at %lu", r.id, (unsigned long)t); c.nontrivial = true;
        script(r.id + 1); leave(t);
    }
    void on_hb() {
        Tick t = sched->getCurrentTick(); enter(t); c.log("heartbeat %lu", (unsigned long)t);
        CHECK(t == hb_next, "sync-event-moved", "the synchronous event scheduled for tick %lu fired at %lu", (unsigned long)hb_next, (unsigned long)t);
        hb_on = false;
        script(0);
        if (t < hb_until) { hb->schedule(hb_cyc); hb_next = t + hb_per; hb_on = true; }
        leave(t);
    }
    void script(int who) { if (!hq.empty() && hq.front().arg(0) % (int64_t)(ev.size() + 1) == who) { Op o = hq.front(); hq.pop_front();
        if (o.k == "h.acall") call(0, (int)o.arg(1), o.arg(2)); else if (o.k == "h.acancel") cancel((int)o.arg(1)); else if (o.k == "h.stop") { sched->stopRunning(); c.probe("stopped"); } } }
    void run_some(Tick n, bool exact) {
        if (!hb_on) { hb_next = sched->getCurrentTick(); hb->schedule(uint64_t(0)); hb_on = true; }
        c.log("run %lu", (unsigned long)n);
        try { sched->run(n, exact); } catch (Violation &) { throw; } catch (std::exception & e) { if (stored) throw *stored; FAIL("run-threw", "run() failed: %s", std::string(e.what()).substr(0, 300).c_str()); }
        c.sim_time += n; c.log("run done at %lu", (unsigned long)sched->getCurrentTick());
    }
    // every delivery must be explained by its own call, every call that was not cancelled by a delivery
    void check(bool final_) {
        for (auto & r : ev) {
            std::vector<int> cs, ds;
            for (size_t i = 0; i < calls.size(); ++i) if (calls[i].ev == r->id) cs.push_back((int)i);
            for (size_t i = 0; i < dels.size(); ++i) if (dels[i].ev == r->id) ds.push_back((int)i);
            std::vector<std::vector<int>> adj(ds.size());
            std::vector<Tick> HI(cs.size(), ~0ull);
            for (size_t j = 0; j < cs.size(); ++j) {
                Call & x = calls[cs[j]];
                // the first tick that certainly started after the call returned
                if (x.ret) { auto h = std::find_if(hend.begin(), hend.end(), [&](auto & p) { return p.first > x.ret; });
                    if (h != hend.end()) { Tick y = h->second; auto z = std::find_if(h, hend.end(), [&](auto & p) { return p.second > y; }); if (z != hend.end()) HI[j] = z->second + x.delay; } }
            }
            for (size_t i = 0; i < ds.size(); ++i) for (size_t j = 0; j < cs.size(); ++j) {
                Call & x = calls[cs[j]]; Del & d = dels[ds[i]];
                if (d.seq > x.inv && d.seq < x.kill_sure && d.tick >= x.tick_inv + x.delay && d.tick <= HI[j]) adj[i].push_back((int)j); }
            // deliveries -> calls
            auto match = [&](size_t nl, size_t nr, const std::vector<std::vector<int>> & A, std::vector<int> & mr) {
                mr.assign(nr, -1); size_t n = 0;
                for (size_t i = 0; i < nl; ++i) { std::vector<char> seen(nr, 0);
                    std::function<bool(int)> go = [&](int u) { for (int v : A[u]) if (!seen[v]) { seen[v] = 1; if (mr[v] < 0 || go(mr[v])) { mr[v] = u; return true; } } return false; };
                    if (go((int)i)) ++n; else return std::make_pair(n, i); }
                return std::make_pair(n, nl); };
            std::vector<int> mr; auto m1 = match(ds.size(), cs.size(), adj, mr);
            if (m1.first != ds.size()) { Del & d = dels[ds[m1.second]]; FAIL("async-unexplained", "async event %d fired at tick %lu: no schedule() call accounts for it (%zu calls, %zu firings: too early, too late, cancelled or twice)", r->id, (unsigned long)d.tick, cs.size(), ds.size()); }
            std::vector<std::vector<int>> B; std::vector<int> must; Tick now = sched->getCurrentTick();
            for (size_t j = 0; j < cs.size(); ++j) { Call & x = calls[cs[j]]; if (x.optional || x.kill_sure != ~0ull) continue;
                if (!final_ && !(HI[j] < now)) continue;
                std::vector<int> v; for (size_t i = 0; i < ds.size(); ++i) if (std::count(adj[i].begin(), adj[i].end(), (int)j)) v.push_back((int)i); B.push_back(v); must.push_back(cs[j]); }
            auto m2 = match(B.size(), ds.size(), B, mr);
            if (m2.first != B.size()) { Call & x = calls[must[m2.second]]; FAIL("async-lost", "schedule() of async event %d by thread %d at tick %lu with delay %lu was never delivered in time (now tick %lu)", r->id, x.thr, (unsigned long)x.tick_inv, (unsigned long)x.delay, (unsigned long)now); }
        }
    }
    void main() {
        tree((int)plan.c("div", 1));
        for (auto & o : plan.ops) if (o.k == "aev" && ev.size() < 4) mkev(o);
        if (ev.empty()) return;
        hb.reset(new sparta::Event<SchedulingPhase::Tick>(sets[0].get(), "hb", CREATE_SPARTA_HANDLER_WITH_OBJ(HB, &hbo, fire)));
        for (auto & o : plan.ops) if (o.k[0] == 'h' && o.k[1] == '.') hq.push_back(o);
        up();
        for (auto & r : ev) r->per = clks[r->clk]->getPeriod();
        hb_cyc = std::max<int64_t>(1, plan.c("hbp", 1)); hb_per = clks[0]->getPeriod() * hb_cyc; hb_until = (Tick)plan.c("ticks", 20);
        calls.reserve(400);
        // prime the lazily started pieces before other threads exist
        thr::begin(c, plan);
        std::vector<std::vector<Op>> prog(3);
        for (auto & o : plan.ops) if (o.k[0] == 't' && o.k[1] == '.') prog[o.arg(0) % 3].push_back(o);
        std::vector<int> ids;
        for (int t = 0; t < 3; ++t) if (!prog[t].empty()) ids.push_back(thr::spawn([this, t, &prog] {
            for (auto & o : prog[t]) { if (o.k == "t.call") call(t + 1, (int)o.arg(1), o.arg(2)); else usleep((useconds_t)o.arg(1) + 1); } }));
        if (ids.size() > 1) c.probe("several producers");
        for (auto & o : plan.ops) {
            if (o.k == "m.run") { run_some((Tick)std::max<int64_t>(1, o.arg(0)), o.arg(1)); if (stored) throw *stored; check(false); }
            else if (o.k == "m.acall") call(0, (int)o.arg(0), o.arg(1));
            else if (o.k == "m.acancel") cancel((int)o.arg(0));
            else if (o.k == "m.clear" || o.k == "m.restart") {
                uint64_t a = ++seq; c.log("%s", o.k.c_str()); c.fault("scheduler cleared or restarted");
                if (o.k == "m.clear") sched->clearEvents(); else sched->restartAt(sched->getCurrentTick() + o.arg(0));
                kill(-1, a, ++seq); hb_on = false;
            }
            else if (o.k == "m.sleep") usleep((useconds_t)o.arg(0) + 1);
            else continue;
            thr::point("main");
        }
        for (int id : ids) thr::join(id);
        thr::end();
        Tick md = 0; for (auto & x : calls) md = std::max(md, x.delay);
        hq.clear(); hb_until = sched->getCurrentTick() + md + 4 * hb_per + 4;
        for (int i = 0; i < 3; ++i) { run_some(md + 3 * hb_per + 3, true); if (stored) throw *stored; }
        check(true);
        c.probe("async calls", calls.size()); c.probe("async deliveries", dels.size()); c.probe("scheduling points", thr::points());
        down();
    }
};
void runA(const Plan & p, Ctx & c) { auto * w = new AWorld(c, p); w->main(); }
void genA(Rng & r, Plan & p, bool th) {
    p.cfg["div"] = r.p(60) ? 1 : r.range(2, 3); p.cfg["hbp"] = r.p(60) ? 1 : r.range(2, 4); p.cfg["ticks"] = r.range(3, th ? 60 : 30);
    int n = (int)r.range(1, 3); for (int i = 0; i < n; ++i) p.add("aev", {r.range(0, 3), r.range(0, 1), r.range(0, 2), r.p(80)});
    int nt = (int)r.range(1, 3); int m = (int)r.range(2, th ? 20 : 10);
    auto dl = [&]() -> int64_t { return r.p(15) ? -1 : r.p(60) ? r.range(0, 1) : r.range(2, 6); };
    for (int i = 0; i < m * nt; ++i) { if (r.p(75)) p.add("t.call", {r.range(0, nt - 1), r.range(0, n - 1), dl()}); else p.add("t.sleep", {r.range(0, nt - 1), r.range(0, 50)}); }
    for (int i = 0, k = r.p(50) ? 0 : (int)r.range(1, 8); i < k; ++i) { int x = (int)r.below(10); if (x < 5) p.add("h.acall", {r.range(0, n), r.range(0, n - 1), dl()}); else if (x < 9) p.add("h.acancel", {r.range(0, n), r.range(0, n - 1)}); else p.add("h.stop", {r.range(0, n)}); }
    bool canc = r.p(50), clr = r.p(30);
    for (int i = 0, k = (int)r.range(1, 8); i < k; ++i) { int x = (int)r.below(20); 
        if (x < 10) p.add("m.run", {r.range(1, 15), r.range(0, 1)}); else if (x < 12) p.add("m.acall", {r.range(0, n - 1), dl()}); else if (x < 14 && canc) p.add("m.acancel", {r.range(0, n - 1)});
        else if (x < 16 && clr) p.add(r.p(50) ? "m.clear" : "m.restart", {r.range(0, 9)}); else p.add("m.sleep", {r.range(0, 60)}); }
    gen_preemptions(r, p, th ? 60 : 30, r.p(50) ? 60 : 600);
}

// ------------------------------------------------------------------------------------------------ C07
struct SWorld;
SWorld * g_sw = nullptr;
constexpr int64_t MS = 1000000, SEC = 1000 * MS;
struct SWorld : Base {
    using Base::Base;
    struct W { SWorld * w; void fire() { w->on_work(); } } wo{this};
    struct Z { SWorld * w; void fire() { w->on_zero(); } } zo{this};
    std::unique_ptr<sparta::Event<SchedulingPhase::Tick>> work, zero, spare;
    std::deque<Op> steps; int64_t interval = 5 * SEC, timeout = 0; bool clean = false, wall = false, protect = true;
    int64_t run_wall = 0, run_cpu = 0, cpu = 0;         // virtual time inside run()
    int64_t tick_cpu0 = 0; Tick tick_now = ~0ull; int64_t tmo_cross = -1; int64_t back = 0;    // sum of backward realtime jumps
    Tick next_work = 0; bool work_on = false, in_run = false; int64_t run_in_t = 0; bool exiting = false; int64_t exit_t = 0; Tick last_kick = 0, wdt = 0; uint64_t fires = 0; bool hung = false, ended = false;
    int64_t rw() { return run_wall + (in_run ? thr::now_ns() - run_in_t : 0); }
    int64_t run_time() { return wall ? rw() : run_cpu; }
    void burn(int64_t ns) { while (ns > 0) { int64_t s = std::min<int64_t>(ns, 200 * MS); cpu += s; if (in_run) run_cpu += s; ns -= s; thr::burn(s); tmo_check(); } }
    void stall(int64_t ns) { while (ns > 0) { int64_t s = std::min<int64_t>(ns, 500 * MS); ns -= s; thr::stall(s); tmo_check(); } }
    void tmo_check() { if (in_run && timeout && tmo_cross < 0 && run_time() > timeout) tmo_cross = thr::now_ns(); }
    void enter() { Tick t = sched->getCurrentTick(); if (t != tick_now) { tick_now = t; tick_cpu0 = run_cpu; } }
    void on_work() {
        Tick t = sched->getCurrentTick(); enter(); ++fires; c.log("work at %lu", (unsigned long)t);
        CHECK(t == next_work, "sync-event-moved", "work scheduled for tick %lu fired at %lu", (unsigned long)next_work, (unsigned long)t);
        work_on = false;
        if (steps.empty()) return;
        Op o = steps.front(); steps.pop_front();
        if (o.k == "w.step") burn(std::min<int64_t>(o.arg(0) * 10 * MS, interval - 1200 * MS));
        else if (o.k == "w.stall") { c.fault("stalled process (wall time without progress)"); stall(o.arg(0) * 50 * MS); }
        else if (o.k == "w.jump") { int64_t j = o.arg(0) * 100 * MS; c.fault(j < 0 ? "real-time clock stepped back" : "real-time clock stepped forward"); if (j < 0) back -= j; thr::step_realtime(j); }
        else if (o.k == "w.kick") { sched->kickTheDog(); last_kick = t; }
        else if (o.k == "w.zero") { zero_left = (int)o.arg(0); zero_burn = std::min<int64_t>(o.arg(1) * 10 * MS, (interval - 1200 * MS) / (zero_left + 1)); zero->schedule(uint64_t(0)); }
        else if (o.k == "w.hang") hang(o.arg(0) * 20 * MS);
        Tick d = (Tick)std::max<int64_t>(1, o.arg(1, 1)); if (o.k == "w.zero") d = 1;
        work->schedule(d); next_work = t + d; work_on = true;
    }
    int zero_left = 0; int64_t zero_burn = 0;
    void on_zero() { enter(); burn(zero_burn); if (--zero_left > 0) zero->schedule(uint64_t(0)); }
    void hang(int64_t idle) { // a callback that never returns, on a machine which gives it only part of the processor time
        hung = true; c.fault("callback that never returns"); if (idle) c.fault("hang with little processor time"); int64_t t0 = thr::now_ns(), c0 = cpu;
        int64_t limit = 4 * interval + back + 6 * SEC + (timeout ? timeout : 0);
        bool must = protect || (timeout && !clean);
        while (cpu - c0 < limit || thr::now_ns() - t0 < limit) { burn(200 * MS); if (idle) stall(idle); usleep(1); }
        if (must) finish_run("hang-not-detected", "a callback ran for " + std::to_string(limit / SEC) + " s with loop protection or a hard timeout set and nothing was reported");
        c.probe("unprotected hang"); hung = false;
    }
    void on_exception(const std::string & what) { // the process ends here
        std::string w = what.substr(0, 120);
        if (w.find("nfinite loop") != std::string::npos) {
            c.probe("infinite loop reported");
            int64_t spent = run_cpu - tick_cpu0;
            if (!protect) finish_run("false-loop", "an infinite loop was reported with the protection switched off");
            if (!in_run) finish_run("false-loop", "an infinite loop was reported while the scheduler was not running");
            if (spent < interval - SEC) finish_run("false-loop", "an infinite loop was reported after only " + std::to_string(spent / MS) + " ms in the current tick (interval " + std::to_string(interval / SEC) + " s)");
        } else if (w.find("imeout") != std::string::npos) {
            c.probe("hard timeout reported");
            if (!timeout || clean) finish_run("false-timeout", "a hard timeout was reported and none was set");
            if (run_time() + 20 * MS < timeout) finish_run("false-timeout", "the timeout of " + std::to_string(timeout / MS) + " ms was reported after " + std::to_string(run_time() / MS) + " ms");
        } else finish_run("thread-exception", "the watchdog thread died: " + w);
        c.nontrivial = true; c.log("process ended by watchdog: %s", w.c_str());
        finish_run(nullptr, "");
    }
    void do_run(Tick n, bool exact) {
        Tick S = sched->getCurrentTick();
        if (!work_on && !steps.empty()) { work->schedule(uint64_t(0)); next_work = S; work_on = true; }
        bool had = work_on; Tick first = next_work;
        tick_now = ~0ull; tick_cpu0 = run_cpu; in_run = true; run_in_t = thr::now_ns(); bool threw = false; std::string msg;
        tmo_check();
        try { sched->run(n, exact); } catch (Violation &) { throw; } catch (std::exception & e) { threw = true; msg = e.what(); }
        run_wall += thr::now_ns() - run_in_t; in_run = false;
        if (stored) throw *stored;
        Tick C = sched->getCurrentTick(); c.sim_time += C - S; c.log("run(%lu,%d) %lu->%lu threw=%d", (unsigned long)n, exact, (unsigned long)S, (unsigned long)C, threw);
        if (threw) {
            bool exp = wdt && C >= last_kick && C - last_kick >= wdt;
            CHECK(exp, "false-watchdog", "run() failed at tick %lu (last kick %lu, watchdog period %lu): %s", (unsigned long)C, (unsigned long)last_kick, (unsigned long)wdt, msg.substr(0, 200).c_str());
            c.probe("tick watchdog expired"); c.nontrivial = true;
            sched->stopRunning(); sched->restartAt(C + 1); last_kick = C + 1; work_on = false; return;
        }
        if (wdt && fires) { // the last tick processed must not have been past the period
            CHECK(tick_now == ~0ull || tick_now < last_kick || tick_now - last_kick < wdt, "watchdog-missed", "tick %lu was run, %lu after the last kick, with a watchdog period of %lu", (unsigned long)tick_now, (unsigned long)(tick_now - last_kick), (unsigned long)wdt); }
        bool early = had && n != ~0ull && work_on && next_work < S + n && (exact || first < S + n);
        if (had && n == ~0ull && work_on) early = true;
        if (early || (exact && n != ~0ull && C < S + n)) {
            c.probe("run stopped by timeout"); c.nontrivial = true;
            CHECK(timeout && clean, "stopped-early", "run(%ld) from tick %lu stopped at tick %lu with work scheduled for %lu and no clean timeout set", (long)n, (unsigned long)S, (unsigned long)C, (unsigned long)next_work);
            CHECK(run_time() + 20 * MS >= timeout, "stopped-early", "a clean timeout of %ld ms stopped the run after %ld ms", (long)(timeout / MS), (long)(run_time() / MS));
        }
        if (timeout && tmo_cross >= 0 && clean) tmo_cross = thr::now_ns();
    }
    void main() {
        tree(1);
        work.reset(new sparta::Event<SchedulingPhase::Tick>(sets[0].get(), "work", CREATE_SPARTA_HANDLER_WITH_OBJ(W, &wo, fire)));
        zero.reset(new sparta::Event<SchedulingPhase::Tick>(sets[0].get(), "zero", CREATE_SPARTA_HANDLER_WITH_OBJ(Z, &zo, fire)));
        for (auto & o : plan.ops) if (o.k[0] == 'w' && o.k[1] == '.') steps.push_back(o);
        up();
        g_sw = this; thr::on_thread_exception = [](int, const std::string & s) { g_sw->on_exception(s); };
        thr::begin(c, plan);
        interval = std::max<int64_t>(2, plan.c("interval", 5)) * SEC; timeout = plan.c("timeout") * 10 * MS; clean = plan.c("clean"); wall = plan.c("wall"); protect = plan.c("protect", 1); wdt = (Tick)plan.c("wdt");
        auto * sl = sparta::SleeperThread::getInstance();
        sl->setInfLoopSleepInterval(std::chrono::seconds(interval / SEC));
        if (!protect) sl->disableInfiniteLoopProtection();
        if (timeout) sl->setTimeout(std::chrono::milliseconds(timeout / MS), clean, wall);
        std::unique_ptr<sparta::Scheduler> other;
        bool two = plan.c("two");
        if (two) { other.reset(new sparta::Scheduler("other")); sl->attachScheduler(other.get()); c.probe("second scheduler attached"); }
        sl->attachScheduler(sched.get());
        if (wdt) sched->enableWatchDog(wdt);
        sl->finalize();
        for (auto & o : plan.ops) {
            if (o.k == "m.run") do_run(o.arg(0) ? (Tick)o.arg(0) : ~0ull, o.arg(1));
            else if (o.k == "m.idle") { c.log("idle"); stall(o.arg(0) * 100 * MS); usleep(10); }
            else if (o.k == "m.think") { c.log("think"); burn(o.arg(0) * 100 * MS); }
            else if (o.k == "m.jump") { int64_t j = o.arg(0) * 100 * MS; c.fault(j < 0 ? "real-time clock stepped back" : "real-time clock stepped forward"); if (j < 0) back -= j; thr::step_realtime(j); }
            else if (o.k == "m.restart") { Tick t = (Tick)o.arg(0); c.log("restart %lu", (unsigned long)t); c.fault("time rewound or jumped"); sched->restartAt(t); work_on = false; last_kick = t; }
            else if (o.k == "m.kick") { sched->kickTheDog(); last_kick = sched->getCurrentTick(); }
            else if (o.k == "m.detach" && two) { if (!ran_once) continue; sl->detachScheduler(other.get()); two = false; c.probe("scheduler detached"); }
            else continue;
            if (o.k == "m.run") ran_once = true;
        }
        c.probe("work fired", fires); if (fires) c.nontrivial = true;
        down();
        // the process exits: static destructors run under the simulator, then late_exit() below
        exiting = true; exit_t = thr::now_ns(); c.log("exit");
        exit(0);
    }
    bool ran_once = false;
    void late() {
        int64_t took = thr::now_ns() - exit_t;
        if (took > 900 * MS) finish_run("slow-exit", "ending the process took " + std::to_string(took / MS) + " ms of waiting for the watchdog thread");
        thr::end(); c.log("exited");
        finish_run(nullptr, "");
    }
};
void late_exit() { if (g_sw && g_sw->exiting) g_sw->late(); }
__attribute__((constructor(101))) void reg_late() { atexit(late_exit); }
void runS(const Plan & p, Ctx & c) { auto * w = new SWorld(c, p); w->main(); }
void genS(Rng & r, Plan & p, bool th) {
    p.cfg["interval"] = r.p(70) ? r.range(3, 6) : r.range(2, 30); p.cfg["protect"] = r.p(75); p.cfg["timeout"] = r.p(50) ? 0 : r.p(50) ? r.range(10, 800) : r.range(100, 4000); p.cfg["clean"] = r.p(60); p.cfg["wall"] = r.p(50);
    p.cfg["wdt"] = r.p(65) ? 0 : r.range(2, 40); p.cfg["two"] = r.p(20);
    int n = (int)r.range(1, th ? 40 : 20); bool jump = r.p(35), hang = r.p(25), st = r.p(40), zer = r.p(30);
    for (int i = 0; i < n; ++i) { int x = (int)r.below(20);
        if (x < 2 && st) p.add("w.stall", {r.range(1, 400), r.range(1, 3)});
        else if (x < 4 && jump) p.add("w.jump", {r.range(-100, 100), r.range(1, 3)});
        else if (x < 6 && zer) p.add("w.zero", {r.range(1, 12), r.range(0, 40)});
        else if (x < 9 && p.cfg["wdt"]) p.add("w.kick", {0, r.range(1, 4)});
        else p.add("w.step", {r.p(60) ? r.range(0, 40) : r.p(70) ? r.range(0, 200) : r.range(0, 900), r.p(80) ? r.range(1, 3) : r.range(1, 12)}); }
    if (hang) p.add("w.hang", {r.p(50) ? 0 : r.range(1, 50)});
    for (int i = 0, k = (int)r.range(1, 7); i < k; ++i) { int x = (int)r.below(20);
        if (x < 11) p.add("m.run", {r.p(20) ? 0 : r.range(1, 12), r.range(0, 1)}); else if (x < 13) p.add("m.idle", {r.range(1, 300)}); else if (x < 15) p.add("m.think", {r.range(1, 100)});
        else if (x < 16 && jump) p.add("m.jump", {r.range(-100, 100)}); else if (x < 17 && p.cfg["wdt"]) p.add("m.restart", {r.range(0, 60)}); else if (x < 18) p.add("m.kick"); else p.add("m.detach"); }
    gen_preemptions(r, p, th ? 40 : 20, r.p(50) ? 40 : 400);
}

Register r6([] { Harness h; h.property = "C06"; h.technique = "deterministic simulation of caller threads: seeded interleavings at every memory access and lock of the scheduler, interval-matching oracle over the history";
    h.rule = "1-3 producer threads and the simulation thread schedule and cancel 1-3 asynchronous events around run/stop/clear/restart; non-trivial: an asynchronous event fired"; h.measure = "FNV hash of the run's complete event log including every thread switch";
    h.real = "sparta::Scheduler, AsyncEvent, Event, Clock (Scheduler.cpp compiled with memory accesses as scheduling points)"; h.stub = "thread scheduler, mutexes and condition variables (interposed, one thread at a time), clocks (virtual)";
    h.assumptions = {"sequentially consistent memory", "the simulation keeps having synchronous work while asynchronous events wait"}; h.quick_runs = 24000; h.thorough_runs = 1000000; h.gen = genA; h.run = runA; return h; }());
Register r7([] { Harness h; h.property = "C07"; h.technique = "deterministic simulation of the watchdog thread under a virtual clock: seeded interleavings, stalls, clock steps, hanging callbacks, process exit";
    h.rule = "a scheduler whose callbacks burn or stall virtual time, with loop protection, soft/hard timeouts and the tick watchdog configured at random; the run ends by process exit or by the watchdog; non-trivial: work ran or a watchdog acted"; h.measure = "FNV hash of the run's complete event log including every thread switch";
    h.real = "sparta::SleeperThread, sparta::Scheduler (run, timers, watchdog), boost cpu_timer, static destruction"; h.stub = "thread scheduler, mutexes, condition variables, clock_gettime/times/gettimeofday (virtual time)";
    h.assumptions = {"sequentially consistent memory", "the operating system eventually schedules the watchdog thread"}; h.quick_runs = 12000; h.thorough_runs = 400000; h.gen = genS; h.run = runS; return h; }());
} // namespace
