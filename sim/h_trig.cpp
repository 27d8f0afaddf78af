// C21: triggers of every kind on clocked counters, created, set, deactivated, re-set, copied and destroyed from inside and
// outside callbacks.  Oracle: per trigger its armed state and since when its condition has held; per timed trigger its tick.
#include "lane.hpp"
#include "alloc_fault.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/ContextCounter.hpp"
#include "sparta/statistics/WeightedContextCounter.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/trigger/Trigger.hpp"
#include "sparta/trigger/SingleTrigger.hpp"
#include "sparta/trigger/TriggerManager.hpp"
#include "sparta/trigger/StatisticDefTrigger.hpp"
#include "sparta/trigger/ContextCounterTrigger.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include <iostream>
#include <sstream>
#include <new>
namespace {
namespace tg = sparta::trigger;
const Tick NEVER = ~(Tick)0;
struct TrigWorld : PBase {
    using L = Lane<TrigWorld>; using PBase::PBase;
    struct Ctrs { std::unique_ptr<sparta::StatisticSet> ss; std::unique_ptr<sparta::Counter> c[2]; std::unique_ptr<sparta::WeightedContextCounter<sparta::Counter>> cc; std::unique_ptr<sparta::StatisticDef> d; uint64_t v[2] = {0, 0}; std::vector<uint64_t> cv; };
    std::vector<std::unique_ptr<L>> lanes; std::vector<Ctrs> ct; std::vector<Op> ops;
    enum K { COUNTER, STATDEF, CONTEXT, CYCLE, TIME };
    struct T; struct Cb { TrigWorld * w; int id; void fire() { w->fired(*this); } };
    struct T {
        int id = 0; K kind; int lane; Cb * cb; std::unique_ptr<tg::CounterTrigger> ct; std::unique_ptr<tg::StatisticDefTrigger> sd; std::unique_ptr<tg::CycleTrigger> cy; std::unique_ptr<tg::TimeTrigger> ti;
        int ctr = 0; uint64_t point = 0; double target = 0; int cmp = 0, fn = 0; uint64_t b0 = 0, b1 = 0;           // condition of a managed one
        bool prep_rel = false, prep_abs = false, align = false; uint64_t rel = 0, on = 0, ps = 0; // timed ones
        bool armed = false, wanted = false, hasfired = false, gone = false; Tick since = 0, cond = NEVER, due = NEVER, changed = NEVER, stale = 0; bool hasstale = false; int act = 0, tgt = 0, left = 2;
    };
    struct Obj : tg::Triggerable { TrigWorld * w = nullptr; int id = 0, n = 0; void go() override { w->obj(*this, 0); } void stop() override { w->obj(*this, 1); } void repeat() override { w->obj(*this, 2); } };
    struct Comp { std::unique_ptr<tg::Trigger> t; int lane = 0; std::deque<Obj> o; bool byctr = false; int ctr = 0; uint64_t point = 0; Tick start = NEVER, since = 0, cond = NEVER; bool hasstop = false, stoprel = false, rec = false, align = false; uint64_t stop = 0, per = 0; Tick stopt = NEVER, rept = NEVER, started = NEVER, stopped = NEVER; int ngo = 0, nstop = 0, nrep = 0; Tick last = NEVER, donego = NEVER, donestop = NEVER, donerep = NEVER; int forceat = 0; bool forced = false; };
    std::deque<T> ts; std::deque<Cb> cbs; std::deque<Comp> comps; bool fin = false, up = false; Tick lastop = NEVER; std::string out;
    struct Watch { TrigWorld * w; std::unique_ptr<sparta::UniqueEvent<SchedulingPhase::Update>> ev; void tick() { w->observe(); next(); } void next() { ev->getScheduleable().scheduleRelativeTick(1, w->sched.get()); } } watch;
    static bool cmpf(int c, double a, double b) { switch (c) { case 0: return a >= b; case 1: return a == b; case 2: return a > b; case 3: return a <= b; case 4: return a < b; default: return a != b; } }
    static const char * cmpn(int c) { static const char * n[] = {">=", "==", ">", "<=", "<", "!="}; return n[c % 6]; }
    Tick per(int l) { return (Tick)clks[(size_t)l]->getPeriod(); }
    double value(const T & t) { Ctrs & k = ct[(size_t)t.lane]; if (t.kind == COUNTER) return (double)k.v[t.ctr]; if (t.kind == STATDEF) return (double)(k.v[0] - t.b0 + 2 * (k.v[1] - t.b1)); double s = 0, m = 0; for (auto x : k.cv) { s += (double)x; m = std::max(m, (double)x); } return t.fn == 0 ? s : t.fn == 1 ? s / (double)k.cv.size() : m; }
    bool holds(const T & t) { return t.kind == COUNTER ? ct[(size_t)t.lane].v[t.ctr] >= t.point : cmpf(t.cmp, value(t), t.target); }
    const char * nm(const T & t) { static const char * n[] = {"counter", "statistic", "context counter", "cycle", "time"}; return n[t.kind]; }
    void touch() { for (auto & t : ts) if (t.kind < CYCLE) { if (holds(t)) { if (t.cond == NEVER) t.cond = now(); } else t.cond = NEVER; } for (auto & k : comps) if (k.byctr) { if (ct[(size_t)k.lane].v[k.ctr] >= k.point) { if (k.cond == NEVER) k.cond = now(); } } }
    void arm(T & t) { t.wanted = true; t.armed = fin; t.since = up ? now() : 0; t.cond = NEVER; t.changed = t.since; if (holds(t)) t.cond = t.since; }
    void armed_timed(T & t) { t.wanted = true; t.armed = true; t.changed = now(); if (!fin) { t.due = NEVER; return; } due(t); }
    void due(T & t) { Tick P = t.kind == CYCLE ? per(t.lane) : 1; uint64_t cy = now() / P; t.due = t.kind == TIME ? now() + t.ps : t.prep_rel ? now() + P * (t.align ? t.rel - cy % t.rel : t.rel) : now() + P * (t.on - cy); }
    void disarm(T & t) { if (t.kind >= CYCLE && t.armed && fin) { t.stale = t.due; t.hasstale = true; } t.wanted = t.armed = false; t.due = NEVER; t.changed = now(); }
    bool pend(T & t) { return t.kind >= CYCLE && t.hasstale && now() <= t.stale; }
    bool isact(T & t) { return t.kind == CYCLE ? t.cy->isActive() : t.kind == TIME ? t.ti->isActive() : t.ct->isActive(); }
    void fired(Cb & cb) {
        CHECK(sched->getCurrentSchedulingPhase() == SchedulingPhase::Trigger, "phase", "a trigger fired in phase %d", (int)sched->getCurrentSchedulingPhase()); CHECK(lastop != now(), "phase", "a trigger fired after the events of its tick");
        T * f = nullptr; for (auto & t : ts) if (!t.gone && t.cb == &cb && t.armed && (t.kind == STATDEF || !isact(t))) { if (t.kind < CYCLE ? holds(t) : t.due == now()) f = &t; }
        if (!f) { for (auto & t : ts) if (t.cb == &cb && !t.gone) { FAIL("spurious", "%s trigger %d fired at tick %lu, %s (armed %d, value %g, point %lu, target %s %g, due %ld)", nm(t), t.id, (ul)now(), !t.armed ? "not armed" : "its condition does not hold", t.armed, t.kind < CYCLE ? value(t) : 0., (ul)t.point, cmpn(t.cmp), t.target, (long)t.due); } FAIL("spurious", "a destroyed trigger fired at tick %lu", (ul)now()); }
        c.log("t%lu fire %d", (ul)now(), f->id); c.nontrivial = true; c.probe((std::string(nm(*f)) + " trigger fired").c_str()); f->armed = f->wanted = false; f->due = NEVER; f->changed = now(); f->hasfired = true;
        int a = f->act; if (f->left-- <= 0) return; T & g = ts[(size_t)f->tgt % ts.size()];
        switch (a) {
        case 1: if (f->kind != STATDEF) { reset(*f); c.probe("set again by its own callback"); } break;
        case 2: deact(g); c.probe("deactivated by a callback"); break;
        case 3: if (&g != f) { c.probe("destroyed by a callback"); destroy(g); } break;
        case 4: if (ts.size() < 14) { mkmanaged(f->lane, (uint64_t)f->tgt * 7 + now(), now() * 5, (uint64_t)f->tgt); c.probe("created by a callback"); } break;
        case 5: if (f->kind == COUNTER) { f->point += 1 + (uint64_t)f->tgt % 7; f->ct->resetAbsolute(f->point); arm(*f); c.probe("moved on by its own callback"); } break;
        case 6: if (g.kind != STATDEF) { deact(g); reset(g); c.probe("deactivated and set by a callback"); } break;
        case 7: if (ts.size() < 13) { mkmanaged(f->lane, (uint64_t)f->tgt, now(), (uint64_t)f->tgt); destroy(ts.back()); c.probe("created and destroyed by a callback"); } break;
        }
    }
    void deact(T & t) { if (t.gone || t.kind == STATDEF) return; bool was = t.armed; c.log("deactivate %d", t.id); if (t.kind == CYCLE) t.cy->deactivate(); else if (t.kind == TIME) t.ti->deactivate(); else t.ct->deactivate(); disarm(t); if (was) c.probe("armed trigger deactivated"); }
    void reset(T & t) { // set() again
        if (t.gone || t.kind == STATDEF || pend(t)) return;
        if (t.kind == CYCLE) { Tick P = per(t.lane); if (fin && now() % P) return; if (!(t.prep_rel || t.prep_abs)) return; if (!t.armed && t.prep_abs && fin && t.on <= now() / P) return; if (t.prep_rel && !t.rel) return; }
        bool was = t.armed || (!fin && t.wanted); if (was && t.kind < CYCLE && !fin) return; c.log("set %d", t.id); bool r = refused([&] { if (t.kind == CYCLE) t.cy->set(); else if (t.kind == TIME) t.ti->set(); else t.ct->set(); });
        CHECK(r == was, "set", "set() of %s %s trigger was %s", was ? "an armed" : "an idle", nm(t), r ? "refused" : "accepted"); if (r) return; if (t.kind < CYCLE) arm(t); else armed_timed(t); }
    void destroy(T & t) { if (t.gone) return; if (t.kind >= CYCLE && (t.armed || !fin || pend(t))) return; if (t.kind < CYCLE && !fin) return; c.log("destroy %d", t.id); if (t.armed) c.probe("armed trigger destroyed"); disarm(t); t.gone = true; t.ct.reset(); t.sd.reset(); t.cy.reset(); t.ti.reset(); }
    T & newT(K k, int lane, uint64_t z) { cbs.emplace_back(Cb{this, (int)cbs.size()}); ts.emplace_back(); T & t = ts.back(); t.id = (int)ts.size(); t.kind = k; t.lane = lane; t.cb = &cbs.back(); t.act = z % 3 ? (int)((z >> 3) % 8) : 0; t.tgt = (int)((z >> 6) % 97); t.left = (int)((z >> 2) % 5); return t; }
    sparta::SpartaHandler h(T & t) { Cb * cb = t.cb; return CREATE_SPARTA_HANDLER_WITH_OBJ(Cb, cb, fire); }
    void mkmanaged(int lane, uint64_t x, uint64_t y, uint64_t z) {
        if (ts.size() >= 14) return; int k = (int)(x % 5); Ctrs & q = ct[(size_t)lane]; std::string n = "t" + std::to_string(ts.size()); c.log("create managed %d lane %d", k, lane);
        if (k < 3) { T & t = newT(COUNTER, lane, z); t.ctr = (int)(y % 2); t.point = q.v[t.ctr] + (y >> 1) % 14; t.ct.reset(new tg::CounterTrigger(n, h(t), q.c[t.ctr].get(), t.point)); arm(t); }
        else if (k == 3) { T & t = newT(STATDEF, lane, z); t.cmp = (int)(y % 6); t.b0 = q.v[0]; t.b1 = q.v[1]; t.target = (double)((y >> 3) % 12); t.sd.reset(new tg::StatisticDefTrigger(n, h(t), q.d.get(), t.target)); if (t.cmp != 1 || y % 2) t.sd->setComparatorAsString(cmpn(t.cmp)); arm(t); }
        else { T & t = newT(CONTEXT, lane, z); t.fn = (int)(y % 3); t.cmp = y % 7 ? 0 : (int)((y >> 2) % 6); t.target = value(t) + (double)((y >> 5) % 8) - (y % 7 ? 0 : 2); if (t.fn == 2 && t.target < 0) t.target = 0; auto * p = new tg::ContextCounterTrigger(n, h(t), q.cc.get(), t.target, t.fn == 0 ? "agg" : t.fn == 1 ? "weightedAvg_" : "max_"); t.ct.reset(p); if (t.cmp) p->setComparatorAsString(cmpn(t.cmp)); arm(t); } }
    void mktimed(int lane, uint64_t x, uint64_t y, uint64_t z) {
        Tick P = per(lane); if (ts.size() >= 14 || (fin && now() % P)) return; std::string n = "t" + std::to_string(ts.size()); uint64_t cy = up ? now() / P : 0; c.log("create timed %lu lane %d", (ul)(x % 4), lane);
        if (x % 4 == 3) { T & t = newT(TIME, lane, z); t.ps = 1 + y % (8 * P); t.ti.reset(new tg::TimeTrigger(n, h(t), t.ps, clks[(size_t)lane].get())); armed_timed(t); return; }
        T & t = newT(CYCLE, lane, z); t.cy.reset(new tg::CycleTrigger(n, h(t), clks[(size_t)lane].get())); t.align = y % 5 == 0; if (t.align) t.cy->alignRelative(true); bool late = (y >> 4) % 3 == 0; sparta::Clock * k = clks[(size_t)lane].get();
        if (x % 4 == 0) { t.on = cy + 1 + (y >> 6) % 9; t.prep_abs = true; if (late) t.cy->prepAbsolute(k, t.on); else { t.cy->setAbsolute(k, t.on); armed_timed(t); } }
        else { t.rel = 1 + (y >> 6) % 9; t.prep_rel = true; if (late) t.cy->prepRelative(k, t.rel); else { t.cy->setRelative(k, t.rel); armed_timed(t); } } }
    void mkcomp(int lane, uint64_t x, uint64_t y, uint64_t z) {
        Tick P = per(lane); if (comps.size() >= 4 || (fin && now() % P)) return; comps.emplace_back(); Comp & k = comps.back(); k.lane = lane; int id = (int)comps.size() - 1; sparta::Clock * kp = clks[(size_t)lane].get(); uint64_t cy = up ? now() / P : 0; c.log("create composite");
        k.t.reset(new tg::Trigger("comp" + std::to_string(id), kp)); for (uint64_t i = 0; i <= x % 2; ++i) { k.o.emplace_back(); k.o.back().w = this; k.o.back().id = id; k.o.back().n = (int)i; k.t->addTriggeredObject(&k.o.back()); }
        uint64_t s = 1 + (x >> 2) % 9; k.since = up ? now() : 0;
        if (y % 3 == 0) { k.byctr = true; k.ctr = (int)((y >> 2) % 2); k.point = ct[(size_t)lane].v[k.ctr] + s; k.t->setTriggerStartAbsolute(ct[(size_t)lane].c[k.ctr].get(), k.point); touch(); } else { if (fin && y % 3 == 1) k.t->setTriggerStartRelative(kp, s); else k.t->setTriggerStartAbsolute(kp, cy + s); k.start = (cy + s) * P; }
        if ((y >> 3) % 3) { k.hasstop = true; k.stoprel = k.byctr || (y >> 5) % 2; k.stop = k.stoprel ? (k.byctr ? 1 : 0) + (y >> 6) % 12 : cy + s + (y >> 6) % 12; if (k.stoprel) k.t->setTriggerStopRelativeToStart(kp, k.stop); else k.t->setTriggerStopAbsolute(kp, k.stop); }
        if (z % 3) { k.rec = true; k.per = 1 + (z >> 2) % 5; if ((z >> 5) % 2) { k.align = (z >> 6) % 2; k.t->setPeriodAlignmentOptions(k.align); } k.t->setRecurring(kp, k.per); if ((z >> 7) % 3 == 0) k.forceat = 1 + (int)((z >> 9) % 4); }
        if (z % 11 == 0) { CHECK(refused([&] { k.t->setTriggerStartAbsolute(kp, 0); }), "composite-refuse", "a start at cycle 0 was accepted"); }
    }
    void obj(Obj & o, int what) {
        Comp & k = comps[(size_t)o.id]; Tick t = now(); Tick P = per(k.lane); static const char * n[] = {"go", "stop", "repeat"}; c.log("t%lu %s %d.%d", (ul)t, n[what], o.id, o.n);
        CHECK(lastop != t && sched->getCurrentSchedulingPhase() == SchedulingPhase::Trigger, "phase", "%s() was called outside the trigger phase", n[what]); bool first = o.n == 0, lastobj = o.n + 1 == (int)k.o.size(); uint64_t cy = t / P;
        if (what == 0) { bool ok = k.started == NEVER ? (k.byctr ? ct[(size_t)k.lane].v[k.ctr] >= k.point : k.start == t) : k.started == t && !first; CHECK(ok, "composite-start", "go() at tick %lu instead of %ld", (ul)t, (long)k.start);
            if (first) { k.started = t; c.probe("composite trigger started"); if (k.hasstop) k.stopt = k.stoprel ? t + k.stop * P : t + (k.stop - cy) * P; if (k.rec) k.rept = t + P * (k.align ? k.per - cy % k.per : k.per); if (k.forceat == 1) { force(k); } } if (lastobj) { k.donego = t; } }
        else if (what == 1) { CHECK(k.started != NEVER && k.stopt == t && (first ? k.stopped == NEVER : k.stopped == t), "composite-stop", "stop() at tick %lu instead of %ld", (ul)t, (long)k.stopt); if (first) c.probe("composite trigger stopped"); k.stopped = t; if (lastobj) k.donestop = t; }
        else { CHECK(k.started != NEVER && (first ? k.rept == t && (k.stopped == NEVER || (k.stopped == t && k.donestop != t)) : k.last == t) && !(first && k.forced), "composite-repeat", "repeat() at tick %lu instead of %ld%s", (ul)t, k.forced ? -1L : (long)k.rept, k.stopped != NEVER ? " (stopped)" : k.forced ? " (forced to stop)" : "");
            if (first) { c.probe("composite trigger repeated"); k.last = t; ++k.nrep; if (k.forceat == 1 + k.nrep) force(k); } if (lastobj) { k.donerep = t; k.rept = t + P * (k.align ? k.per - cy % k.per : k.per); } } }
    void force(Comp & k) { k.t->forceStopRecurring(); k.forced = true; c.probe("recurrence forced to stop"); }
    void observe() {
        Tick t = now(); for (auto & x : ts) { if (x.gone) continue; if (x.kind < CYCLE) { if (x.armed && x.cond != NEVER) { Tick dl = std::max(x.since, x.cond) + per(x.lane); CHECK(t < dl, "missed", "%s trigger %d did not fire up to tick %lu, its condition holds since tick %lu and it is armed since %lu (value %g, point %lu, target %s %g)", nm(x), x.id, (ul)t, (ul)x.cond, (ul)x.since, value(x), (ul)x.point, cmpn(x.cmp), x.target); } }
            else if (x.armed) CHECK(t < x.due, "missed", "%s trigger %d did not fire at tick %lu", nm(x), x.id, (ul)x.due); }
        for (auto & k : comps) { if (k.started == NEVER) { if (k.byctr) { if (k.cond != NEVER) CHECK(t < std::max(k.cond, k.since) + per(k.lane), "composite-start", "no go() up to tick %lu, the counter is there since %lu", (ul)t, (ul)k.cond); } else CHECK(t < k.start, "composite-start", "no go() at tick %lu", (ul)k.start); continue; }
            CHECK(k.started != t || k.donego == t, "composite-start", "not every object was started"); if (k.stopt <= t) CHECK(k.stopped == k.stopt && k.donestop == k.stopt, "composite-stop", "no stop() at tick %lu", (ul)k.stopt); if (k.stopped == NEVER && k.rec && !k.forced) CHECK(t < k.rept, "composite-repeat", "no repeat() at tick %lu", (ul)k.rept); CHECK(k.last != t || k.donerep == t, "composite-repeat", "not every object was repeated"); }
        look("tick"); }
    void look(const char * w) { for (auto & x : ts) { if (x.gone || x.kind == STATDEF) continue; bool a = isact(x), m = fin || x.kind >= CYCLE ? x.armed : a; CHECK(a == m, "active", "%s: %s trigger %d is %s", w, nm(x), x.id, a ? "active, it was not set" : "not active"); if (x.kind < CYCLE && fin) CHECK(tg::TriggerManager::getTriggerManager().hasTrigger(x.ct.get()) == x.armed, "managed", "%s: the manager %s trigger %d", w, x.armed ? "lost" : "still has", x.id); bool hf = x.kind == CYCLE ? x.cy->hasFired() : x.kind == TIME ? x.ti->hasFired() : x.ct->hasFired(); CHECK(hf == x.hasfired, "fired", "%s: %s trigger %d says it has%s fired", w, nm(x), x.id, hf ? "" : " not"); } }
    void doop(const Op & o, int ln) {
        uint64_t k = (uint64_t)o.arg(2), x = (uint64_t)o.arg(3), y = (uint64_t)o.arg(4), z = (uint64_t)o.arg(5); c.log("t%lu lane%d op %lu", (ul)now(), ln, (ul)k); Ctrs & q = ct[(size_t)ln]; T * t = ts.empty() ? nullptr : &ts[x % ts.size()];
        switch (k) {
        case 0: case 1: *q.c[x % 2] += y % 6; q.v[x % 2] += y % 6; touch(); break;
        case 2: { size_t i = x % q.cv.size(); q.cc->context((uint32_t)i) += y % 4; q.cv[i] += y % 4; touch(); break; }
        case 3: mkmanaged((int)(z % lanes.size()), x, y, z >> 1); break;
        case 4: mktimed(ln, x, y, z); break;
        case 5: mkcomp(ln, x, y, z); break;
        case 6: if (t) switch (y % 6) { case 0: deact(*t); break; case 1: reset(*t); break; case 2: destroy(*t); break; case 3: deact(*t); reset(*t); break; case 4: deact(*t); destroy(*t); break; case 5: if (!t->gone && t->kind == COUNTER) { c.log("reset point %d", t->id); t->point = ct[(size_t)t->lane].v[t->ctr] + z % 9; t->ct->resetAbsolute(t->point); arm(*t); } break; } break;
        case 7: if (t && !t->gone && t->kind == COUNTER && ts.size() < 14) { // copies and assignments
            if (y % 2) { c.log("copy %d", t->id); T & n = newT(COUNTER, t->lane, z); n.cb = t->cb; n.ctr = t->ctr; n.point = t->point; T & s = ts[x % (ts.size() - 1)]; n.ct.reset(new tg::CounterTrigger(*s.ct)); if (s.armed || (!fin && s.wanted)) { arm(n); } c.probe("trigger copied"); }
            else { T & n = ts[z % ts.size()]; if (&n == t || n.gone || n.kind != COUNTER || (!fin)) return; c.log("assign %d to %d", t->id, n.id); *n.ct = *t->ct; n.lane = t->lane; n.ctr = t->ctr; n.point = t->point; n.cb = t->cb; n.hasfired = t->hasfired; disarm(n); if (t->armed) arm(n); CHECK(n.ct->getTriggerPoint() == n.point && n.ct->getCounter() == ct[(size_t)n.lane].c[n.ctr].get(), "assign", "an assigned trigger has another counter or point"); c.probe("trigger assigned"); } } break;
        case 8: if (t && !t->gone && t->kind == CYCLE && !pend(*t) && (!fin || now() % per(t->lane) == 0)) { Tick P = per(t->lane); sparta::Clock * kp = clks[(size_t)t->lane].get(); uint64_t r = 1 + y % 9; uint64_t cy = up ? now() / P : 0; bool was = t->armed; if (t->prep_rel || t->prep_abs) { bool rel = t->prep_rel; bool f = refused([&] { if (rel) t->cy->setRelative(kp, r); else t->cy->setAbsolute(kp, cy + r); }); if (was) CHECK(f, "set", "setting an armed trigger anew was accepted"); if (!f) { if (rel) t->rel = r; else t->on = cy + r; armed_timed(*t); } } } break;
        }
    }
    void on_op(L & l, uint32_t i) { lastop = now(); doop(ops[i], l.id); look("op"); }
    // the previous simulation of this process used a clock at the same address
    void prior(uint64_t x) {
        alignas(sparta::Clock) static unsigned char room[sizeof(sparta::Clock)]; int fired = 0; struct F { int * n; void f() { ++*n; } } cbk{&fired}; F * p = &cbk;
        for (int i = 0; i < 2; ++i) { sparta::Scheduler * s = new sparta::Scheduler(); sparta::Clock * k = new (room) sparta::Clock("clk", s); { sparta::RootTreeNode root("root", "r"); root.setClock(k); { sparta::StatisticSet ss(&root); sparta::Counter n(&ss, "n", "n", sparta::CounterBase::COUNT_NORMAL); std::unique_ptr<tg::CounterTrigger> pre, t; if (x & 1) pre.reset(new tg::CounterTrigger("pre", CREATE_SPARTA_HANDLER_WITH_OBJ(F, p, f), &n, 1000)); root.enterConfiguring(); root.enterFinalized(); s->finalize(); s->run(2, true, false); t.reset(new tg::CounterTrigger("x", CREATE_SPARTA_HANDLER_WITH_OBJ(F, p, f), &n, 1)); n += 1; if (i == 0 && x & 2) { if (x & 4) s->run(1, true, false); t.reset(); if (x & 8) s->run(1 + x % 3, true, false); fired = 1; } else { s->run(4, true, false); CHECK(fired == i + 1, "prior", "the trigger of simulation %d of this process fired %d times", i + 1, fired - i); } t.reset(); if (x & 16) s->run(3, true, false); }
            root.enterTeardown(); } k->~Clock(); delete s; } c.probe("two simulations, one clock address"); }
    void go() {
        struct Quiet { std::streambuf * b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } } quiet;
        int nl = (int)std::max<int64_t>(1, std::min<int64_t>(2, plan.c("lanes", 1)));
        if (plan.c("prior")) { bool boom = false; std::string m; try { prior((uint64_t)plan.c("prior")); } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; m = e.what(); } CHECK(!boom, "exception", "unexpected exception: %.300s", m.c_str()); }
        lanes_build(*this, nl); bool boom = false; std::string msg; std::vector<Op> bt;
        watch.w = this; Watch * wp = &watch; watch.ev.reset(new sparta::UniqueEvent<SchedulingPhase::Update>(lanes[0]->es.get(), "watch", CREATE_SPARTA_HANDLER_WITH_OBJ(Watch, wp, tick))); watch.ev->setContinuing(false);
        try {
            for (int i = 0; i < nl; ++i) { ct.emplace_back(); Ctrs & k = ct.back(); k.ss.reset(new sparta::StatisticSet(lanes[(size_t)i]->node.get())); for (int j = 0; j < 2; ++j) k.c[j].reset(new sparta::Counter(k.ss.get(), std::string("c") + (j ? "b" : "a"), "c", sparta::CounterBase::COUNT_NORMAL)); size_t n = 1 + (size_t)plan.c("ctx", 2) % 3; k.cv.assign(n, 0); k.cc.reset(new sparta::WeightedContextCounter<sparta::Counter>(k.ss.get(), "cc", "cc", n, sparta::CounterBase::COUNT_NORMAL, sparta::InstrumentationNode::VIS_NORMAL)); k.d.reset(new sparta::StatisticDef(k.ss.get(), "d", "d", k.ss.get(), "ca+2*cb")); }
            rtn->enterConfiguring(); rtn->enterFinalized();
            for (auto & o : plan.ops) if (o.k == "pre") { doop(o, (int)((uint64_t)o.arg(0) % lanes.size())); look("before finalisation"); }
            sched->finalize(); 
            for (auto & o : plan.ops) { if (o.k == "b") bt.push_back(o); if (o.k == "o") { ops.push_back(o); lanes[(size_t)o.arg(0) % lanes.size()]->at((uint64_t)(o.arg(1) / 5), (int)(o.arg(1) % 5), (uint32_t)ops.size() - 1); } }
            fin = up = true; for (auto & t : ts) if (t.wanted) { if (t.kind < CYCLE) arm(t); else armed_timed(t); } for (auto & k : comps) k.since = 0; watch.next();
            uint64_t mx = 0; for (auto & o : ops) mx = std::max<uint64_t>(mx, (uint64_t)(o.arg(1) / 5)); Tick P = 1; for (auto & k : clks) P = std::max(P, (Tick)k->getPeriod()); size_t nb = 0; Tick last = (Tick)(mx + 16) * P;
            for (Tick t = 0; t < last;) { Tick n = 1 + (Tick)mix64((uint64_t)plan.c("seg", 1) + t) % (Tick)std::max<int64_t>(1, plan.c("segmax", 9)); sched->run(n, true, false); t += n; if (stored) throw *stored; for (int q = 0; q < 3 && nb < bt.size() && (Tick)bt[nb].arg(1) <= t; ++q) { Op b = bt[nb++]; doop(b, (int)((uint64_t)b.arg(0) % lanes.size())); look("between runs"); } }
            c.sim_time += now();
            for (auto & t : ts) { t.ct.reset(); t.sd.reset(); t.cy.reset(); t.ti.reset(); t.gone = true; } comps.clear(); rtn->enterTeardown(); ct.clear();
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (stored) throw *stored;
        CHECK(!boom, "exception", "unexpected exception: %.400s", msg.c_str());
    }
};
void gen(Rng & r, Plan & p, bool th) {
    int nl = (int)r.range(1, 2); p.cfg["lanes"] = nl; for (int i = 1; i < nl; ++i) { p.cfg["p" + std::to_string(i)] = r.range(1, 4); p.cfg["q" + std::to_string(i)] = r.range(1, 4); } p.cfg["seg"] = r.range(0, 1000); p.cfg["segmax"] = r.p(50) ? r.range(1, 6) : r.range(5, 60); p.cfg["ctx"] = r.range(0, 2); if (r.p(8)) p.cfg["prior"] = r.range(1, 31);
    int cyc = (int)r.range(3, th ? 60 : 25); std::vector<int> w; for (int i = 0; i < 9; ++i) w.push_back(r.p(25) ? 0 : (int)r.range(1, 5)); w[0] += 3; w[3] += 2;
    auto one = [&](const char * k, int64_t at) { int64_t q = (int64_t)r.w(w); p.add(k, {r.range(0, 1), at, q, r.range(0, 4095), r.range(0, 4095), r.range(0, 4095)}); };
    for (int i = 0, n = r.p(50) ? 0 : (int)r.range(1, 6); i < n; ++i) one("pre", 0);
    for (int i = 0, n = (int)r.range(4, th ? 80 : 40); i < n; ++i) one("o", r.range(0, cyc * 5));
    int64_t at = 0; for (int i = 0, n = (int)r.range(0, 8); i < n; ++i) { at += r.range(0, cyc / 3 + 1); one("b", at); }
}
void run(const Plan & p, Ctx & c) { af::Lay lay(7 + (uint64_t)p.c("seg")); runWorld<TrigWorld>(p, c); }
Register R([] {
    Harness h; h.property = "C21"; h.technique = "deterministic simulation: seeded histories of counting and of arming, disarming, copying and destroying triggers from devices and from trigger callbacks, against a model of every trigger's obligation";
    h.rule = "plan = 1-2 clocks, counter, statistic, context counter, cycle, time and composite triggers created before and during the run, device and callback operations, runs split anywhere; freed memory is overwritten; non-trivial: a trigger fired";
    h.real = "triggers, trigger manager, counters, context counters, statistic definitions, scheduler, clocks, tree"; h.stub = "devices and callbacks"; h.measure = "hash of the event log";
    h.quick_runs = 20000; h.thorough_runs = 3000000; h.gen = gen; h.run = run; return h; }());
} // namespace
