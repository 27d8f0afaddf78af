// C22: trigger expressions - combinations of counters, statistics, context counters, notifications and references, recurring
// updates and toggles - against a model that latches every operand once its condition held at a check.
#include "lane.hpp"
#include "alloc_fault.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/WeightedContextCounter.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/log/NotificationSource.hpp"
#include "sparta/trigger/ExpressionTrigger.hpp"
#include "sparta/trigger/ExpiringExpressionTrigger.hpp"
#include "sparta/report/SubContainer.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include <iostream>
#include <sstream>
#include <functional>
namespace {
namespace tg = sparta::trigger;
const Tick NEVER = ~(Tick)0;
struct Params : sparta::ParameterSet { Params(sparta::TreeNode * n) : sparta::ParameterSet(n) {} PARAMETER(uint64_t, three, 3, "p") PARAMETER(uint64_t, seven, 7, "p") };
struct ExprWorld : PBase {
    using L = Lane<ExprWorld>; using PBase::PBase;
    struct Dev { std::unique_ptr<Params> ps; std::unique_ptr<sparta::StatisticSet> ss; std::unique_ptr<sparta::Counter> c[2]; std::unique_ptr<sparta::WeightedContextCounter<sparta::Counter>> cc; std::unique_ptr<sparta::StatisticDef> d; uint64_t v[2] = {0, 0}; std::vector<uint64_t> cv; std::unique_ptr<sparta::NotificationSource<uint64_t>> ch[3]; };
    std::vector<std::unique_ptr<L>> lanes; std::vector<Dev> dv; std::vector<Op> ops; std::shared_ptr<sparta::SubContainer> box{new sparta::SubContainer};
    enum AK { CTR, STAT, CTX, NOTE, REF, TIMED };
    struct Atom { AK k; int lane = 0, ctr = 0, fn = 0, cmp = 0; double target = 0; uint64_t b0 = 0, b1 = 0; Tick reg = 0, due = NEVER; bool armed = true, latched = false; int ref = -1; };
    struct Node { int op = 0; int atom = -1; std::vector<Node> kids; }; // 0 leaf 1 and 2 or
    struct Expr; struct Cb { ExprWorld * w; int id; void fire() { w->fired(id, nullptr); } };
    struct Expr { int id = 0; std::string text, post; std::deque<Atom> at; Node f; std::unique_ptr<tg::ExpiringExpressionTrigger> ex; std::unique_ptr<Cb> cb; int lane = 0; int kind = 0; /* 0 combination 1 cycles 2 time 3 counter 4 context 5 repeating notification */ uint64_t delta = 0, point = 0; int again = 0; bool legacy = false, dead = false, susp = false; int n = 0, want = 0; bool hasfired = false; int deps = 0; Tick last = NEVER; };
    struct Tog { std::unique_ptr<tg::ExpressionToggleTrigger> t; std::vector<Atom> at[2]; int op[2] = {1, 1}; bool on = false; int n[2] = {0, 0}, want[2] = {0, 0}; ExprWorld * w = nullptr; void up() { ++n[0]; w->c.log("toggle on"); } void down() { ++n[1]; w->c.log("toggle off"); } };
    std::deque<Expr> xs; std::deque<Tog> tog; bool fin = false, up = false; Tick done = NEVER; bool inpost = false; uint64_t posts = 0, wantposts = 0; std::shared_ptr<sparta::NotificationSource<std::string>> psrc; std::vector<std::string> got; 
    struct Watch { ExprWorld * w; std::unique_ptr<sparta::UniqueEvent<SchedulingPhase::Update>> ev; void tick() { w->observe(); next(); } void next() { ev->getScheduleable().scheduleRelativeTick(1, w->sched.get()); } } watch;
    void onpost(const std::string & s) { got.push_back(s); }
    Tick per(int l) { return (Tick)clks[(size_t)l]->getPeriod(); }
    static bool cmpf(int c, double a, double b) { switch (c) { case 0: return a >= b; case 1: return a == b; case 2: return a > b; case 3: return a <= b; case 4: return a < b; default: return a != b; } }
    static const char * cmpn(int c) { static const char * n[] = {">=", "==", ">", "<=", "<", "!="}; return n[c % 6]; }
    static int neg(int c) { static const int n[] = {4, 5, 3, 2, 0, 1}; return n[c]; }
    double value(const Atom & t) { Dev & k = dv[(size_t)t.lane]; if (t.k == CTR) return (double)k.v[t.ctr]; if (t.k == STAT) return (double)(k.v[0] - t.b0 + 2 * (k.v[1] - t.b1)); double s = 0, m = 0; for (auto x : k.cv) { s += (double)x; m = std::max(m, (double)x); } return t.fn == 0 ? s : t.fn == 1 ? s / (double)k.cv.size() : m; }
    bool eval(const Expr & e, const Node & n) { if (n.op == 0) return e.at[(size_t)n.atom].latched; for (auto & k : n.kids) if (eval(e, k) != (n.op == 1)) return n.op == 2; return n.op == 1; }
    // what becomes true now
    void settle() { for (bool more = true; more;) { more = false; for (auto & e : xs) { if (e.dead || e.hasfired) continue; for (auto & a : e.at) if (a.k == REF && !a.latched && a.ref >= 0 && xs[(size_t)a.ref].want > 0 && xs[(size_t)a.ref].last >= a.reg && xs[(size_t)a.ref].last != NEVER) { a.latched = true; more = true; } if (eval(e, e.f)) { e.hasfired = true; ++e.want; e.last = now(); more = true; c.probe(e.kind == 0 ? e.at.size() > 1 ? "combination came true" : "single condition came true" : e.kind == 5 ? "repeating notification" : "recurring update"); if (!e.post.empty()) ++wantposts; } } } }
    void checks() { // the trigger phase of this tick
        if (done == now()) return; done = now(); Tick t = now();
        for (auto & e : xs) if (!e.dead) for (auto & a : e.at) { if (a.latched || !a.armed) continue; if (a.k == TIMED) { if (a.due == t) { a.latched = true; a.armed = false; } continue; } if (a.k > CTX) continue; Tick P = per(a.lane); if (t % P || t <= a.reg) continue; if (cmpf(a.cmp, value(a), a.target)) { a.latched = true; a.armed = false; } }
        settle(); }
    void fired(int id, const tg::CounterTrigger * ct) {
        if (!inpost) { CHECK(sched->getCurrentSchedulingPhase() == SchedulingPhase::Trigger, "phase", "an expression fired in phase %d", (int)sched->getCurrentSchedulingPhase()); checks(); }
        Expr & e = xs[(size_t)id]; ++e.n; c.log("t%lu fire %d", (ul)now(), id); c.nontrivial = true;
        CHECK(e.n <= e.want, "spurious", "expression %d '%s' fired at tick %lu%s: %s", id, e.text.c_str(), (ul)now(), e.dead ? " after it was disabled" : "", state(e).c_str());
        if (e.legacy) { CHECK(ct && ct->getTriggerPoint() == e.point && ct->getCounter() == dv[(size_t)e.lane].c[e.at[0].ctr].get(), "callback", "the callback of a counter expression was given another counter or point"); }
        if (e.kind && e.again > 0) { --e.again;
            if (e.legacy) { uint64_t v = dv[(size_t)e.lane].v[e.at[0].ctr]; do e.point += e.delta; while (e.point <= v); const_cast<tg::CounterTrigger *>(ct)->resetAbsolute(e.point); e.at[0].target = (double)e.point; rearm(e); }
            else if (e.kind == 5) { (*e.ex)->stayActive(); (*e.ex)->awaken(); for (auto & a : e.at) a.latched = false; e.hasfired = false; e.n = e.want = 0; ++resets; }
            else { (*e.ex)->reschedule(); rearm(e); } } }
    int resets = 0;
    void rearm(Expr & e) { Atom & a = e.at[0]; a.latched = false; a.armed = true; a.reg = now(); if (a.k == TIMED) a.due = now() + (e.kind == 1 ? per(e.lane) : 1) * e.delta; e.hasfired = false; c.probe("rescheduled by its callback"); }
    std::string state(Expr & e) { std::string s; for (auto & a : e.at) { char b[120]; snprintf(b, sizeof b, "[%d%s value %g %s %g%s]", (int)a.k, a.latched ? " latched" : "", a.k <= CTX ? value(a) : 0., cmpn(a.cmp), a.target, a.armed ? "" : " off"); s += b; } return s; }
    void look(const char * w) { for (auto & e : xs) { CHECK(e.n == e.want, e.n < e.want ? "missed" : "spurious", "%s: expression %d '%s' fired %d times instead of %d at tick %lu: %s", w, e.id, e.text.c_str(), e.n, e.want, (ul)now(), state(e).c_str()); if (!e.dead) CHECK((*e.ex)->hasFired() == e.hasfired, "has-fired", "%s: expression %d '%s' says it has%s fired", w, e.id, e.text.c_str(), e.hasfired ? " not" : ""); }
        for (auto & t : tog) for (int i = 0; i < 2; ++i) CHECK(t.n[i] == t.want[i], "toggle", "%s: toggle '%s' was turned %s %d times instead of %d", w, t.t->toString().c_str(), i ? "off" : "on", t.n[i], t.want[i]);
        CHECK(got.size() == wantposts, "posts", "%s: %zu expressions announced that they fired instead of %lu", w, got.size(), (ul)wantposts); }
    void observe() { checks(); look("tick"); }
    Tick regnow() { return up ? now() : 0; }
    static std::string sp(uint64_t & s) { s = mix64(s); return s % 5 == 0 ? "" : s % 7 == 0 ? "  " : " "; }
    std::string num(uint64_t v, uint64_t & s) { s = mix64(s); if (v == 3 && s % 2) return "params.three"; if (v == 7 && s % 2) return "params.seven"; return std::to_string(v); }
    std::string atom(Expr & e, uint64_t & s, std::set<std::string> & used, bool notes) {
        for (int tries = 0; tries < 30; ++tries) { s = mix64(s); Atom a; a.reg = regnow(); a.lane = e.lane; Dev & q = dv[(size_t)e.lane]; uint64_t r = s; s = mix64(s); std::string t; uint64_t k = notes ? 6 : r % 8, x = s;
            if (k < 3) { a.k = CTR; a.ctr = (int)(x % 2); a.target = (double)(q.v[a.ctr] + (x >> 2) % 9); t = std::string(a.ctr ? "stats.cb" : "stats.ca") + sp(s) + ">=" + sp(s) + num((uint64_t)a.target, s); }
            else if (k == 3) { a.k = STAT; a.cmp = (int)(x % 6); a.b0 = q.v[0]; a.b1 = q.v[1]; a.target = (double)((x >> 3) % 12); t = std::string("stat_def.stats.d") + sp(s) + cmpn(a.cmp) + sp(s) + num((uint64_t)a.target, s); }
            else if (k == 4) { a.k = CTX; a.fn = (int)(x % 3); a.cmp = x % 4 ? 0 : (int)((x >> 4) % 6); a.target = (double)((uint64_t)value(a) + (x >> 8) % 7); t = std::string("stat_def.stats.cc.") + (a.fn == 0 ? "agg" : a.fn == 1 ? "weightedAvg_" : "max_") + sp(s) + cmpn(a.cmp) + sp(s) + num((uint64_t)a.target, s); }
            else if (k < 7) { a.k = NOTE; a.ctr = (int)(x % 3); a.cmp = (int)((x >> 2) % 6); a.target = (double)(1 + (x >> 5) % 9); t = std::string("notif.dst") + (char)('a' + a.ctr) + sp(s) + cmpn(a.cmp) + sp(s) + num((uint64_t)a.target, s); std::string u = std::string("ch") + (char)('a' + a.ctr); if (notes && !used.insert(u).second) continue; }
            else { if (xs.size() < 2) continue; size_t j = x % (xs.size() - 1); Expr & o = xs[j]; if (o.kind || o.dead || o.want) continue; a.k = REF; a.ref = (int)j; t = "E" + std::to_string(j) + ".start"; }
            std::string key = t; key.erase(std::remove(key.begin(), key.end(), ' '), key.end()); if (!used.insert(key).second) continue; if (a.k == REF) ++xs[(size_t)a.ref].deps; e.at.push_back(a); return t; }
        return ""; }
    std::string grow(Expr & e, Node & n, int op, int depth, uint64_t & s, std::set<std::string> & used, bool notes) {
        n.op = op; std::string r; s = mix64(s); size_t k = 2 + s % 2; bool sub = false;
        for (size_t i = 0; i < k; ++i) { s = mix64(s); Node ch; std::string t; if (depth > 0 && e.at.size() < 6 && s % 2 && (i + 1 < k || !sub)) { t = grow(e, ch, 3 - op, depth - 1, s, used, notes); if (t.empty()) continue; if (ch.op) t = "(" + t + ")"; sub = true; } else { t = atom(e, s, used, notes); if (t.empty()) continue; ch.atom = (int)e.at.size() - 1; } if (!n.kids.empty()) r += sp(s) + (op == 1 ? "&&" : "||") + sp(s); r += t; n.kids.push_back(ch); }
        if (n.kids.size() == 1) { Node ch = n.kids[0]; n = ch; if (n.op && r.size() > 1 && r[0] == '(') r = r.substr(1, r.size() - 2); }
        return r; }
    void make(int lane, uint64_t x, uint64_t y, uint64_t z) {
        if (xs.size() >= 9) return; uint64_t s = mix64(x * 4099 + y * 31 + z); xs.emplace_back(); Expr & e = xs.back(); e.id = (int)xs.size() - 1; e.lane = lane; e.cb.reset(new Cb{this, e.id}); e.ex.reset(new tg::ExpiringExpressionTrigger()); Cb * cb = e.cb.get(); sparta::SpartaHandler h = CREATE_SPARTA_HANDLER_WITH_OBJ(Cb, cb, fire); std::string nm = "x" + std::to_string(e.id); sparta::TreeNode * n = lanes[(size_t)lane]->node.get(); Dev & q = dv[(size_t)lane]; Tick P = per(lane);
        int kind = z % 3 ? 0 : 1 + (int)((z >> 2) % 5); e.again = (int)((z >> 5) % 6); e.kind = kind; tg::ExpressionTrigger * p = nullptr; Atom a; a.lane = lane; a.reg = regnow();
        if (kind == 0 || kind == 5) { std::set<std::string> used; int depth = (int)(y % 4); if (depth == 3) depth = 2; bool notes = kind == 5; if (y % 7 == 0 || (notes && y % 2)) { e.text = atom(e, s, used, notes); e.f.atom = 0; } else { e.text = grow(e, e.f, 1 + (int)((y >> 3) % 2), notes ? 0 : depth, s, used, notes); if (e.text.find("&&") != std::string::npos && e.text.find("||") != std::string::npos && s % 5 == 0) e.text = "(" + e.text + ")"; }
            std::string t = e.text; if (kind == 0 && (z >> 9) % 4 == 0) { e.post = "f" + std::to_string(e.id); t += " -> post." + e.post; }
            p = new tg::ExpressionTrigger(nm, h, t, n, box); if (kind == 0) p->setReferenceEvent("E" + std::to_string(e.id), "start"); if (kind == 5) p->stayActive();
            if (kind == 0 && e.at.size() == 1 && e.at[0].k == CTR && (z >> 11) % 2) { e.legacy = true; e.point = (uint64_t)e.at[0].target; int id = e.id; CHECK(p->switchToSingleCounterTriggerCallbackIfAble([this, id](const tg::CounterTrigger * ct) { fired(id, ct); }), "callback", "a counter expression refused the counter callback"); }
            else if ((z >> 11) % 4 == 1) { int id = e.id; p->switchToStringPayloadCallback([this, id](const std::string & m) { CHECK(m == "pay" + std::to_string(id), "callback", "another payload"); fired(id, nullptr); }, "pay" + std::to_string(id)); }
            p->setTriggeredNotificationSource(psrc); }
        else if (kind == 1) { e.delta = 1 + y % 7; a.k = TIMED; a.due = (up ? now() : 0) + e.delta * P; e.text = (y >> 4) % 2 ? std::to_string(e.delta) : clks[(size_t)lane]->getName() + " " + std::to_string(e.delta); if (clks[(size_t)lane]->getParent() && clks[(size_t)lane]->getParent()->getName() != "") {} e.text = std::to_string(e.delta); p = new tg::ExpressionCycleTrigger(nm, h, e.text, n); }
        else if (kind == 2) { e.delta = 1 + y % (5 * P); a.k = TIMED; a.due = (up ? now() : 0) + e.delta; e.text = std::to_string(e.delta) + " ps"; p = new tg::ExpressionTimeTrigger(nm, h, e.text, n); }
        else if (kind == 3) { e.delta = 1 + y % 9; a.k = CTR; a.ctr = (int)((y >> 4) % 2); bool al = (y >> 5) % 2, off = (y >> 6) % 2; uint64_t v = off ? q.v[a.ctr] : 0; e.point = al ? (v / e.delta + 1) * e.delta : v + e.delta; a.target = (double)e.point; e.text = std::string(a.ctr ? "stats.cb " : "stats.ca ") + num(e.delta, s) + (al ? (s % 2 ? " align" : "") : " noalign"); auto * q2 = new tg::ExpressionCounterTrigger(nm, h, e.text, off, n); p = q2; CHECK(q2->getOriginalTargetValue() == e.delta, "delta", "a counter update says its delta is %lu", (ul)q2->getOriginalTargetValue()); if ((z >> 8) % 2) { e.legacy = true; int id = e.id; CHECK(p->switchToSingleCounterTriggerCallbackIfAble([this, id](const tg::CounterTrigger * ct) { fired(id, ct); }), "callback", "a counter expression refused the counter callback"); } }
        else { e.delta = 1 + y % 9; a.k = CTX; bool al = (y >> 5) % 2; a.fn = (y >> 6) % 2 ? 2 : 0; uint64_t v = 0; for (auto w : q.cv) v += w; e.point = al ? (v / e.delta + 1) * e.delta : v + e.delta; a.target = (double)e.point; e.text = std::string("stat_def.stats.cc") + (a.fn ? ".max_ " : s % 2 ? ".agg " : " ") + std::to_string(e.delta) + (al ? "" : " noalign"); p = new tg::ExpressionCounterTrigger(nm, h, e.text, true, n); }
        if (kind && kind < 5) { e.at.push_back(a); e.f.atom = 0; }
        e.ex->reset(p); c.log("make %d %s", e.id, e.text.c_str()); CHECK(!(*e.ex)->hasFired(), "has-fired", "a new expression has fired"); }
    void mktog(int lane, uint64_t x, uint64_t y) {
        if (tog.size() >= 2) return; tog.emplace_back(); Tog & t = tog.back(); t.w = this; uint64_t s = mix64(x * 77 + y); size_t k = 1 + s % 3; t.op[0] = 1 + (int)(y % 2); t.op[1] = 3 - t.op[0]; std::string e; int c0 = (int)((y >> 1) % 3);
        for (size_t i = 0; i < k; ++i) { s = mix64(s); Atom a; a.k = NOTE; a.ctr = (c0 + (int)i) % 3; a.cmp = (int)((s >> 3) % 6); a.target = (double)(1 + (s >> 6) % 8); Atom b = a; b.cmp = neg(a.cmp); t.at[0].push_back(a); t.at[1].push_back(b); if (i) e += t.op[0] == 1 ? " && " : "||"; e += std::string("notif.dst") + (char)('a' + a.ctr) + cmpn(a.cmp) + std::to_string((uint64_t)a.target); }
        if (k == 1) t.op[0] = t.op[1] = 1;
        Tog * tp = &t; t.t.reset(new tg::ExpressionToggleTrigger("tog" + std::to_string(tog.size()), e, CREATE_SPARTA_HANDLER_WITH_OBJ(Tog, tp, up), CREATE_SPARTA_HANDLER_WITH_OBJ(Tog, tp, down), lanes[(size_t)lane]->node.get(), nullptr)); CHECK(t.t->toString() == e, "toggle", "toString of a toggle"); c.log("toggle %s", e.c_str()); }
    void post(int ln, int ch, uint64_t v) {
        c.log("post %c %lu", 'a' + ch, (ul)v); for (auto & e : xs) if (!e.dead && !e.susp && !e.hasfired) for (auto & a : e.at) if (a.k == NOTE && a.ctr == ch && cmpf(a.cmp, (double)v, a.target)) a.latched = true;
        settle(); for (auto & t : tog) for (int d = 0, was = t.on; d < 2; ++d) { if ((d == 1) != (was != 0) && !(d == 1 && t.on)) continue; if ((d == 1) != t.on) continue; bool all = true, any = false; for (auto & a : t.at[d]) { if (a.ctr == ch && cmpf(a.cmp, (double)v, a.target)) a.latched = true; all &= a.latched; any |= a.latched; } if (t.op[d] == 1 ? all : any) { ++t.want[d]; t.on = d == 0; for (auto & a : t.at[1 - d]) a.latched = false; c.probe(d ? "toggled off" : "toggled on"); } }
        inpost = true; dv[(size_t)ln].ch[ch]->postNotification(v); inpost = false; }
    void doop(const Op & o, int ln) {
        uint64_t k = (uint64_t)o.arg(2), x = (uint64_t)o.arg(3), y = (uint64_t)o.arg(4), z = (uint64_t)o.arg(5); c.log("t%lu lane%d op %lu", (ul)(up ? now() : 0), ln, (ul)k); Dev & q = dv[(size_t)ln];
        switch (k) {
        case 0: case 1: *q.c[x % 2] += y % 5; q.v[x % 2] += y % 5; break;
        case 2: { size_t i = x % q.cv.size(); q.cc->context((uint32_t)i) += y % 4; q.cv[i] += y % 4; break; }
        case 3: make(ln, x, y, z); break;
        case 4: case 5: post(ln, (int)(x % 3), y % 11); break;
        case 6: mktog(ln, x, y); break;
        case 7: if (!xs.empty()) { Expr & e = xs[x % xs.size()]; if (e.dead || e.deps || (!fin && y % 2)) return; if (e.kind == 1 || e.kind == 2) if (!fin) return; e.dead = true; c.log("expire %d", e.id); c.probe(e.hasfired ? "fired expression expired" : "pending expression expired"); e.ex->reset(); } break;
        case 8: if (!xs.empty()) { Expr & e = xs[x % xs.size()]; if (e.dead || e.hasfired) return; if (e.text.find("&&") != std::string::npos && e.text.find("||") != std::string::npos) return; for (auto & a : e.at) if (a.k != NOTE) return; e.susp = !e.susp; c.log("%s %d", e.susp ? "suspend" : "awaken", e.id); c.probe("suspended or awakened"); if (e.susp) (*e.ex)->suspend(); else (*e.ex)->awaken(); } break;
        } }
    void on_op(L & l, uint32_t i) { doop(ops[i], l.id); look("op"); }
    void go() {
        struct Quiet { std::streambuf * b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } } quiet;
        int nl = (int)std::max<int64_t>(1, std::min<int64_t>(2, plan.c("lanes", 1))); lanes_build(*this, nl); bool boom = false; std::string msg;
        watch.w = this; Watch * wp = &watch; watch.ev.reset(new sparta::UniqueEvent<SchedulingPhase::Update>(lanes[0]->es.get(), "watch", CREATE_SPARTA_HANDLER_WITH_OBJ(Watch, wp, tick))); watch.ev->setContinuing(false);
        try {
            for (int i = 0; i < nl; ++i) { dv.emplace_back(); Dev & k = dv.back(); sparta::TreeNode * n = lanes[(size_t)i]->node.get(); k.ps.reset(new Params(n)); k.ss.reset(new sparta::StatisticSet(n)); for (int j = 0; j < 2; ++j) k.c[j].reset(new sparta::Counter(k.ss.get(), std::string("c") + (j ? "b" : "a"), "c", sparta::CounterBase::COUNT_NORMAL)); size_t m = 1 + (size_t)plan.c("ctx", 2) % 3; k.cv.assign(m, 0); k.cc.reset(new sparta::WeightedContextCounter<sparta::Counter>(k.ss.get(), "cc", "cc", m, sparta::CounterBase::COUNT_NORMAL, sparta::InstrumentationNode::VIS_NORMAL)); k.d.reset(new sparta::StatisticDef(k.ss.get(), "d", "d", k.ss.get(), "ca+2*cb"));
                for (int j = 0; j < 3; ++j) { std::string s = std::string("dst") + (char)('a' + j); k.ch[j].reset(new sparta::NotificationSource<uint64_t>(n, s, "ch", s)); } }
            psrc.reset(new sparta::NotificationSource<std::string>(rtn.get(), "posted", "p", "posted")); rtn->REGISTER_FOR_NOTIFICATION(onpost, std::string, "posted");
            rtn->enterConfiguring(); rtn->enterFinalized();
            for (auto & o : plan.ops) if (o.k == "pre") { doop(o, (int)((uint64_t)o.arg(0) % lanes.size())); look("before finalisation"); }
            sched->finalize(); fin = up = true;
            for (auto & o : plan.ops) if (o.k == "o") { ops.push_back(o); lanes[(size_t)o.arg(0) % lanes.size()]->at((uint64_t)(o.arg(1) / 5), (int)(o.arg(1) % 5), (uint32_t)ops.size() - 1); }
            watch.next(); uint64_t mx = 0; for (auto & o : ops) mx = std::max<uint64_t>(mx, (uint64_t)(o.arg(1) / 5)); Tick P = 1; for (auto & k : clks) P = std::max(P, (Tick)k->getPeriod()); Tick last = (Tick)(mx + 12) * P;
            for (Tick t = 0; t < last;) { Tick n = 1 + (Tick)mix64((uint64_t)plan.c("seg", 1) + t) % (Tick)std::max<int64_t>(1, plan.c("segmax", 9)); sched->run(n, true, false); t += n; if (stored) throw *stored; }
            c.sim_time += now();
            for (size_t i = 0; i < got.size(); ++i) c.log("posted %s", got[i].c_str());
            tog.clear(); xs.clear(); rtn->DEREGISTER_FOR_NOTIFICATION(onpost, std::string, "posted"); rtn->enterTeardown(); psrc.reset(); dv.clear();
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (stored) throw *stored;
        CHECK(!boom, "exception", "unexpected exception: %.400s", msg.c_str());
    }
};
void gen(Rng & r, Plan & p, bool th) {
    int nl = (int)r.range(1, 2); p.cfg["lanes"] = nl; for (int i = 1; i < nl; ++i) { p.cfg["p" + std::to_string(i)] = r.range(1, 4); p.cfg["q" + std::to_string(i)] = r.range(1, 4); } p.cfg["seg"] = r.range(0, 1000); p.cfg["segmax"] = r.p(50) ? r.range(1, 6) : r.range(5, 60); p.cfg["ctx"] = r.range(0, 2);
    int cyc = (int)r.range(3, th ? 60 : 25); std::vector<int> w; for (int i = 0; i < 9; ++i) w.push_back(r.p(25) ? 0 : (int)r.range(1, 5)); w[0] += 3; w[3] += 2; w[4] += 2; if (w[7] > 1) w[7] = 1;
    auto one = [&](const char * k, int64_t at) { int64_t q = (int64_t)r.w(w); p.add(k, {r.range(0, 1), at, q, r.range(0, 8191), r.range(0, 8191), r.range(0, 8191)}); };
    for (int i = 0, n = r.p(40) ? 0 : (int)r.range(1, 8); i < n; ++i) one("pre", 0);
    for (int i = 0, n = (int)r.range(6, th ? 90 : 50); i < n; ++i) one("o", r.range(0, cyc * 5));
}
void run(const Plan & p, Ctx & c) { af::Lay lay(7 + (uint64_t)p.c("seg")); runWorld<ExprWorld>(p, c); }
Register R([] {
    Harness h; h.property = "C22"; h.technique = "deterministic simulation: seeded expressions over counters, statistics, notifications and other expressions, driven by seeded counting and posting histories, against a model that latches operands";
    h.rule = "plan = 1-2 clocks, generated expressions of and/or groups, recurring updates and toggles made before and during the run, counting, posting, suspending, expiring; freed memory is overwritten; non-trivial: an expression fired";
    h.real = "expression triggers and their parser, counter, statistic, context counter, cycle, time and notification triggers, trigger manager, counters, notification sources, parameters, tree, scheduler"; h.stub = "devices and callbacks"; h.measure = "hash of the event log";
    h.quick_runs = 12000; h.thorough_runs = 2000000; h.gen = gen; h.run = run; return h; }());
} // namespace
