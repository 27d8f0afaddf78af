// C01..C05: the event kernel.  One simulated world (scheduler, clocks, events of every kind, ordering points)
// driven by a seeded plan; every callback is checked against a small reference model kept beside it.
// The model never predicts an order the documentation does not promise: unordered events may fire in any order.
#include "sparta_world.hpp"
#include "alloc_fault.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/SingleCycleUniqueEvent.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/events/GlobalEvent.hpp"
#include "sparta/events/StartupEvent.hpp"
#include "sparta/events/GlobalOrderingPoint.hpp"
#include "sparta/events/Precedence.hpp"
#include "sparta/kernel/DAG.hpp"
#include <deque>
#include <algorithm>

using namespace dst;
namespace {

using sparta::SchedulingPhase;
typedef sparta::Scheduler::Tick Tick;
constexpr int NPH = 7;
enum Kind { EV = 0, UNIQ = 1, SCU = 2, PL = 3, GEV = 4 };
const char * KN[] = {"Event", "UniqueEvent", "SingleCycleUniqueEvent", "PayloadEvent", "GlobalEvent"};

struct World;
struct Rec {
    World * w; int id, kind, phase, clk; uint64_t delay; bool cont;
    sparta::EventNode * node = nullptr; std::shared_ptr<void> own;       // Event / Unique / SCU / Payload
    sparta::Scheduleable * sch = nullptr;           // Event / Unique
    sparta::PhasedSingleCycleUniqueEvent * scu = nullptr;
    sparta::PhasedPayloadEvent<Canary> * pl = nullptr;
    std::function<void(uint64_t, const sparta::Clock *)> gsched; std::function<void()> gkill, gmove; bool galive = false;
    std::deque<Op> hq;
    uint64_t fired_at = ~0ull;                      // last tick this event fired at, in this epoch
    void fire();
    void firePl(const Canary & c);
};

template<SchedulingPhase P> struct GHold { std::unique_ptr<sparta::GlobalEvent<P>> g; };

template<class F> auto byPhase(int p, F && f) {
    switch (p) {
    case 0: return f(std::integral_constant<SchedulingPhase, SchedulingPhase::Trigger>());
    case 1: return f(std::integral_constant<SchedulingPhase, SchedulingPhase::Update>());
    case 2: return f(std::integral_constant<SchedulingPhase, SchedulingPhase::PortUpdate>());
    case 3: return f(std::integral_constant<SchedulingPhase, SchedulingPhase::Flush>());
    case 4: return f(std::integral_constant<SchedulingPhase, SchedulingPhase::Collection>());
    case 5: return f(std::integral_constant<SchedulingPhase, SchedulingPhase::Tick>());
    default: return f(std::integral_constant<SchedulingPhase, SchedulingPhase::PostTick>());
    }
}

struct Thrown : std::runtime_error { Thrown() : std::runtime_error("handler failed on purpose") {} };

struct Inst { int ev; Tick tick; uint64_t seq; uint64_t serial; bool cont; };
enum PState { PREPARED, SCHEDULED, CANCELLED, FIRED };
struct PInfo { int ev; int64_t val; PState st; int handles; bool delivering = false; };

struct World {
    Ctx & c; const Plan & plan;
    std::unique_ptr<sparta::Scheduler> sched;
    std::unique_ptr<sparta::ClockManager> cm;
    std::unique_ptr<sparta::RootTreeNode> rtn;
    std::vector<sparta::Clock::Handle> clks;
    std::vector<std::unique_ptr<sparta::TreeNode>> nodes;
    std::vector<std::unique_ptr<sparta::EventSet>> sets;
    std::vector<std::unique_ptr<Rec>> ev;
    std::vector<std::vector<char>> before;          // before[i][j]: i must precede j (transitive, user edges)
    std::vector<Inst> pending;
    std::set<Tick> known_ticks;                     // every tick ever targeted in this epoch
    std::set<Tick> cont_ticks;                      // ... by a continuing event
    uint64_t seq = 0, serial = 0, fired = 0;
    int cur = -1; Tick cur_tick = 0; bool in_run = false, stop_req = false, in_startup = false, finalized = false;
    Tick stop_tick = 0;
    std::vector<std::pair<int, int>> fired_now;     // (event, phase) fired in the current tick
    bool restarted = false, ran = false, had_exception = false, early_stop = false;
    uint64_t exceptions_seen = 0;
    std::map<uint64_t, PInfo> pinfo;                // payload serial -> model state
    std::vector<sparta::ScheduleableHandle> slots; std::vector<uint64_t> slot_serial;
    size_t startup_fired = 0, startup_total = 0; std::vector<Op> startup_ops;
    struct Startup { World * w; size_t idx; void fire() { w->startup(idx); } };
    std::vector<std::unique_ptr<Startup>> startups;
    Violation * pendingv = nullptr; std::unique_ptr<Violation> stored;

    World(Ctx & c_, const Plan & p) : c(c_), plan(p) {}

    [[noreturn]] void failv(const char * cls, const std::string & m) { stored.reset(new Violation(cls, m)); throw *stored; }
#define FAIL(cls, ...) do { char b_[900]; snprintf(b_, sizeof b_, __VA_ARGS__); failv(cls, b_); } while (0)
#define CHECK(cond, cls, ...) do { if (!(cond)) FAIL(cls, __VA_ARGS__); } while (0)

    Tick now() { return sched->getCurrentTick(); }
    bool must_precede(int a, int b) { // a strictly before b within a tick
        return ev[a]->phase < ev[b]->phase || before[a][b];
    }

    // ------------------------------------------------------------------ build
    bool build() {
        sched.reset(new sparta::Scheduler());
        cm.reset(new sparta::ClockManager(sched.get()));
        rtn.reset(new sparta::RootTreeNode("dstroot"));
        clks.push_back(cm->makeRoot(rtn.get()));
        for (auto & o : plan.ops) if (o.k == "clk" && clks.size() < 5)
            clks.push_back(cm->makeClock("clk" + std::to_string(clks.size()), clks[0], (uint32_t)std::max<int64_t>(1, o.arg(0)), (uint32_t)std::max<int64_t>(1, o.arg(1, 1))));
        cm->normalize();
        rtn->setClock(clks[0].get());
        for (size_t i = 0; i < clks.size(); ++i) {
            nodes.emplace_back(new sparta::TreeNode(rtn.get(), "n" + std::to_string(i), "node"));
            nodes.back()->setClock(clks[i].get());
            sets.emplace_back(new sparta::EventSet(nodes.back().get()));
        }
        for (auto & o : plan.ops) if (o.k == "ev" && ev.size() < 12) mkev(o);
        if (ev.empty()) return false;
        size_t n = ev.size();
        before.assign(n, std::vector<char>(n, 0));
        for (auto & o : plan.ops) if (o.k.size() > 2 && o.k[0] == 'h' && o.k[1] == '.') ev[o.arg(0) % n]->hq.push_back(o);
        for (auto & o : plan.ops) if (o.k.size() > 2 && o.k[0] == 's' && o.k[1] == '.') {
            startups.emplace_back(new Startup{this, startup_ops.size()}); startup_ops.push_back(o);
            sparta::StartupEvent(nodes[0].get(), CREATE_SPARTA_HANDLER_WITH_OBJ(Startup, startups.back().get(), fire));
            ++startup_total;
        }
        slots.resize(4); slot_serial.assign(4, 0);
        // precedence
        std::vector<std::vector<int>> adj(n + 8);
        bool cyc_expected = false, thrown = false; std::string msg;
        int ngop = 0;
        std::vector<std::unique_ptr<sparta::GlobalOrderingPoint>> gops;
        for (int g = 0; g < 3; ++g) gops.emplace_back(new sparta::GlobalOrderingPoint(nodes[0].get(), "gop" + std::to_string(g)));
        auto usable = [&](size_t i) { return ev[i]->kind != GEV; };
        auto schd = [&](size_t i) -> sparta::Scheduleable & { return ev[i]->node->getScheduleable(); };
        // with phases: events of phase p are after phase gop p and before phase gop p+1
        std::vector<std::pair<int, int>> edges; // vertices: 0..n-1 events, n..n+2 gops
        for (auto & o : plan.ops) {
            if (o.k != "prec" && o.k != "gin" && o.k != "gout") continue;
            size_t a = o.arg(0) % n, b = o.arg(1) % n; int g = (int)(o.arg(1) % 3);
            if (!usable(a) || (o.k == "prec" && !usable(b))) continue;
            if (thrown) break;
            thrown = throws([&] {
                if (o.k == "prec") {
                    if (a == b) return;
                    if (o.arg(2) && ev[a]->phase == ev[b]->phase) schd(a) >> schd(b); else schd(a).precedes(schd(b));
                    edges.push_back({(int)a, (int)b});
                } else if (o.k == "gin") { if (o.arg(2)) *ev[a]->node >> *gops[g]; else schd(a).precedes(*gops[g]->getGOPoint()); edges.push_back({(int)a, (int)n + g}); ++ngop; }
                else { if (o.arg(2)) *gops[g] >> *ev[a]->node; else gops[g]->getGOPoint()->precedes(schd(a)); edges.push_back({(int)n + g, (int)a}); ++ngop; }
            }, &msg);
        }
        // reference: transitive closure over events + ordering points + phases
        size_t V = n + 3 + NPH + 1;
        std::vector<std::vector<char>> R(V, std::vector<char>(V, 0)), U(V, std::vector<char>(V, 0));
        for (auto & e : edges) R[e.first][e.second] = U[e.first][e.second] = 1;
        for (int p = 0; p < NPH; ++p) R[n + 3 + p][n + 3 + p + 1] = 1;
        for (size_t i = 0; i < n; ++i) if (usable(i)) { R[n + 3 + ev[i]->phase][i] = 1; R[i][n + 3 + ev[i]->phase + 1] = 1; }
        auto close = [&](std::vector<std::vector<char>> & M) { for (size_t k = 0; k < V; ++k) for (size_t i = 0; i < V; ++i) if (M[i][k]) for (size_t j = 0; j < V; ++j) if (M[k][j]) M[i][j] = 1; };
        close(R); close(U);
        for (size_t i = 0; i < V; ++i) if (R[i][i]) cyc_expected = true;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) before[i][j] = U[i][j];
        if (!edges.empty()) c.probe("precedence edges", edges.size());
        if (ngop) c.probe("ordering-point edges", ngop);
        if (!thrown) thrown = throws([&] { rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize(); }, &msg);
        c.log("build events=%zu edges=%zu cyclic=%d rejected=%d", n, edges.size(), cyc_expected, thrown);
        if (cyc_expected) {
            c.probe("cyclic graph rejected");
            CHECK(thrown, "cycle-accepted", "the precedence relation has a cycle and it was accepted");
            c.nontrivial = true;
            return false;
        }
        CHECK(!thrown, "acyclic-rejected", "an acyclic precedence relation was rejected: %s", msg.substr(0, 300).c_str());
        finalized = true;
        for (auto & r : ev) if (r->kind == GEV) mkglobal(r.get());
        return true;
    }
    void mkev(const Op & o) {
        std::unique_ptr<Rec> r(new Rec);
        r->w = this; r->id = (int)ev.size(); r->kind = (int)(o.arg(0) % 5); r->phase = (int)(o.arg(1) % NPH); r->clk = (int)(o.arg(2) % clks.size());
        r->delay = o.arg(3); r->cont = o.arg(4, 1) != 0;
        Rec * R = r.get(); auto * es = sets[r->clk].get(); std::string nm = "ev" + std::to_string(r->id);
        if (r->kind == GEV) r->cont = true;
        byPhase(r->phase, [&](auto P) {
            constexpr SchedulingPhase ph = decltype(P)::value;
            auto h = CREATE_SPARTA_HANDLER_WITH_OBJ(Rec, R, fire);
            if (R->kind == EV) { auto * e = new sparta::Event<ph>(es, nm, h, R->delay); R->node = e; R->own.reset(e); R->sch = e; e->setContinuing(R->cont); }
            else if (R->kind == UNIQ) { auto * e = new sparta::UniqueEvent<ph>(es, nm, h, R->delay); R->node = e; R->own.reset(e); R->sch = e; e->setContinuing(R->cont); }
            else if (R->kind == SCU) { auto * e = new sparta::SingleCycleUniqueEvent<ph>(es, nm, h); R->node = e; R->own.reset(e); R->scu = e; e->setContinuing(R->cont); }
            else if (R->kind == PL) {
                auto hp = CREATE_SPARTA_HANDLER_WITH_DATA_WITH_OBJ(Rec, R, firePl, Canary);
                auto * e = new sparta::PayloadEvent<Canary, ph>(es, nm, hp, R->delay); R->node = e; R->own.reset(e); R->pl = e; e->setContinuing(R->cont); }
            return 0;
        });
        ev.push_back(std::move(r));
    }
    void mkglobal(Rec * R) {
        byPhase(R->phase, [&](auto P) {
            constexpr SchedulingPhase ph = decltype(P)::value;
            auto hold = std::make_shared<GHold<ph>>();
            hold->g.reset(new sparta::GlobalEvent<ph>(clks[R->clk].get(), CREATE_SPARTA_HANDLER_WITH_OBJ(Rec, R, fire)));
            R->galive = true;
            R->gsched = [hold](uint64_t d, const sparta::Clock * k) { if (k) hold->g->schedule(d, k); else hold->g->schedule(d); };
            R->gkill = [hold, R] { hold->g.reset(); R->galive = false; };
            return 0;
        });
    }

    // ------------------------------------------------------------------ model helpers
    uint64_t per(int clk) { return clks[clk]->getPeriod(); }
    bool has(int e, Tick t) { for (auto & i : pending) if (i.ev == e && i.tick == t) return true; return false; }
    void note_sched(int e, Tick t) { known_ticks.insert(t); if (ev[e]->cont) cont_ticks.insert(t); }
    void erase_if(std::function<bool(const Inst &)> f) { pending.erase(std::remove_if(pending.begin(), pending.end(), f), pending.end()); }
    // -1: must throw, +1: must accept, 0: either (order between the two is not promised)
    int zero_delay_rule(int e, Tick target) {
        if (!in_run || cur < 0 || target != cur_tick) return 1;
        if (must_precede(e, cur)) return -1;
        if (e == cur || must_precede(cur, e)) return 1;
        return 0;
    }
    template<class F> void try_sched(int e, Tick target, bool dedupe, F && f, uint64_t ser = 0, bool may_reject = false) {
        Rec & r = *ev[e];
        int rule = zero_delay_rule(e, target);
        bool dup = dedupe && has(e, target);
        bool refired = dedupe && r.fired_at == target;
        std::string msg; bool t = throws(f, &msg);
        c.log("%s sched %s#%d at %lu from %d now %lu -> %s", in_run ? "in" : "out", KN[r.kind], e, (unsigned long)target, cur, (unsigned long)now(), t ? "rejected" : "ok");
        if (rule == -1 && !(r.kind == SCU && (dup || refired))) { c.probe("zero-delay against precedence"); CHECK(t, "precedence-not-enforced", "event %d scheduled with zero delay from event %d that must come after it, and it was accepted", e, cur); }
        if (rule == 1 && !(r.kind == UNIQ && refired) && !may_reject) CHECK(!t, "schedule-rejected", "scheduling %s %d at tick %lu (now %lu, from %d) was rejected: %s", KN[r.kind], e, (unsigned long)target, (unsigned long)now(), cur, msg.substr(0, 250).c_str());
        if (r.kind == UNIQ && refired) { c.probe("unique event rescheduled after firing"); CHECK(t, "unique-refire-accepted", "unique event %d already fired at tick %lu and was accepted again for it", e, (unsigned long)target); }
        if (t) return;
        note_sched(e, target);
        if (dup) { c.probe("coalesced schedule"); return; }
        if (r.kind == SCU && refired) { c.probe("single-cycle event ignored after firing"); return; }
        pending.push_back({e, target, ++seq, ser, r.cont});
    }

    // ------------------------------------------------------------------ callbacks
    void tick_to(Tick t) {
        if (!fired_now.empty() || true) {
            if (t != cur_tick || !in_tick) {
                if (in_tick) CHECK(t > cur_tick, "time-went-back", "events fired at tick %lu after tick %lu", (unsigned long)t, (unsigned long)cur_tick);
                check_missed(t);
                cur_tick = t; in_tick = true; fired_now.clear();
            }
        }
    }
    bool in_tick = false;
    void check_missed(Tick before_t) {
        for (auto & i : pending) if (i.tick < before_t)
            FAIL("missed-event", "%s %d was scheduled for tick %lu and did not fire; time is now %lu", KN[ev[i.ev]->kind], i.ev, (unsigned long)i.tick, (unsigned long)before_t);
    }
    void on_fire(Rec & r, uint64_t ser, const Canary * can) {
        ++fired;
        CHECK(in_run, "fired-outside-run", "event %d fired while the scheduler was not running", r.id);
        CHECK(!in_startup, "fired-in-startup", "event %d fired during startup", r.id);
        Tick t = now();
        c.log("fire %s#%d tick %lu ser %lu", KN[r.kind], r.id, (unsigned long)t, (unsigned long)ser);
        CHECK(startup_fired == startup_total, "startup-missing", "an event fired before all startup events (%zu of %zu)", startup_fired, startup_total);
        tick_to(t);
        CHECK(sched->isRunning() || stop_req, "not-running", "isRunning() is false inside a callback");
        CHECK((int)sched->getCurrentSchedulingPhase() == r.phase, "wrong-phase", "%s %d of phase %d fired while the scheduler reports phase %d", KN[r.kind], r.id, r.phase, (int)sched->getCurrentSchedulingPhase());
        for (auto & f : fired_now) if (must_precede(r.id, f.first) && f.first != r.id)
            FAIL("order", "%s %d (phase %d) fired after event %d (phase %d) in tick %lu but must precede it", KN[r.kind], r.id, r.phase, f.first, f.second, (unsigned long)t);
        size_t best = pending.size();
        for (size_t i = 0; i < pending.size(); ++i) if (pending[i].ev == r.id && pending[i].tick == t && (best == pending.size() || pending[i].seq < pending[best].seq)) best = i;
        CHECK(best < pending.size(), "spurious-fire", "%s %d fired at tick %lu with nothing scheduled there", KN[r.kind], r.id, (unsigned long)t);
        if (r.kind == PL) {
            bool any = false; size_t bi = 0;
            for (size_t i = 0; i < pending.size(); ++i) if (pending[i].ev == r.id && pending[i].tick == t && pending[i].serial == ser) { any = true; bi = i; }
            CHECK(any, "payload-not-due", "payload %lu of event %d was delivered at tick %lu but is not scheduled there", (unsigned long)ser, r.id, (unsigned long)t);
            CHECK(pending[best].serial == ser, "payload-order", "payload %lu of event %d delivered before payload %lu scheduled earlier for the same tick", (unsigned long)ser, r.id, (unsigned long)pending[best].serial);
            best = bi;
            auto & pi = pinfo[ser];
            CHECK(can->val == pi.val, "payload-value", "payload %lu delivered with value %ld instead of %ld", (unsigned long)ser, (long)can->val, (long)pi.val);
            pi.st = FIRED; pi.delivering = true;
        }
        pending.erase(pending.begin() + best);
        r.fired_at = t;
        fired_now.push_back({r.id, r.phase});
        int save = cur; cur = r.id;
        CHECK(save < 0, "nested-fire", "event %d fired inside the callback of event %d", r.id, save);
        struct Reset { World * w; int s; uint64_t ser; ~Reset() { w->cur = s; if (ser) w->pinfo[ser].delivering = false; } } rst{this, save, r.kind == PL ? ser : 0};
        for (;;) {
            if (r.hq.empty()) break;
            Op o = r.hq.front(); r.hq.pop_front();
            bool more = o.arg(1) != 0;
            act(Op{o.k.substr(2), std::vector<int64_t>(o.a.begin() + std::min<size_t>(2, o.a.size()), o.a.end())});
            if (can) { can->check("payload destroyed while its own callback runs"); Canary::require(c); }
            if (!more) break;
        }
    }
    void startup(size_t idx) {
        CHECK(idx == startup_fired, "startup-order", "startup event %zu fired as number %zu", idx, startup_fired);
        ++startup_fired; c.log("startup %zu", idx);
        in_startup = true; int s = cur; cur = -1;
        Op o = startup_ops[idx];
        act(Op{o.k.substr(2), std::vector<int64_t>(o.a.begin() + std::min<size_t>(2, o.a.size()), o.a.end())});
        cur = s; in_startup = false;
    }

    // ------------------------------------------------------------------ actions
    size_t E(const Op & o, size_t i = 0) { return (size_t)o.arg(i) % ev.size(); }
    int firstPl(size_t from) { for (size_t i = 0; i < ev.size(); ++i) { size_t j = (from + i) % ev.size(); if (ev[j]->kind == PL) return (int)j; } return -1; }
    void set_slot(size_t s, sparta::ScheduleableHandle && h, uint64_t ser) {
        uint64_t old = slot_serial[s]; slot_serial[s] = ser;
        if (ser) pinfo[ser].handles++;
        slots[s] = h;
        if (old) pinfo[old].handles--;
    }
    uint64_t live_count(int e, bool scheduled_only) { uint64_t n = 0; for (auto & p : pinfo) if (p.second.ev == e && !p.second.delivering) { if (p.second.st == SCHEDULED || (!scheduled_only && p.second.handles > 0)) ++n; } return n; }
    void cancel_serials(int e, std::function<bool(uint64_t, const PInfo &)> f) {
        for (auto & p : pinfo) if (p.second.ev == e && f(p.first, p.second)) {
            if (p.second.st == SCHEDULED) { uint64_t s = p.first; erase_if([&](const Inst & i) { return i.ev == e && i.serial == s; }); c.probe("scheduled payload cancelled"); }
            if (p.second.st != FIRED || p.second.handles) p.second.st = CANCELLED;
        }
    }
    bool in_flight(const PInfo & p) { return p.st == SCHEDULED || p.handles > 0; }
    static void count_ok(World & w, const char * what, uint64_t got, uint64_t lo, uint64_t hi) {
        if (got < lo || got > hi) { char b[200]; snprintf(b, 200, "%s returned %lu, expected %lu..%lu", what, (unsigned long)got, (unsigned long)lo, (unsigned long)hi); w.failv("cancel-count", b); }
    }

    void act(const Op & o) {
        const std::string & k = o.k;
        if (k == "sch") {
            size_t e = E(o); Rec & r = *ev[e]; if (!finalized) return;
            int mode = (int)(o.arg(1) % 5); uint64_t d = o.arg(2); int ck = (int)(o.arg(3) % clks.size());
            if (r.kind == EV || r.kind == UNIQ) {
                Tick rel = mode == 0 ? r.delay * per(r.clk) : mode == 1 ? d * per(r.clk) : mode == 2 ? r.delay * per(ck) : mode == 3 ? d * per(ck) : d;
                try_sched((int)e, now() + rel, r.kind == UNIQ, [&] {
                    if (mode == 0) r.sch->schedule(); else if (mode == 1) r.sch->schedule(sparta::Clock::Cycle(d)); else if (mode == 2) r.sch->schedule(clks[ck].get());
                    else if (mode == 3) r.sch->schedule(sparta::Clock::Cycle(d), clks[ck].get()); else r.sch->scheduleRelativeTick(d, sched.get()); });
            } else if (r.kind == SCU) {
                d %= 3; if (now() % per(r.clk)) return;     // single-cycle events are used on their own clock's edges
                if (d == 2) { CHECK(throws([&] { r.scu->schedule(2); }), "single-cycle-range", "a single-cycle event accepted a delay of 2"); c.log("scu range"); }
                else try_sched((int)e, now() + d * per(r.clk), true, [&] { r.scu->schedule(d); });
            } else if (r.kind == PL) {
                uint64_t ser = ++serial; int64_t v = o.arg(4) % 3; pinfo[ser] = {(int)e, v, PREPARED, 0};
                Tick rel = mode == 0 ? r.delay * per(r.clk) : mode == 1 ? d * per(r.clk) : mode == 2 ? r.delay * per(ck) : mode == 3 ? d * per(ck) : d;
                size_t before_n = pending.size();
                try_sched((int)e, now() + rel, false, [&] {
                    Canary pay(v, ser);
                    auto h = r.pl->preparePayload(pay);
                    if (mode == 0) h->schedule(); else if (mode == 1) h->schedule(sparta::Clock::Cycle(d)); else if (mode == 2) h->schedule(clks[ck].get());
                    else if (mode == 3) h->schedule(sparta::Clock::Cycle(d), clks[ck].get()); else h->scheduleRelativeTick(d, sched.get()); }, ser);
                pinfo[ser].st = pending.size() > before_n ? SCHEDULED : FIRED;
            } else if (r.kind == GEV && r.galive) {
                const sparta::Clock * kp = mode >= 3 ? clks[ck].get() : nullptr;
                try_sched((int)e, now() + d * (kp ? per(ck) : per(r.clk)), false, [&] { r.gsched(d, kp); });
            }
        } else if (k == "cancel") {
            size_t e = E(o); Rec & r = *ev[e]; c.log("cancel %zu", e);
            if (r.kind == EV || r.kind == UNIQ) { size_t n = pending.size(); r.sch->cancel(); erase_if([&](const Inst & i) { return i.ev == (int)e; }); if (n != pending.size()) c.fault("cancel of scheduled events"); }
            else if (r.kind == SCU) { size_t n = pending.size(); r.scu->cancel(); erase_if([&](const Inst & i) { return i.ev == (int)e; }); if (n != pending.size()) c.fault("cancel of scheduled events"); }
            else if (r.kind == PL) {
                uint64_t lo = live_count(e, true), hi = 0; for (auto & p : pinfo) if (p.second.ev == (int)e && (in_flight(p.second) || p.second.delivering)) ++hi;
                uint64_t got = r.pl->cancel(); if (lo) c.fault("cancel of scheduled payloads");
                cancel_serials((int)e, [&](uint64_t, const PInfo & p) { return in_flight(p); });
                count_ok(*this, "cancel()", got, lo, hi + exceptions_seen);
            }
        } else if (k == "cancelrel") {
            size_t e = E(o); Rec & r = *ev[e]; uint64_t d = o.arg(1); Tick t = now() + d * per(r.clk); c.log("cancelrel %zu %lu", e, (unsigned long)d);
            if (r.kind == EV || r.kind == UNIQ) { size_t n = pending.size(); r.sch->cancel(sparta::Clock::Cycle(d)); erase_if([&](const Inst & i) { return i.ev == (int)e && i.tick == t; }); if (n != pending.size()) c.fault("cancel at a given tick"); }
            else if (r.kind == PL) {
                std::set<uint64_t> at; for (auto & i : pending) if (i.ev == (int)e && i.tick == t) at.insert(i.serial);
                uint64_t got = r.pl->cancel(sparta::Clock::Cycle(d)); if (!at.empty()) c.fault("cancel at a given tick");
                cancel_serials((int)e, [&](uint64_t s, const PInfo &) { return at.count(s) > 0; });
                count_ok(*this, "cancel(cycle)", got, at.size(), at.size());
            }
        } else if (k == "cancelif") {
            int e = firstPl(E(o)); if (e < 0) return; Rec & r = *ev[e]; int64_t v = o.arg(1) % 3; c.log("cancelif %d %ld", e, (long)v);
            uint64_t lo = 0, hi = 0; for (auto & p : pinfo) if (p.second.ev == e && p.second.val == v) { if (p.second.st == SCHEDULED) ++lo; if (in_flight(p.second) || p.second.delivering) ++hi; }
            uint64_t got = o.arg(2) ? r.pl->cancelIf(std::function<bool(const Canary &)>([v](const Canary & x) { return x.val == v; })) : r.pl->cancelIf(Canary(v));
            if (lo) c.fault("cancel by payload value");
            cancel_serials(e, [&](uint64_t, const PInfo & p) { return p.val == v && in_flight(p); });
            count_ok(*this, "cancelIf", got, lo, hi + exceptions_seen);
        } else if (k == "prep") {
            int e = firstPl(E(o)); if (e < 0) return; int64_t v = o.arg(1) % 3; size_t s = o.arg(2) % 4; uint64_t ser = ++serial; pinfo[ser] = {e, v, PREPARED, 0}; c.log("prep %d slot %zu ser %lu", e, s, (unsigned long)ser);
            set_slot(s, ev[e]->pl->preparePayload(Canary(v, ser)), ser);
        } else if (k == "psch") {
            if (!finalized) return;
            size_t s = o.arg(0) % 4; uint64_t ser = slot_serial[s]; if (!ser) return; auto & pi = pinfo[ser]; uint64_t d = o.arg(1);
            Rec & r = *ev[pi.ev];
            if (pi.delivering) return;
            if (pi.st == SCHEDULED || pi.st == CANCELLED) {
                c.log("psch illegal %d", (int)pi.st); c.probe("illegal handle schedule");
                CHECK(throws([&] { slots[s]->schedule(sparta::Clock::Cycle(d)); }), "handle-reuse", "a handle that is %s was accepted for scheduling", pi.st == SCHEDULED ? "scheduled" : "cancelled");
            } else {
                size_t n = pending.size();
                try_sched(pi.ev, now() + d * per(r.clk), false, [&] { slots[s]->schedule(sparta::Clock::Cycle(d)); }, ser, pi.st == FIRED); // re-use of a delivered handle: not promised
                if (pending.size() > n) pi.st = SCHEDULED;
            }
        } else if (k == "drop") { size_t s = o.arg(0) % 4; c.log("drop %zu", s); set_slot(s, sparta::ScheduleableHandle(), 0);
        } else if (k == "copy") { size_t a = o.arg(0) % 4, b = o.arg(1) % 4; c.log("copy %zu %zu", a, b); if (a != b) set_slot(b, sparta::ScheduleableHandle(slots[a]), slot_serial[a]); else { auto & h = slots[a]; h = slots[b]; }
        } else if (k == "move") { size_t a = o.arg(0) % 4, b = o.arg(1) % 4; c.log("move %zu %zu", a, b); if (a != b && slot_serial[a]) {
                // through a container, as a user would keep handles
                std::vector<sparta::ScheduleableHandle> v; v.reserve(1); v.push_back(std::move(slots[a]));
                uint64_t ser = slot_serial[a]; slots[a] = sparta::ScheduleableHandle(); slot_serial[a] = 0;
                uint64_t old = slot_serial[b]; slots[b] = v[0]; slot_serial[b] = ser; if (old) pinfo[old].handles--;
                c.probe("handle moved"); }
        } else if (k == "pv") { // keep fresh handles in a growing vector, then let go
            int e = firstPl(E(o)); if (e < 0 || !finalized) return; uint64_t n = 1 + o.arg(1) % 4; c.log("pv %d %lu", e, (unsigned long)n); c.probe("handle container grown");
            std::vector<sparta::ScheduleableHandle> v; std::vector<uint64_t> sers;
            for (uint64_t i = 0; i < n; ++i) { uint64_t ser = ++serial; pinfo[ser] = {e, (int64_t)(i % 3), PREPARED, 1}; sers.push_back(ser); v.push_back(ev[e]->pl->preparePayload(Canary(i % 3, ser))); }
            uint64_t d = 1 + o.arg(2);
            for (uint64_t i = 0; i < n; ++i) { size_t m = pending.size(); try_sched(e, now() + d * per(ev[e]->clk), false, [&] { v[i]->schedule(sparta::Clock::Cycle(d)); }, sers[i]); if (pending.size() > m) pinfo[sers[i]].st = SCHEDULED; }
            v.clear(); for (auto s : sers) pinfo[s].handles = 0;
        } else if (k == "hcancel") {
            size_t s = o.arg(0) % 4; uint64_t ser = slot_serial[s]; if (!ser) return; auto & pi = pinfo[ser]; c.log("hcancel %zu", s);
            bool was = pi.st == SCHEDULED;
            if (o.arg(1) % 2) { Tick t = now() + o.arg(2) * per(ev[pi.ev]->clk); bool at = false; for (auto & i : pending) if (i.serial == ser && i.tick == t) at = true;
                slots[s]->cancel(sparta::Clock::Cycle(o.arg(2)));
                if (at) { cancel_serials(pi.ev, [&](uint64_t x, const PInfo &) { return x == ser; }); c.fault("cancel through a handle"); }
            } else { slots[s]->cancel(); cancel_serials(pi.ev, [&](uint64_t x, const PInfo &) { return x == ser; }); if (was) c.fault("cancel through a handle"); }
        } else if (k == "query") {
            size_t e = E(o); Rec & r = *ev[e]; uint64_t d = o.arg(1); Tick t = now() + d * per(r.clk);
            bool any = false, at = false, at_cancelled = false; for (auto & i : pending) if (i.ev == (int)e) { any = true; if (i.tick == t) at = true; }
            (void)at_cancelled;
            const bool fuzzy = false;
            if (r.kind == EV || r.kind == UNIQ) {
                bool a = r.sch->isScheduled(), b = r.sch->isScheduled(sparta::Clock::Cycle(d));
                if (any) CHECK(a, "is-scheduled", "event %zu is pending and isScheduled() is false", e); else if (!fuzzy) CHECK(!a, "is-scheduled", "event %zu is not pending and isScheduled() is true", e);
                if (at) CHECK(b, "is-scheduled", "event %zu is pending at +%lu and isScheduled(rel) is false", e, (unsigned long)d); else if (!fuzzy || d) CHECK(!b, "is-scheduled", "event %zu is not pending at +%lu and isScheduled(rel) is true", e, (unsigned long)d);
            } else if (r.kind == SCU) { bool a = r.scu->isScheduled(); if (any) CHECK(a, "is-scheduled", "event %zu is pending and isScheduled() is false", e); else if (!fuzzy) CHECK(!a, "is-scheduled", "event %zu is not pending and isScheduled() is true", e);
            } else if (r.kind == PL) {
                uint64_t lo = live_count(e, true), hi = 0; for (auto & p : pinfo) if (p.second.ev == (int)e && (in_flight(p.second) || p.second.delivering)) ++hi;
                uint64_t n = r.pl->getNumOutstandingEvents(); count_ok(*this, "getNumOutstandingEvents", n, lo, hi + exceptions_seen);
                bool b = r.pl->isScheduled(sparta::Clock::Cycle(d));
                if (at) CHECK(b, "is-scheduled", "payload event %zu is pending at +%lu and isScheduled(rel) is false", e, (unsigned long)d); else if (!fuzzy || d) CHECK(!b, "is-scheduled", "payload event %zu is not pending at +%lu and isScheduled(rel) is true", e, (unsigned long)d);
                int64_t v = o.arg(2) % 3; uint64_t l2 = 0, h2 = 0; for (auto & p : pinfo) if (p.second.ev == (int)e && p.second.val == v) { if (p.second.st == SCHEDULED) ++l2; if (in_flight(p.second) || p.second.delivering) ++h2; }
                uint64_t got = o.arg(3) % 2 ? r.pl->getHandleIf(Canary(v)).size() : r.pl->getHandleIf(std::function<bool(const Canary &)>([v](const Canary & x) { return x.val == v; })).size();
                count_ok(*this, "getHandleIf", got, l2, h2 + exceptions_seen);
                bool cf = o.arg(3) % 2 ? r.pl->confirmIf(Canary(v)) : r.pl->confirmIf(std::function<bool(const Canary &)>([v](const Canary & x) { return x.val == v; }));
                CHECK(cf == (got > 0), "confirm", "confirmIf and getHandleIf disagree");
            }
        } else if (k == "gkill") { size_t e = E(o); Rec & r = *ev[e]; if (r.kind == GEV && r.galive && !(cur == (int)e)) { r.gkill(); c.log("gkill %zu", e); c.fault("event object destroyed while scheduled");
                erase_if([&](const Inst & i) { return i.ev == (int)e; }); }
        } else if (k == "grevive") { size_t e = E(o); Rec & r = *ev[e]; if (r.kind == GEV && !r.galive && finalized) { mkglobal(&r); c.log("grevive %zu", e); }
        } else if (k == "stop") { if (in_run && cur >= 0) { c.log("stop"); sched->stopRunning(); stop_req = true; stop_tick = now(); c.fault("run stopped from a callback"); }
        } else if (k == "throw") { if (in_run && cur >= 0) { c.log("throw"); c.fault("callback threw"); throw Thrown(); }
        } else if (k == "badrun") { if (in_run && cur >= 0 && !stop_req) { c.log("recursive run"); CHECK(throws([&] { sched->run(1); }), "recursive-run", "run() inside a callback was accepted"); CHECK(throws([&] { sched->restartAt(0); }), "restart-while-running", "restartAt() inside a callback was accepted"); c.probe("recursive run rejected"); }
        } else if (k == "run") { if (!in_run && !in_startup) do_run(o.arg(0) <= 0 ? sparta::Scheduler::INDEFINITE : (Tick)o.arg(0), o.arg(1) != 0, o.arg(2, 1));
        } else if (k == "run0") { if (!in_run && !in_startup) { Tick a = now(); sched->run(0, o.arg(0) & 1); CHECK(now() == a, "run-zero", "run(0) moved time"); c.log("run0"); }
        } else if (k == "restart") { if (!in_run && !in_startup) do_restart((Tick)o.arg(0));
        } else if (k == "clear") { if (!in_run && !in_startup) { c.log("clear"); if (!pending.empty()) c.fault("all events cleared"); sched->clearEvents(); model_clear(); check_idle(); }
        }
    }
    void model_clear() {
        for (auto & p : pinfo) if (p.second.st == SCHEDULED) p.second.st = CANCELLED;
        pending.clear(); known_ticks.clear(); cont_ticks.clear(); early_stop = false;
    }
    void check_idle() {
        CHECK(sched->isFinished(), "finished", "isFinished() is false after all events were cleared");
        CHECK(sched->nextEventTick() == sparta::Scheduler::INDEFINITE, "next-event", "nextEventTick() is %lu with nothing scheduled", (unsigned long)sched->nextEventTick());
    }
    void do_restart(Tick t) {
        c.log("restart %lu", (unsigned long)t); c.fault(t < now() ? "time rewound" : "time jumped forward");
        sched->restartAt(t); model_clear(); restarted = true; in_tick = false; fired_now.clear();
        for (auto & r : ev) r->fired_at = ~0ull;
        CHECK(now() == t, "restart-time", "restartAt(%lu) left the current tick at %lu", (unsigned long)t, (unsigned long)now());
        check_idle();
    }
    void do_run(Tick n, bool exact, bool measure) {
        Tick S = now(); c.log("run n=%ld exact=%d at %lu", (long)n, exact, (unsigned long)S);
        in_run = true; stop_req = false; in_tick = false; cur = -1;
        bool empty0 = pending.empty(); uint64_t f0 = fired; Tick min_pend = ~0ull; for (auto & i : pending) min_pend = std::min(min_pend, i.tick);
        bool threw = false;
        try { sched->run(n, exact, measure); }
        catch (Thrown &) { threw = true; }
        catch (Violation &) { throw; }
        catch (std::exception & e) { in_run = false; if (stored) throw *stored; FAIL("run-threw", "run() failed: %s", std::string(e.what()).substr(0, 300).c_str()); }
        in_run = false;
        if (stored) throw *stored;
        if (threw) {
            had_exception = true; ++exceptions_seen; cur = -1;
            Tick t = (plan.c("rec", 0) % 2) ? now() + 1 : (Tick)plan.c("rect", 1);
            sched->stopRunning(); // documented recovery
            do_restart(t); c.probe("recovered from a throwing callback");
            return;
        }
        Tick C = now(); ran = true;
        c.log("run done at %lu fired %lu", (unsigned long)C, (unsigned long)(fired - f0));
        if (C > S) c.sim_time += C - S;
        CHECK(!sched->isRunning(), "still-running", "isRunning() after run()");
        CHECK(startup_fired == startup_total, "startup-missing", "run() returned with %zu of %zu startup events fired", startup_fired, startup_total);
        CHECK(C >= S, "time-went-back", "run() moved time from %lu to %lu", (unsigned long)S, (unsigned long)C);
        if (in_tick) CHECK(C > cur_tick, "time-went-back", "run() ended at %lu after firing at %lu", (unsigned long)C, (unsigned long)cur_tick);
        check_missed(C);
        if (n != sparta::Scheduler::INDEFINITE) CHECK(C <= S + n, "overrun", "run(%lu) from %lu ended at %lu", (unsigned long)n, (unsigned long)S, (unsigned long)C);
        bool stopped = stop_req;
        if (stopped) {
            c.probe("run ended by stopRunning");
            CHECK(C == stop_tick + 1, "stop-late", "stopRunning() at tick %lu, run() ended at %lu", (unsigned long)stop_tick, (unsigned long)C);
        } else {
            if (exact && n != sparta::Scheduler::INDEFINITE) { CHECK(C == S + n, "not-exact", "an exact run of %lu ticks from %lu ended at %lu", (unsigned long)n, (unsigned long)S, (unsigned long)C); c.probe("exact run"); }
            for (auto & i : pending) if (i.cont && (n == sparta::Scheduler::INDEFINITE || i.tick < S + n))
                FAIL("ended-early", "run(%ld%s) from tick %lu returned at tick %lu although %s %d is scheduled for tick %lu", (long)n, exact ? ",exact" : "", (unsigned long)S, (unsigned long)C, KN[ev[i.ev]->kind], i.ev, (unsigned long)i.tick);
        }
        if (!exact && C > S && !stopped) {
            // time only ever stops right after a tick somebody asked for
            bool ok = known_ticks.count(C - 1) || (empty0 && C == S + 1) || (n != sparta::Scheduler::INDEFINITE && C == S + n);
            CHECK(ok, "odd-end", "run(%ld) from %lu ended at %lu, a time nothing was scheduled for", (long)n, (unsigned long)S, (unsigned long)C);
        }
        // no continuing event was ever asked for beyond here: a run must not have gone past the last one
        bool must_go = false; for (auto & i : pending) if (i.cont) must_go = true;
        bool ever = !cont_ticks.empty() && *cont_ticks.rbegin() >= C;
        bool fin = sched->isFinished();
        if (must_go) CHECK(!fin, "finished", "isFinished() is true with continuing events scheduled");
        else if (!ever && ran && fired > f0) CHECK(fin, "finished", "isFinished() is false with no continuing event left");
        Tick mp = sparta::Scheduler::INDEFINITE; for (auto & i : pending) mp = std::min<Tick>(mp, i.tick);
        Tick ne = sched->nextEventTick();
        CHECK(ne <= mp, "next-event", "nextEventTick() is %lu, an event is scheduled for %lu", (unsigned long)ne, (unsigned long)mp);
        CHECK(ne == sparta::Scheduler::INDEFINITE || ne >= C, "next-event", "nextEventTick() %lu lies before the current tick %lu", (unsigned long)ne, (unsigned long)C);
        if (!restarted && C > S) CHECK(sched->getElapsedTicks() == C - 1, "elapsed", "getElapsedTicks() is %lu at tick %lu", (unsigned long)sched->getElapsedTicks(), (unsigned long)C);
        if (fired > f0) c.nontrivial = true;
        check_payloads();
        (void)min_pend;
    }
    // every payload that is neither scheduled nor held must be gone; every other one alive
    void check_payloads() {
        Canary::require(c);
        std::set<uint64_t> alive; for (auto * k : Canary::live()) alive.insert(k->serial);
        for (auto & p : pinfo) {
            bool want = p.second.st == SCHEDULED || p.second.handles > 0;
            if (p.second.delivering) continue;
            if (want) CHECK(alive.count(p.first), "payload-lost", "payload %lu of event %d is still %s but was destroyed", (unsigned long)p.first, p.second.ev, p.second.st == SCHEDULED ? "scheduled" : "held");
            else if (!had_exception) CHECK(!alive.count(p.first), "payload-leak", "payload %lu of event %d is neither scheduled nor held and was not released", (unsigned long)p.first, p.second.ev);
        }
    }

    void main() {
        if (!build()) { teardown(); return; }
        for (auto & o : plan.ops) if (o.k.size() > 2 && o.k[0] == 'm' && o.k[1] == '.') {
            act(Op{o.k.substr(2), o.a}); Canary::require(c);
            check_payloads();
        }
        act(Op{"run", {0, 0, 1}});
        for (auto & i : pending) CHECK(!i.cont || stop_req || had_exception, "ended-early", "the final run left continuing events");
        c.log("end fired=%lu tick=%lu", (unsigned long)fired, (unsigned long)now());
        c.probe("events fired", fired);
        teardown();
    }
    void teardown() {
        for (size_t s = 0; s < slots.size(); ++s) slots[s] = sparta::ScheduleableHandle();
        if (rtn) rtn->enterTeardown();
        bool in_sched = !pending.empty(); if (in_sched && finalized) c.probe("torn down with events scheduled");
        ev.clear();
        Canary::require(c);
        CHECK(Canary::live().empty(), "payload-leak", "%zu payloads alive after their event was destroyed", Canary::live().size());
        sets.clear(); nodes.clear(); rtn.reset(); clks.clear(); cm.reset(); sched.reset();
    }
};

void Rec::fire() { w->on_fire(*this, 0, nullptr); }
void Rec::firePl(const Canary & can) {
    can.check("callback received a dead payload"); Canary::require(w->c);
    w->on_fire(*this, can.serial, &can);
    can.check("payload destroyed while its own callback runs"); Canary::require(w->c);
}

void run(const Plan & p, Ctx & c) { af::Lay lay(af::seed_of(p)); { World w(c, p); w.main(); } af::no_stray_writes(c); }

enum Focus { F_SCHED, F_RUN, F_PREC, F_UNIQ, F_PL };

void gen_action(Rng & r, Focus f, const char * pre, std::vector<int64_t> head, int nev, Plan & p, bool handler) {
    auto put = [&](const char * k, std::vector<int64_t> a) { std::vector<int64_t> v = head; v.insert(v.end(), a.begin(), a.end()); p.add((std::string(pre) + k).c_str(), v); };
    auto delay = [&]() -> int64_t { int x = (int)r.below(20); return x < 7 ? 0 : x < 14 ? 1 : x < 18 ? r.range(2, 5) : x < 19 ? r.range(6, 40) : r.range(1, 2000); };
    std::vector<int> ws = {40, 4, 4, 3, 4, 4, 2, 2, 3, 2, 4, 2, 1, 1, handler ? 2 : 0, handler ? 1 : 0};
    if (f == F_PL) ws = {25, 4, 6, 8, 8, 10, 5, 4, 5, 6, 6, 2, 2, handler ? 1 : 0, handler ? 1 : 0, handler ? 1 : 0};
    if (f == F_UNIQ) ws = {55, 8, 8, 0, 1, 1, 0, 0, 0, 0, 6, 0, 1, 0, handler ? 2 : 0, handler ? 1 : 0};
    if (f == F_PREC) ws = {70, 2, 2, 0, 1, 1, 0, 0, 0, 0, 1, 0, 1, 0, handler ? 1 : 0, 0};
    if (f == F_RUN) ws = {50, 5, 5, 1, 2, 2, 0, 0, 1, 1, 3, 1, 1, 1, handler ? 8 : 0, handler ? 3 : 0};
    switch (r.w(ws)) {
    case 0: put("sch", {r.range(0, nev - 1), r.w({3, 6, 1, 2, 1}) ? (int64_t)r.w({3, 6, 1, 2, 1}) : 1, delay(), r.range(0, 3), r.range(0, 2)}); break;
    case 1: put("cancel", {r.range(0, nev - 1)}); break;
    case 2: put("cancelrel", {r.range(0, nev - 1), delay()}); break;
    case 3: put("cancelif", {r.range(0, nev - 1), r.range(0, 2), r.range(0, 1)}); break;
    case 4: put("prep", {r.range(0, nev - 1), r.range(0, 2), r.range(0, 3)}); break;
    case 5: put("psch", {r.range(0, 3), delay()}); break;
    case 6: put("drop", {r.range(0, 3)}); break;
    case 7: put("copy", {r.range(0, 3), r.range(0, 3)}); break;
    case 8: put("move", {r.range(0, 3), r.range(0, 3)}); break;
    case 9: put("hcancel", {r.range(0, 3), r.range(0, 1), delay()}); break;
    case 10: put("query", {r.range(0, nev - 1), delay(), r.range(0, 2), r.range(0, 1)}); break;
    case 11: put("pv", {r.range(0, nev - 1), r.range(0, 3), r.range(0, 3)}); break;
    case 12: put("gkill", {r.range(0, nev - 1)}); break;
    case 13: put("grevive", {r.range(0, nev - 1)}); break;
    case 14: put("stop", {}); break;
    default: if (r.p(40)) put("throw", {}); else put("badrun", {}); break;
    }
}

void gen(Focus f, Rng & r, Plan & p, bool thorough) {
    p.cfg["rec"] = r.range(0, 1); p.cfg["rect"] = r.range(0, 6);
    int nclk = (int)r.w({5, 3, 2, 1});
    for (int i = 0; i < nclk; ++i) p.add("clk", {r.range(1, 4), r.range(1, 3)});
    int nev = (int)r.range(1, f == F_PREC ? 10 : r.p(50) ? 3 : 8);
    std::vector<int> phs; for (int i = 0; i < NPH; ++i) phs.push_back(i);
    if (r.p(60)) { phs.clear(); int k = (int)r.range(1, 3); for (int i = 0; i < k; ++i) phs.push_back((int)r.below(NPH)); }
    std::vector<int> kw = {4, 3, 3, 4, 1};
    if (f == F_UNIQ) kw = {1, 6, 6, 1, 0};
    if (f == F_PL) kw = {1, 1, 1, 8, 2};
    if (r.p(25)) { for (auto & k : kw) if (r.p(40)) k = 0; int s = 0; for (int k : kw) s += k; if (!s) kw[f == F_PL ? 3 : f == F_UNIQ ? (int)r.range(1, 2) : 0] = 1; }
    std::vector<int> ph(nev), kd(nev);
    int pnc = r.p(50) ? 0 : (int)r.range(10, 60);
    for (int i = 0; i < nev; ++i) { ph[i] = r.pick(phs); kd[i] = (int)r.w(kw); p.add("ev", {kd[i], ph[i], r.range(0, 3), r.range(0, 3), r.p(pnc) ? 0 : 1}); }
    int ne = f == F_PREC ? (int)r.range(1, 14) : r.p(50) ? 0 : (int)r.range(1, 5);
    bool cyc = f == F_PREC && r.p(25);
    for (int i = 0; i < ne && nev > 1; ++i) {
        int a = (int)r.below(nev), b = (int)r.below(nev);
        if (a == b) continue;
        if (!cyc) { if (a > b) std::swap(a, b); if (ph[a] > ph[b]) std::swap(a, b); if (ph[a] == ph[b] && a > b) std::swap(a, b); if (ph[a] != ph[b] && r.p(80)) continue; }
        p.add("prec", {a, b, r.range(0, 1)});
    }
    if (f == F_PREC ? r.p(40) : r.p(10)) {
        int k = (int)r.range(2, 5); int g = (int)r.below(3); int cut = (int)r.below(nev);
        for (int i = 0; i < k; ++i) { int a = (int)r.below(nev);
            if (cyc || r.p(10)) p.add(r.p(50) ? "gin" : "gout", {a, (int64_t)r.below(3), r.range(0, 1)});
            else { // keep it acyclic: members of one phase, inputs before the cut
                if (ph[a] != ph[cut]) continue;
                p.add(a < cut ? "gin" : "gout", {a, g, r.range(0, 1)}); } }
    }
    if (r.p(50)) for (int i = 0, k = (int)r.range(1, 3); i < k; ++i) p.add("s.sch", {0, 0, r.range(0, nev - 1), 1, r.range(0, 3), 0, 0});
    int nh = (int)r.range(0, thorough ? 60 : 30), nm = (int)r.range(3, thorough ? 40 : 22);
    for (int i = 0; i < nh; ++i) gen_action(r, f, "h.", {r.range(0, nev - 1), r.p(45)}, nev, p, true);
    std::vector<int> mw = f == F_RUN ? std::vector<int>{45, 30, 6, 4, 2} : std::vector<int>{70, 22, 3, 2, 1};
    for (int i = 0; i < nm; ++i) switch (r.w(mw)) {
        case 0: gen_action(r, f, "m.", {}, nev, p, false); break;
        case 1: { int x = (int)r.below(10); p.add("m.run", {x < 3 ? 0 : x < 8 ? r.range(1, 8) : r.range(1, 60), r.range(0, 1), r.range(0, 1)}); } break;
        case 2: p.add("m.restart", {r.p(50) ? r.range(0, 5) : r.range(0, 200)}); break;
        case 3: p.add("m.clear"); break;
        default: p.add("m.run0", {r.range(0, 1)}); break;
    }
}

const char * TECH = "deterministic simulation: seeded event schedules, run splits, cancels, stops, throws and rewinds against a reference model";
const char * REAL = "sparta::Scheduler, DAG, Vertex, Clock, ClockManager, EventSet, Event, UniqueEvent, SingleCycleUniqueEvent, PayloadEvent, GlobalEvent, StartupEvent, GlobalOrderingPoint, tree nodes: all shipped code";
const char * STUB = "event handlers (scripted by the plan); wall-clock timers are left running but nothing reads them";

Harness mk(const char * id, Focus f, const char * rule, uint64_t q, uint64_t t) {
    Harness h; h.property = id; h.technique = TECH; h.real = REAL; h.stub = STUB; h.rule = rule; h.quick_runs = q; h.thorough_runs = t;
    h.measure = "FNV hash of the run's complete event log (every scheduling call, firing, cancel, run segment and its outcome)";
    h.assumptions = {"handlers run on the simulation thread only", "order between events with no declared precedence in one phase is unspecified and either outcome is accepted"};
    h.gen = [f](Rng & r, Plan & p, bool th) { gen(f, r, p, th); }; h.run = run;
    return h;
}
Register r1(mk("C01", F_SCHED, "random worlds of 1-8 events of all kinds over 1-4 clocks; scripted handlers schedule/cancel/stop; non-trivial: at least one event fired", 40000, 1500000));
Register r2(mk("C02", F_RUN, "as C01 with many run/stop/restart/clear segments and throwing handlers; non-trivial: at least one event fired", 40000, 1500000));
Register r3(mk("C03", F_PREC, "random precedence relations (with ordering points, across phases, a quarter of them cyclic) and zero-delay scheduling; non-trivial: an event fired or a cyclic relation was offered", 40000, 1500000));
Register r4(mk("C04", F_UNIQ, "unique and single-cycle events scheduled repeatedly into the same and adjacent ticks from several producers, with cancels and rewinds; non-trivial: at least one event fired", 40000, 1500000));
Register r5(mk("C05", F_PL, "payload events with held, copied, moved, dropped and cancelled handles and global events destroyed while scheduled; non-trivial: at least one event fired", 40000, 1500000));
} // namespace
