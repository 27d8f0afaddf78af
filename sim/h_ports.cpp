// C09: clock domains.  C10: DataPort / SignalPort delivery.  C11: SyncPort clock crossing and back-pressure.
#include "world_base.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/ports/PortSet.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
#include "sparta/ports/SyncPort.hpp"
#include "sparta/ports/ExportedPort.hpp"
#include <deque>
#include <algorithm>

using namespace dst;
namespace {

// ------------------------------------------------------------------------------------------------ C10
const SchedulingPhase ACTPH[] = {SchedulingPhase::Update, SchedulingPhase::PortUpdate, SchedulingPhase::Tick, SchedulingPhase::PostTick};

struct PWorld : PBase {
    using PBase::PBase;
    struct Fly { int in; int out; Tick tick; uint64_t serial; int64_t val; uint64_t order; bool cont; };
    struct In { PWorld * w; int id; bool sig; sparta::Clock::Cycle delay; int phase; int clk; bool cons = false; bool cont = true; int nout = 0;
        std::unique_ptr<sparta::DataInPort<Canary>> dp; std::unique_ptr<sparta::SignalInPort> sp;
        std::unique_ptr<sparta::PhasedUniqueEvent> ce; std::deque<Op> hq; std::set<Tick> sigfly; 
        bool dlv = false; int64_t dlv_val = 0; bool has = false; int64_t val = 0; Tick at = 0; uint64_t ser = 0; Tick cons_at = ~0ull; bool cons_due = false;
        void data(const Canary & d) { w->on_data(*this, d); } void signal() { w->on_signal(*this); } void consumer() { w->on_cons(*this); } };
    struct Out { int id; bool sig; int clk; bool presume; bool cont = true; std::unique_ptr<sparta::DataOutPort<Canary>> dp; std::unique_ptr<sparta::SignalOutPort> sp; std::vector<int> bound; };
    struct Actor { PWorld * w; int ph; int clk; std::unique_ptr<sparta::PhasedPayloadEvent<uint32_t>> ev; void fire(const uint32_t & i) { w->on_act(*this, i); } };
    std::vector<std::unique_ptr<sparta::TreeNode>> nodes; std::vector<std::unique_ptr<sparta::PortSet>> ps; std::vector<std::unique_ptr<sparta::EventSet>> es;
    std::vector<std::unique_ptr<In>> ins; std::vector<std::unique_ptr<Out>> outs; std::vector<std::unique_ptr<Actor>> acts; std::vector<Op> aops;
    std::vector<Fly> fly; uint64_t serial = 0, order = 0; int depth = 0;
    std::set<Tick> cont_ticks;

    void build() {
        sched.reset(new sparta::Scheduler()); cm.reset(new sparta::ClockManager(sched.get())); rtn.reset(new sparta::RootTreeNode("dstroot"));
        clks.push_back(cm->makeRoot(rtn.get()));
        clks.push_back(cm->makeClock("c1", clks[0], (uint32_t)std::max<int64_t>(1, plan.c("p", 1)), (uint32_t)std::max<int64_t>(1, plan.c("q", 1))));
        cm->normalize(); rtn->setClock(clks[0].get());
        for (int i = 0; i < 2; ++i) { nodes.emplace_back(new sparta::TreeNode(rtn.get(), "n" + std::to_string(i), "n")); nodes.back()->setClock(clks[i].get());
            ps.emplace_back(new sparta::PortSet(nodes.back().get())); es.emplace_back(new sparta::EventSet(nodes.back().get())); }
        for (int k = 0; k < 2; ++k) for (int p = 0; p < 4; ++p) {
            acts.emplace_back(new Actor{this, (int)ACTPH[p], k, {}}); Actor * A = acts.back().get();
            A->ev.reset(new sparta::PhasedPayloadEvent<uint32_t>(es[k].get(), "act" + std::to_string(p), ACTPH[p], CREATE_SPARTA_HANDLER_WITH_DATA_WITH_OBJ(Actor, A, fire, uint32_t)));
        }
        for (auto & o : plan.ops) {
            if ((o.k == "in" || o.k == "sin") && ins.size() < 6) {
                ins.emplace_back(new In{this, (int)ins.size(), o.k == "sin"}); In * I = ins.back().get();
                I->delay = (uint64_t)o.arg(0); I->clk = (int)(o.arg(2) & 1); int ph = (int)o.arg(1);
                std::string n = "in" + std::to_string(I->id);
                if (ph < 0) I->phase = (int)(I->delay == 0 ? SchedulingPhase::Tick : SchedulingPhase::PortUpdate);
                else I->phase = (int)ACTPH[ph % 4];
                if (I->sig) { if (ph < 0) I->sp.reset(new sparta::SignalInPort(ps[I->clk].get(), n, I->delay)); else I->sp.reset(new sparta::SignalInPort(ps[I->clk].get(), n, (SchedulingPhase)I->phase, I->delay));
                    if (o.arg(3, 1)) I->sp->registerConsumerHandler(CREATE_SPARTA_HANDLER_WITH_OBJ(In, I, signal)); else { delete_in(); continue; } }
                else { if (ph < 0) I->dp.reset(new sparta::DataInPort<Canary>(ps[I->clk].get(), n, I->delay)); else I->dp.reset(new sparta::DataInPort<Canary>(ps[I->clk].get(), n, (SchedulingPhase)I->phase, I->delay));
                    I->dp->registerConsumerHandler(CREATE_SPARTA_HANDLER_WITH_DATA_WITH_OBJ(In, I, data, Canary)); }
                I->cons = o.arg(4) != 0;
                if (I->cons) {
                    I->ce.reset(new sparta::PhasedUniqueEvent(es[I->clk].get(), "cons" + std::to_string(I->id), (SchedulingPhase)I->phase, CREATE_SPARTA_HANDLER_WITH_OBJ(In, I, consumer)));
                    (I->sig ? (sparta::InPort *)I->sp.get() : (sparta::InPort *)I->dp.get())->registerConsumerEvent(*I->ce);
                }
            } else if ((o.k == "out" || o.k == "sout") && outs.size() < 5) {
                outs.emplace_back(new Out{(int)outs.size(), o.k == "sout", (int)(o.arg(1) & 1), o.arg(0) != 0}); Out * O = outs.back().get();
                std::string n = "out" + std::to_string(O->id); sparta::OutPort * op;
                if (O->sig) { O->sp.reset(new sparta::SignalOutPort(ps[O->clk].get(), n, O->presume)); op = O->sp.get(); }
                else { O->dp.reset(new sparta::DataOutPort<Canary>(ps[O->clk].get(), n, O->presume)); op = O->dp.get(); }
                for (int p = 0; p < 4; ++p) op->registerProducingEvent(acts[O->clk * 4 + p]->ev->getScheduleable());
                if (o.arg(2)) { op->setContinuing(false); O->cont = false; }
            }
        }
        for (auto & o : plan.ops) if (o.k == "bind" && !outs.empty() && !ins.empty()) {
            Out & O = *outs[o.arg(0) % outs.size()]; In & I = *ins[o.arg(1) % ins.size()];
            if (O.sig != I.sig || O.clk != I.clk || std::count(O.bound.begin(), O.bound.end(), I.id)) continue;
            if (I.cons && !O.presume && I.delay == 0) continue;   // then a registered consumer has no precedence over the producer
            sparta::Port * a = O.sig ? (sparta::Port *)O.sp.get() : O.dp.get(); sparta::Port * b = I.sig ? (sparta::Port *)I.sp.get() : I.dp.get();
            int how = (int)(o.arg(2) % 4);
            if (how == 0) sparta::bind(a, b); else if (how == 1) sparta::bind(*b, *a); else if (how == 2) sparta::bind(a, *b); else sparta::bind(b, a);
            O.bound.push_back(I.id); I.cont = O.cont; ++I.nout;
        }
        size_t na = 0;
        for (auto & o : plan.ops) if (o.k[0] == 'h' && o.k[1] == '.' && !ins.empty()) ins[o.arg(0) % ins.size()]->hq.push_back(o);
        (void)na;
        rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize();
        for (auto & o : plan.ops) if (o.k[0] == 'a' && o.k[1] == '.') { Actor & A = *acts[o.arg(1) & 7]; uint32_t i = (uint32_t)aops.size(); aops.push_back(o); A.ev->preparePayload(i)->schedule((sparta::Clock::Cycle)o.arg(0)); cont_ticks.insert(o.arg(0) * clks[A.clk]->getPeriod()); }
    }
    void delete_in() { ins.pop_back(); }

    void overdue() {
        for (auto & f : fly) CHECK(f.tick >= now(), "lost", "data #%lu sent on out%d to in%d was due at tick %lu, now it is %lu", (ul)f.serial, f.out, f.in, (ul)f.tick, (ul)now());
        for (auto & I : ins) { if (!I->sigfly.empty()) CHECK(*I->sigfly.begin() >= now(), "lost", "signal to in%d was due at tick %lu, now it is %lu", I->id, (ul)*I->sigfly.begin(), (ul)now());
            if (I->cons_due) CHECK(I->cons_at == now(), "consumer-lost", "the registered consumer of in%d was not called in tick %lu", I->id, (ul)I->cons_at); }
    }
    void on_act(Actor & A, uint32_t i) { overdue(); c.log("t%lu actor %d.%d", (ul)now(), A.clk, A.ph); doop(aops[i], 2, A.clk); }
    int curphase() { return (int)sched->getCurrentSchedulingPhase(); }

    void on_data(In & I, const Canary & d) {
        overdue(); d.check("data delivered dead"); Canary::require(c); c.nontrivial = true;
        c.log("t%lu in%d gets #%lu=%ld", (ul)now(), I.id, (ul)d.serial, (long)d.val);
        bool im = immediate(I, false, d.serial, d.val);
        bool mine = !im; if (mine) { I.dlv = true; I.dlv_val = d.val; }   // the payload being delivered may still be counted as in flight
        if (im) { }
        else {
            size_t k = fly.size();
            for (size_t i = 0; i < fly.size(); ++i) if (fly[i].in == I.id && fly[i].serial == d.serial) { k = i; break; }
            CHECK(k < fly.size(), "not-sent", "in%d got #%lu which is not in flight to it", I.id, (ul)d.serial);
            CHECK(fly[k].tick == now(), "wrong-tick", "in%d got #%lu at tick %lu, due at %lu", I.id, (ul)d.serial, (ul)now(), (ul)fly[k].tick);
            CHECK(fly[k].val == d.val, "corrupt", "#%lu has value %ld, sent %ld", (ul)d.serial, (long)d.val, (long)fly[k].val);
            CHECK(curphase() == I.phase, "wrong-phase", "in%d delivered in phase %d, declared %d", I.id, curphase(), I.phase);
            for (auto & f : fly) if (f.in == I.id && f.out == fly[k].out && f.tick == now()) CHECK(f.order >= fly[k].order, "reordered", "#%lu overtook #%lu on out%d->in%d", (ul)d.serial, (ul)f.serial, f.out, I.id);
            fly.erase(fly.begin() + k);
        }
        I.has = true; I.val = d.val; I.ser = d.serial; I.at = now();
        const Canary & pk = I.dp->peekData(); CHECK(I.dp->dataReceived() && I.dp->dataReceivedThisCycle() && pk.serial == d.serial && pk.val == d.val, "container", "in%d does not hold the data just delivered", I.id);
        common(I); if (mine) I.dlv = false; else advance();
    }
    void common(In & I) {
        if (I.cons) { CHECK(I.cons_at != now() || I.cons_due, "consumer-order", "in%d received data after its registered consumer ran in tick %lu", I.id, (ul)now());
            I.cons_at = now(); I.cons_due = true; I.ce->schedule(sparta::Clock::Cycle(0)); }
        if (!I.hq.empty() && depth < 6) { Op o = I.hq.front(); I.hq.pop_front(); ++depth; doop(o, 1, I.clk); --depth; }
    }
    void on_signal(In & I) {
        overdue(); c.nontrivial = true; c.log("t%lu in%d signal", (ul)now(), I.id);
        bool im = immediate(I, true, 0, 0);
        if (!im) { CHECK(I.sigfly.count(now()), "not-sent", "in%d got a signal at tick %lu that is not due then", I.id, (ul)now()); I.sigfly.erase(now());
            CHECK(curphase() == I.phase, "wrong-phase", "in%d delivered in phase %d, declared %d", I.id, curphase(), I.phase); }
        I.has = true; I.at = now();
        CHECK(I.sp->dataReceived() && I.sp->dataReceivedThisCycle(), "container", "signal in%d not recorded", I.id);
        common(I); if (im) advance();
    }
    void on_cons(In & I) {
        overdue(); c.log("t%lu consumer of in%d", (ul)now(), I.id);
        CHECK(I.cons_due && I.cons_at == now(), "consumer", "the consumer of in%d ran without data", I.id); I.cons_due = false;
    }
    // sends in event context
    void send(Out & O, int64_t val, uint64_t rel) {
        if (O.bound.empty()) { bool t = refused([&] { if (O.sig) O.sp->send(rel); else O.dp->send(Canary(val, 0), rel); }); CHECK(t, "unbound-send", "sending on unbound out%d was accepted", O.id); return; }
        uint64_t s = ++serial; bool expect_throw = false; int ph = curphase();
        c.log("t%lu send out%d #%lu=%ld +%lu", (ul)now(), O.id, (ul)s, (long)val, (ul)rel);
        // model: what send() must do, in binding order; a callback run by an immediate delivery sees only what was sent before it
        sends.emplace_back(); { Sending & S = sends.back(); S.serial = s; S.val = val; S.sig = O.sig;
        for (int b : O.bound) {
            In & I = *ins[b]; uint64_t tot = rel + I.delay;
            if (tot == 0 && I.phase < ph) { expect_throw = true; break; }
            if (tot == 0 && I.phase == ph) { S.steps.push_back({true, {b, O.id, now(), s, val, 0, true}}); continue; }
            S.steps.push_back({false, {b, O.id, now() + tot * clks[I.clk]->getPeriod(), s, val, 0, I.cont}});
            if (tot > 0xffffffffull) c.probe("delay beyond 32 bits");
        } }
        advance();
        bool t = refused([&] { if (O.sig) O.sp->send(rel); else O.dp->send(Canary(val, s), rel); });
        CHECK(t || sends.back().steps.empty(), "lost", "immediate data #%lu on out%d was not delivered", (ul)s, O.id); sends.pop_back();
        CHECK(t == expect_throw, expect_throw ? "late-accepted" : "refused", expect_throw ? "out%d sent with no delay into an earlier phase and was accepted" : "a legal send on out%d was refused", O.id);
    }
    struct Sending { uint64_t serial; int64_t val; bool sig; std::deque<std::pair<bool, Fly>> steps; };
    std::deque<Sending> sends;
    void advance() { Sending & S = sends.back();
        while (!S.steps.empty() && !S.steps.front().first) { Fly f = S.steps.front().second; S.steps.pop_front(); if (S.sig) ins[f.in]->sigfly.insert(f.tick); else { f.order = ++order; fly.push_back(f); } if (f.cont) cont_ticks.insert(f.tick); } }
    bool immediate(In & I, bool sig, uint64_t serial, int64_t val) {
        if (sends.empty()) return false; Sending & S = sends.back();
        if (S.sig != sig || S.steps.empty() || S.steps.front().second.in != I.id) return false;
        if (!sig) { if (S.serial != serial) return false; CHECK(S.val == val, "corrupt", "#%lu has value %ld, sent %ld", (ul)serial, (long)val, (long)S.val); }
        S.steps.pop_front(); c.probe("immediate delivery"); return true; }

    void doop(const Op & o, size_t b, int clk) {
        // args: o.a[b..]
        const std::string k = o.k.substr(2);
        if (k == "send" || k == "sig") { std::vector<Out *> cand; for (auto & O : outs) if (O->clk == clk && O->sig == (k == "sig")) cand.push_back(O.get());
            if (cand.empty()) return; Out & O = *cand[o.arg(b) % cand.size()]; 
            // an event may only drive a port in its own clock domain's cycles
            uint64_t rel = (uint64_t)o.arg(b + 2);
            if (o.k[0] == 'h') { // from a port callback: only sends the declared precedences allow
                int ph = curphase(); for (int x : O.bound) { In & I = *ins[x]; if (rel + I.delay == 0 && I.phase <= ph) { rel = 1; } } }
            send(O, o.arg(b + 1), rel); }
        else if (k == "cancel") { if (ins.empty()) return; In & I = *ins[o.arg(b) % ins.size()]; if (I.sig) return; uint32_t n = 0; int how = (int)o.arg(b + 1) % 3; int64_t v = o.arg(b + 2);
            for (size_t i = 0; i < fly.size();) if (fly[i].in == I.id && (how == 0 || fly[i].val == v)) { fly.erase(fly.begin() + i); ++n; } else ++i;
            uint32_t g = how == 0 ? I.dp->cancel() : how == 1 ? I.dp->cancelIf(Canary(v, 0)) : I.dp->cancelIf([v](const Canary & x) { return x.val == v; });
            c.log("t%lu in%d cancel%d -> %u", (ul)now(), I.id, how, g); uint32_t own = I.dlv && (how == 0 || I.dlv_val == v); CHECK(g >= n && g <= n + own, "cancel-count", "in%d cancelled %u of %u payloads in flight", I.id, g, n); if (n) c.probe("cancelled in flight", n); }
        else if (k == "ocancel") { if (outs.empty()) return; Out & O = *outs[o.arg(b) % outs.size()]; if (O.sig) return; for (int x : O.bound) if (ins[x]->nout > 1) return;
            uint32_t n = 0; int how = (int)o.arg(b + 1) % 3; int64_t v = o.arg(b + 2);
            for (size_t i = 0; i < fly.size();) if (fly[i].out == O.id && (how == 0 || fly[i].val == v)) { fly.erase(fly.begin() + i); ++n; } else ++i;
            uint32_t g = how == 0 ? O.dp->cancel() : how == 1 ? O.dp->cancelIf(Canary(v, 0)) : O.dp->cancelIf([v](const Canary & x) { return x.val == v; });
            c.log("t%lu out%d cancel%d -> %u", (ul)now(), O.id, how, g); uint32_t own = 0; for (int x : O.bound) own += ins[x]->dlv && (how == 0 || ins[x]->dlv_val == v); CHECK(g >= n && g <= n + own, "cancel-count", "out%d cancelled %u of %u payloads in flight", O.id, g, n); if (n) c.probe("cancelled in flight", n); }
        else if (k == "driven") {
            uint64_t rel = (uint64_t)o.arg(b + 2);
            if (o.arg(b + 1) & 1) { if (ins.empty()) return; In & I = *ins[o.arg(b) % ins.size()]; if (I.sig) return; Tick t = now() + rel * clks[I.clk]->getPeriod(); bool e = false, a = false; for (auto & f : fly) if (f.in == I.id) { a = true; e = e || f.tick == t; }
                CHECK(I.dp->isDriven(rel) == e, "is-driven", "in%d isDriven(%lu) says %d", I.id, (ul)rel, !e); CHECK(I.dlv || I.dp->isDriven() == a, "is-driven", "in%d isDriven() says %d", I.id, !a); }
            else { if (outs.empty()) return; Out & O = *outs[o.arg(b) % outs.size()]; if (O.sig) return; bool e = false, a = false; for (auto & f : fly) if (std::count(O.bound.begin(), O.bound.end(), f.in)) { a = true; e = e || f.tick == now() + rel * clks[O.clk]->getPeriod(); }
                CHECK(O.dp->isDriven(rel) == e, "is-driven", "out%d isDriven(%lu) says %d", O.id, (ul)rel, !e); bool own = false; for (int x : O.bound) own = own || ins[x]->dlv; CHECK(own || O.dp->isDriven() == a, "is-driven", "out%d isDriven() says %d", O.id, !a); }
            c.log("t%lu driven query", (ul)now()); }
        else if (k == "data") { if (ins.empty()) return; In & I = *ins[o.arg(b) % ins.size()]; if (I.sig) return; int how = (int)o.arg(b + 1) % 4;
            CHECK(I.dp->dataReceived() == I.has, "container", "in%d dataReceived() says %d", I.id, !I.has);
            CHECK(I.dp->dataReceivedThisCycle() == (I.has && I.at == now()), "container", "in%d dataReceivedThisCycle() is wrong", I.id);
            if (!I.has) { CHECK(refused([&] { I.dp->peekData(); }), "container", "peekData without data was accepted"); return; }
            CHECK(I.dp->getReceivedTimeStamp() == clks[I.clk]->getCycle(I.at), "container", "in%d time stamp %lu, received at cycle %lu", I.id, (ul)I.dp->getReceivedTimeStamp(), (ul)clks[I.clk]->getCycle(I.at));
            if (how == 0) { Canary d = I.dp->pullData(); CHECK(d.serial == I.ser && d.val == I.val, "container", "in%d pulled #%lu, last received #%lu", I.id, (ul)d.serial, (ul)I.ser); I.has = false; }
            else if (how == 1) { I.dp->clearData(); I.has = false; }
            else CHECK(I.dp->peekData().serial == I.ser, "container", "in%d peeked #%lu, last received #%lu", I.id, (ul)I.dp->peekData().serial, (ul)I.ser);
            c.log("t%lu in%d data %d", (ul)now(), I.id, how); }
    }
    void go() {
        build();
        bool boom = false; std::string msg;
        try {
            for (auto & o : plan.ops) if (o.k == "run") { sched->run((Tick)std::max<int64_t>(1, o.arg(0)), true, false); if (stored) throw *stored; overdue_end(false); }
            if (plan.c("tail") == 0) { sched->run(sparta::Scheduler::INDEFINITE, false, false); if (stored) throw *stored;
                Tick last = cont_ticks.empty() ? 0 : *cont_ticks.rbegin();
                for (auto & f : fly) if (f.tick <= last) FAIL("lost", "data #%lu due at tick %lu was not delivered although the simulation had work until %lu", (ul)f.serial, (ul)f.tick, (ul)last);
                for (auto & I : ins) for (Tick t : I->sigfly) if (t <= last) FAIL("lost", "a signal to in%d due at tick %lu was not delivered although the simulation had work until %lu", I->id, (ul)t, (ul)last);
                c.probe("run to completion"); if (!fly.empty()) c.probe("non-continuing data left");
            } else { Tick far = 0; for (auto & f : fly) far = std::max(far, f.tick); for (Tick t : cont_ticks) far = std::max(far, t); for (auto & I : ins) for (Tick t : I->sigfly) far = std::max(far, t);
                // callbacks may add more, so repeat
                for (int i = 0; i < 40 && far + 1 > now(); ++i) { sched->run(far + 1 - now(), true, false); if (stored) throw *stored; overdue_end(true); for (auto & f : fly) far = std::max(far, f.tick); for (auto & I : ins) for (Tick t : I->sigfly) far = std::max(far, t); } }
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (stored) throw *stored;
        CHECK(!boom, "exception", "unexpected exception: %.300s", msg.c_str());
        c.sim_time += now();
    }
    void overdue_end(bool) { for (auto & f : fly) CHECK(f.tick >= now(), "lost", "data #%lu due at tick %lu was not delivered by %lu", (ul)f.serial, (ul)f.tick, (ul)now()); for (auto & I : ins) for (Tick t : I->sigfly) CHECK(t >= now(), "lost", "a signal due at tick %lu was not delivered by %lu", (ul)t, (ul)now()); }
};

int64_t pick_delay(Rng & r) { int x = (int)r.below(20); return x < 7 ? 0 : x < 13 ? 1 : x < 18 ? r.range(2, 4) : x < 19 ? r.range(5, 30) : r.p(15) ? ((int64_t)1 << 32) + r.range(0, 2) : r.range(1, 300); }
void pgen(Rng & r, Plan & p, bool th) {
    p.cfg["p"] = r.range(1, 3); p.cfg["q"] = r.range(1, 3); p.cfg["tail"] = r.range(0, 1);
    int ni = (int)r.range(1, 4), no = (int)r.range(1, 4), sigpct = r.p(50) ? 0 : (int)r.range(20, 80), c1 = r.p(60) ? 0 : 40;
    for (int i = 0; i < ni; ++i) p.add(r.p(sigpct) ? "sin" : "in", {r.w({5, 4, 2}) == 0 ? 0 : r.range(0, 3), r.p(50) ? -1 : r.range(0, 3), r.p(c1), 1, r.p(30)});
    for (int i = 0; i < no; ++i) p.add(r.p(sigpct) ? "sout" : "out", {r.p(80), r.p(c1), r.p(15)});
    int nb = (int)r.range(2, 10); for (int i = 0; i < nb; ++i) p.add("bind", {r.range(0, no - 1), r.range(0, ni - 1), r.range(0, 3)});
    int span = (int)(r.p(50) ? r.range(1, 6) : r.range(4, 40));
    auto act = [&](std::string pre, std::vector<int64_t> h) {
        auto put = [&](const char * k, std::vector<int64_t> a) { std::vector<int64_t> v = h; v.insert(v.end(), a.begin(), a.end()); p.add((pre + k).c_str(), v); };
        switch (r.w({60, 25, 5, 3, 7, 7})) {
        case 0: put("send", {r.range(0, 3), r.range(0, 4), pick_delay(r)}); break; case 1: put("sig", {r.range(0, 3), 0, pick_delay(r)}); break;
        case 2: put("cancel", {r.range(0, 3), r.range(0, 2), r.range(0, 4)}); break; case 3: put("ocancel", {r.range(0, 3), r.range(0, 2), r.range(0, 4)}); break;
        case 4: put("driven", {r.range(0, 3), r.range(0, 1), r.range(0, 3)}); break; default: put("data", {r.range(0, 3), r.range(0, 3)}); } };
    int na = (int)r.range(2, th ? 60 : 30); std::vector<int> aset; for (int i = 0, k = (int)r.range(1, 4); i < k; ++i) aset.push_back((int)r.below(4) + (r.p(c1) ? 4 : 0));
    for (int i = 0; i < na; ++i) act("a.", {r.range(0, span), r.pick(aset)});
    int nh = r.p(40) ? 0 : (int)r.range(1, 15); for (int i = 0; i < nh; ++i) act("h.", {r.range(0, 3)});
    int nr = (int)r.range(0, 4); for (int i = 0; i < nr; ++i) p.add("run", {r.range(1, 12)});
}
// ------------------------------------------------------------------------------------------------ C11
struct SyWorld : PBase {
    using PBase::PBase;
    struct Fly { uint64_t serial; int64_t val; Tick arrive; };   // arrive: exact (open links) or earliest (links with back-pressure)
    struct Link { SyWorld * w; int id, a, b; bool bp; int phase; Tick recv; sparta::Clock::Cycle dcyc; std::unique_ptr<sparta::SyncOutPort<Canary>> out; std::unique_ptr<sparta::SyncInPort<Canary>> in;
        std::deque<Fly> fly; Tick prev = ~0ull; Tick sent_at = ~0ull; Tick last_del = ~0ull; bool ready = true, prev_ready = true; Tick set_at = 0; Tick free_since = 0; uint64_t delivered = 0;
        void data(const Canary & d) { w->on_data(*this, d); } };
    struct Actor { SyWorld * w; int clk; int ph; std::unique_ptr<sparta::PhasedPayloadEvent<uint32_t>> ev; void fire(const uint32_t & i) { w->on_act(*this, i); } };
    std::vector<std::unique_ptr<sparta::TreeNode>> nodes; std::vector<std::unique_ptr<sparta::PortSet>> ps; std::vector<std::unique_ptr<sparta::EventSet>> es;
    std::vector<std::unique_ptr<Link>> links; std::vector<std::unique_ptr<Actor>> acts; std::vector<Op> aops; std::vector<std::pair<int, int>> prec;
    uint64_t serial = 0;
    Tick P(int k) { return clks[k]->getPeriod(); }
    bool latched(Link & L) { return L.set_at == now() ? L.prev_ready : L.ready; }
    static Tick up(Tick t, Tick p) { return (t + p - 1) / p * p; }

    void build() {
        sched.reset(new sparta::Scheduler()); cm.reset(new sparta::ClockManager(sched.get())); rtn.reset(new sparta::RootTreeNode("dstroot"));
        clks.push_back(cm->makeRoot(rtn.get()));
        for (auto & o : plan.ops) if (o.k == "clk" && clks.size() < 4) {
            if (plan.c("mhz")) clks.push_back(cm->makeClock("c" + std::to_string(clks.size()), clks[0], (double)std::max<int64_t>(1, o.arg(2))));
            else clks.push_back(cm->makeClock("c" + std::to_string(clks.size()), clks[0], (uint32_t)std::max<int64_t>(1, o.arg(0)), (uint32_t)std::max<int64_t>(1, o.arg(1))));
        }
        cm->normalize(); rtn->setClock(clks[0].get());
        for (size_t i = 0; i < clks.size(); ++i) { nodes.emplace_back(new sparta::TreeNode(rtn.get(), "n" + std::to_string(i), "n")); nodes.back()->setClock(clks[i].get());
            ps.emplace_back(new sparta::PortSet(nodes.back().get())); es.emplace_back(new sparta::EventSet(nodes.back().get())); }
        for (size_t k = 0; k < clks.size(); ++k) for (int p = 0; p < 4; ++p) {
            acts.emplace_back(new Actor{this, (int)k, (int)ACTPH[p], {}}); Actor * A = acts.back().get();
            A->ev.reset(new sparta::PhasedPayloadEvent<uint32_t>(es[k].get(), "act" + std::to_string(p), ACTPH[p], CREATE_SPARTA_HANDLER_WITH_DATA_WITH_OBJ(Actor, A, fire, uint32_t)));
        }
        size_t base = plan.c("mhz") ? 1 : 0;     // the root has no frequency of its own then
        size_t nk = clks.size() - base; if (!nk) return;
        for (auto & o : plan.ops) if (o.k == "link" && links.size() < 4) {
            links.emplace_back(new Link); Link & L = *links.back(); L.w = this; L.id = (int)links.size() - 1; L.a = (int)(base + o.arg(0) % nk); L.b = (int)(base + o.arg(1) % nk);
            L.bp = o.arg(4) != 0 && P(L.a) == P(L.b); if (L.bp) L.b = L.a;
            int dk = (int)o.arg(2) % 8;   // receive delay: 0,1,2,5 cycles or 0.5,1.25,2.75 cycles
            static const double dl[] = {0, 1, 2, 5, 0.5, 1.25, 2.75, 1}; double d = dl[dk]; if (L.bp) d = dk & 1;
            bool integral = d == (double)(uint64_t)d;
            L.phase = (int)(d == 0 ? SchedulingPhase::Tick : ACTPH[o.arg(3) % 3]);
            std::string n = std::to_string(L.id);
            L.out.reset(new sparta::SyncOutPort<Canary>(ps[L.a].get(), "out" + n, clks[L.a].get()));
            L.in.reset(new sparta::SyncInPort<Canary>(ps[L.b].get(), "in" + n, clks[L.b].get(), (SchedulingPhase)L.phase));
            L.in->registerConsumerHandler(CREATE_SPARTA_HANDLER_WITH_DATA_WITH_OBJ(Link, &L, data, Canary));
            if (!(d == 0 && (o.arg(5) & 1))) { if (integral) L.in->setPortDelay((sparta::Clock::Cycle)d); else L.in->setPortDelay(d); }
            L.recv = (Tick)(d * (double)P(L.b));
            // only the phases that can reach a zero-delay port drive it
            if (L.bp && o.arg(6)) { L.in->setInitialReadyState(false); L.ready = L.prev_ready = false; }
        }
        for (size_t i = 1; i < links.size(); ++i) if (plan.c("prec") && links[i - 1]->phase == links[i]->phase && links[i - 1]->b == links[i]->b) { links[i - 1]->in->precedes(*links[i]->in); prec.push_back({(int)i - 1, (int)i}); }
        for (auto & L : links) sparta::bind(*L->out, *L->in);
        rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize();
        std::map<std::pair<int, uint64_t>, bool> dummy;
        for (auto & o : plan.ops) if (o.k[0] == 'a' && o.k[1] == '.' && !links.empty()) {
            Link & L = *links[o.arg(1) % links.size()]; int k = o.k == "a.ready" ? L.b : L.a; int ph = (int)o.arg(2) & 3;
            if (o.k != "a.ready") while ((int)ACTPH[ph] > L.phase && ph) --ph;     // a zero-delay send must not go back to an earlier phase
            uint32_t i = (uint32_t)aops.size(); aops.push_back(o); acts[k * 4 + ph]->ev->preparePayload(i)->schedule((sparta::Clock::Cycle)o.arg(0)); }
    }
    void overdue(Link & L) {
        for (auto & f : L.fly) { if (!L.bp) CHECK(f.arrive >= now(), "lost", "link%d: #%lu should have arrived at tick %lu, now it is %lu", L.id, (ul)f.serial, (ul)f.arrive, (ul)now()); }
        if (L.bp && !L.fly.empty() && latched(L)) {
            Tick limit = std::max(L.free_since, L.fly.front().arrive) + 2 * P(L.b) + 2 * L.recv;
            CHECK(now() <= limit, "stuck", "link%d: #%lu was sent for tick %lu, the receiver is ready since %lu, but at %lu it has not been delivered", L.id, (ul)L.fly.front().serial, (ul)L.fly.front().arrive, (ul)L.free_since, (ul)now());
        }
    }
    void all_overdue() { for (auto & L : links) overdue(*L); }
    void on_data(Link & L, const Canary & d) {
        all_overdue(); d.check("data delivered dead"); Canary::require(c); c.nontrivial = true; ++L.delivered;
        c.log("t%lu link%d delivers #%lu=%ld", (ul)now(), L.id, (ul)d.serial, (long)d.val);
        CHECK(!L.fly.empty(), "not-sent", "link%d delivered #%lu, nothing is in flight", L.id, (ul)d.serial);
        Fly f = L.fly.front();
        CHECK(f.serial == d.serial, "reordered", "link%d delivered #%lu, the oldest in flight is #%lu", L.id, (ul)d.serial, (ul)f.serial);
        CHECK(f.val == d.val, "corrupt", "link%d: #%lu has value %ld, sent %ld", L.id, (ul)d.serial, (long)d.val, (long)f.val);
        CHECK(now() % P(L.b) == 0, "off-edge", "link%d delivered at tick %lu, receiver period %lu", L.id, (ul)now(), (ul)P(L.b));
        CHECK(L.last_del == ~0ull || now() > L.last_del, "two-per-cycle", "link%d delivered twice in tick %lu", L.id, (ul)now());
        CHECK((int)sched->getCurrentSchedulingPhase() == L.phase, "wrong-phase", "link%d delivered in phase %d", L.id, (int)sched->getCurrentSchedulingPhase());
        if (!L.bp) CHECK(now() == f.arrive, "wrong-tick", "link%d: #%lu arrived at tick %lu, expected %lu", L.id, (ul)f.serial, (ul)now(), (ul)f.arrive);
        else { CHECK(now() >= f.arrive, "wrong-tick", "link%d: #%lu arrived at tick %lu before its earliest tick %lu", L.id, (ul)f.serial, (ul)now(), (ul)f.arrive);
            CHECK(latched(L), "not-ready", "link%d delivered #%lu at tick %lu although the receiver is not ready", L.id, (ul)f.serial, (ul)now());
            if (now() > f.arrive) c.probe("recirculated data delivered"); }
        for (auto & q : prec) if (q.first == L.id) { Link & M = *links[q.second]; CHECK(M.last_del != now(), "precedence", "link%d delivered before link%d in tick %lu", M.id, L.id, (ul)now()); }
        L.fly.pop_front(); L.last_del = now();
        CHECK(L.in->dataReceivedThisCycle() && L.in->peekData().serial == d.serial, "container", "link%d does not hold the delivered data", L.id);
    }
    void send(Link & L, int64_t v, uint64_t d, bool slide, bool api) {
        Tick arr = up(now() + d * P(L.a) + L.recv, P(L.b)); bool expect_throw = false;
        if (L.prev != ~0ull && arr <= L.prev) { if (slide) { arr = L.prev + P(L.b); c.probe("slid"); } else expect_throw = true; }
        uint64_t s = ++serial; size_t k = L.fly.size(); Tick prev = L.prev;
        c.log("t%lu link%d send #%lu=%ld +%lu slide=%d", (ul)now(), L.id, (ul)s, (long)v, (ul)d, slide);
        if (!expect_throw) { L.fly.push_back({s, v, arr}); L.prev = arr; }
        uint64_t ret = 0; (void)k; (void)prev;
        bool t = refused([&] { Canary x(v, s); ret = slide ? (api ? L.out->sendAndAllowSlide(x, d) : L.out->send(x, d, true)) : (d == 0 && api) ? L.out->send(x) : L.out->send(x, d); });
        CHECK(t == expect_throw, expect_throw ? "collision-accepted" : "refused", expect_throw ? "link%d accepted a second delivery for one receiver cycle" : "link%d refused a legal send", L.id);
        if (t) { c.probe("collision refused"); return; }
        CHECK(ret == arr - now(), "return", "link%d send returned %lu ticks, arrival is in %lu", L.id, (ul)ret, (ul)(arr - now()));
        L.sent_at = now();
    }
    void on_act(Actor & A, uint32_t i) {
        all_overdue(); const Op & o = aops[i]; Link & L = *links[o.arg(1) % links.size()];
        if (o.k == "a.ready") {
            if (!L.bp || now() == 0) return;
            bool v = o.arg(3) & 1; if (L.set_at == now() && v != L.ready) { CHECK(refused([&] { L.in->setReady(v); }), "double-ready", "link%d accepted two different ready values in one cycle", L.id); return; }
            c.log("t%lu link%d setReady %d", (ul)now(), L.id, v); L.in->setReady(v);
            if (L.set_at != now()) { L.prev_ready = L.ready; L.ready = v; L.set_at = now(); if (v && !L.prev_ready) L.free_since = now() + 1; if (!v) c.fault("receiver not ready"); }
            CHECK(L.in->getReady() == v, "ready", "link%d getReady() does not return what was set", L.id);
            return;
        }
        if (L.bp) {
            bool r = L.out->isReady(); c.log("t%lu link%d isReady %d", (ul)now(), L.id, r);
            bool must_not = (L.sent_at == now()) || (!latched(L) && (!L.fly.empty() || L.recv == 0));
            bool must = latched(L) && L.fly.empty() && L.sent_at != now() && L.last_del != now();
            if (must_not) CHECK(!r, "is-ready", "link%d isReady() at tick %lu although %s", L.id, (ul)now(), L.sent_at == now() ? "data was already sent in this cycle" : "the receiver is not ready and cannot buffer");
            if (must) CHECK(r, "is-ready", "link%d isReady() is false at tick %lu with a ready receiver and nothing in flight", L.id, (ul)now());
            if (L.recv == 0) CHECK(L.out->isReadyPS() == L.ready, "is-ready", "link%d isReadyPS() is not the receiver's state", L.id);
            if (r) { Tick arr = now() + L.recv; L.fly.push_back({++serial, o.arg(3), arr}); uint64_t ret = 0; uint64_t s = serial;
                c.log("t%lu link%d send #%lu", (ul)now(), L.id, (ul)s); Tick keep = L.sent_at; L.sent_at = now(); (void)keep;
                bool t = refused([&] { Canary x(o.arg(3), s); ret = L.out->send(x); });
                CHECK(!t, "refused", "link%d said it was ready at tick %lu and then refused to send", L.id, (ul)now()); CHECK(ret == L.recv, "return", "link%d send returned %lu ticks, expected %lu", L.id, (ul)ret, (ul)L.recv); }
            else c.probe("sender saw not ready");
            return;
        }
        uint64_t d = (uint64_t)o.arg(4); bool slide = (o.arg(5) & 1) && P(L.a) <= P(L.b);
        if (L.sent_at == now() && P(L.a) > P(L.b)) return;      // a slow sender sends once per cycle
        if (o.k == "a.next") { auto n = L.out->computeNextAvailableCycleForSend(d, 0); uint64_t cur = clks[L.a]->currentCycle(); c.log("t%lu link%d next available %lu", (ul)now(), L.id, (ul)n); CHECK(n >= cur, "next-available", "link%d: next available cycle %lu is in the past (%lu)", L.id, (ul)n, (ul)cur);
            bool free0 = L.prev == ~0ull || up(now() + d * P(L.a) + L.recv, P(L.b)) > L.prev; bool dr = L.out->isDriven(d); CHECK(dr == !free0, "is-driven", "link%d: isDriven(%lu) is %d", L.id, (ul)d, dr); return; }
        if (o.k == "a.send") {
            if (L.prev != ~0ull && d == 0 && P(L.a) == P(L.b)) { bool r = L.out->isReady(); bool e = up(now() + L.recv, P(L.b)) > L.prev; CHECK(r == e, "is-ready", "link%d isReady() is %d at tick %lu, last arrival at %lu", L.id, r, (ul)now(), (ul)L.prev); }
            send(L, o.arg(3), d, slide, o.arg(5) & 2);
        }
        (void)A;
    }
    void go() {
        build(); if (links.empty()) return;
        bool boom = false; std::string msg;
        try {
            for (auto & o : plan.ops) if (o.k == "run") { sched->run((Tick)std::max<int64_t>(1, o.arg(0)), true, false); if (stored) throw *stored; }
            Tick far = now(); for (auto & o : aops) { Link & L = *links[o.arg(1) % links.size()]; far = std::max<Tick>(far, (Tick)o.arg(0) * P(o.k == "a.ready" ? L.b : L.a)); }
            sched->run(far + 1 - now() + 1, true, false); if (stored) throw *stored;
            // faults stop: every receiver becomes ready, everything must arrive
            Tick worst = 0; for (auto & L : links) { if (L->bp && !L->ready) { if (now() == 0) continue; if (L->set_at == now()) sched->run(1, true, false); L->in->setReady(true); L->prev_ready = L->ready; L->ready = true; L->set_at = now(); L->free_since = now() + 1; }
                worst = std::max(worst, (L->fly.empty() ? 0 : L->fly.back().arrive > now() ? L->fly.back().arrive - now() : 0) + (L->fly.size() + 2) * (P(L->b) + L->recv)); }
            sched->run(worst + 20, true, false); if (stored) throw *stored;
            for (auto & L : links) CHECK(L->fly.empty(), "lost", "link%d: %zu payloads (first #%lu) never arrived although the receiver is ready", L->id, L->fly.size(), (ul)L->fly.front().serial);
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (stored) throw *stored;
        CHECK(!boom, "exception", "unexpected exception: %.300s", msg.c_str());
        c.sim_time += now();
    }
};
void sygen(Rng & r, Plan & p, bool th) {
    p.cfg["mhz"] = r.p(30); p.cfg["prec"] = r.p(50);
    int nk = (int)r.range(1, 3); for (int i = 0; i < nk; ++i) p.add("clk", {r.range(1, 5), r.range(1, 5), r.pick(std::vector<int64_t>{1000, 500, 2000, 333, 750, 1600, 10, 999})});
    int nl = (int)r.range(1, 3); bool bp = r.p(45);
    for (int i = 0; i < nl; ++i) { int a = (int)r.below(4), b = bp && r.p(80) ? a : (int)r.below(4); p.add("link", {a, b, r.range(0, 7), r.range(0, 2), bp && r.p(85), r.range(0, 1), r.p(15)}); }
    int span = (int)(r.p(60) ? r.range(2, 8) : r.range(5, 40)); int na = (int)r.range(3, th ? 60 : 35); int rdy = bp ? 25 : 0, phs = (int)r.range(1, 4);
    for (int i = 0; i < na; ++i) {
        if (r.p(rdy)) p.add("a.ready", {r.range(1, span), r.range(0, nl - 1), r.below(phs) ? r.range(0, 3) : 2, r.range(0, 1)});
        else p.add(r.p(12) ? "a.next" : "a.send", {r.range(0, span), r.range(0, nl - 1), r.range(0, 3), r.range(0, 9), r.p(60) ? 0 : r.p(80) ? r.range(1, 4) : r.range(5, 20), r.range(0, 3)});
    }
    for (int i = 0, n = (int)r.range(0, 4); i < n; ++i) p.add("run", {r.range(1, 15)});
}
// ------------------------------------------------------------------------------------------------ C09
struct CkWorld : PBase {
    using PBase::PBase;
    struct Ck { CkWorld * w; int id; uint64_t num, den; Tick period; std::unique_ptr<sparta::TreeNode> node; std::unique_ptr<sparta::EventSet> es; std::unique_ptr<sparta::PhasedPayloadEvent<uint64_t>> ev; std::multiset<Tick> due;
        void fire(const uint64_t & d) { w->on_fire(*this, d); } };
    std::vector<std::unique_ptr<Ck>> ck; std::deque<Op> hq; Tick elapsed = 0;
    static uint64_t gcd(uint64_t a, uint64_t b) { return b ? gcd(b, a % b) : a; }
    void build() {
        sched.reset(new sparta::Scheduler()); cm.reset(new sparta::ClockManager(sched.get())); rtn.reset(new sparta::RootTreeNode("dstroot"));
        clks.push_back(cm->makeRoot(rtn.get())); ck.emplace_back(new Ck{this, 0, 1, 1});
        bool mhz = plan.c("mhz") != 0; std::vector<double> f(1, 0.0);
        for (auto & o : plan.ops) if (o.k == "clk" && clks.size() < 7) {
            int par = (int)(o.arg(0) % clks.size()); uint64_t p = (uint64_t)std::max<int64_t>(1, o.arg(1)), q = (uint64_t)std::max<int64_t>(1, o.arg(2)); std::string n = "c" + std::to_string(clks.size());
            if (mhz) { double fr = (double)std::max<int64_t>(1, o.arg(3)); clks.push_back(cm->makeClock(n, clks[par], fr)); f.push_back(fr); }
            else if (p == 1 && q == 1 && (o.arg(3) & 1)) clks.push_back(cm->makeClock(n, clks[par])); else clks.push_back(cm->makeClock(n, clks[par], (uint32_t)p, (uint32_t)q));
            ck.emplace_back(new Ck{this, (int)ck.size(), ck[par]->num * q, ck[par]->den * p}); uint64_t g = gcd(ck.back()->num, ck.back()->den); ck.back()->num /= g; ck.back()->den /= g;
        }
        uint32_t norm = cm->normalize(); rtn->setClock(clks[0].get()); (void)norm;
        uint64_t l = 1; for (auto & k : ck) l = l / gcd(l, k->den) * k->den;
        for (size_t i = 0; i < clks.size(); ++i) {
            Tick want = mhz ? (i ? (Tick)(1e6 / f[i]) : 1) : l * ck[i]->num / ck[i]->den; Tick got = clks[i]->getPeriod();
            if (!mhz) { CHECK(want == got, "period", "clock c%zu has period %lu, the ratios require %lu", i, (ul)got, (ul)want); }
            else if (i) { double e = (double)got * f[i] / 1e6; CHECK(e <= 1.0 + 1e-9 && (1e6 / f[i] - (double)got) < 1.0 + 1e-9, "period", "clock c%zu of %.1f MHz has period %lu", i, f[i], (ul)got); }
            ck[i]->period = got;
            ck[i]->node.reset(new sparta::TreeNode(rtn.get(), "n" + std::to_string(i), "n")); ck[i]->node->setClock(clks[i].get()); ck[i]->es.reset(new sparta::EventSet(ck[i]->node.get()));
            ck[i]->ev.reset(new sparta::PhasedPayloadEvent<uint64_t>(ck[i]->es.get(), "ev", ACTPH[plan.c("ph") & 3], CREATE_SPARTA_HANDLER_WITH_DATA_WITH_OBJ(Ck, ck[i].get(), fire, uint64_t)));
        }
        rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize();
        for (auto & o : plan.ops) if (o.k[0] == 'h') hq.push_back(o);
    }
    void look(const char * where) {
        Tick t = now();
        for (size_t i = 0; i < clks.size(); ++i) { auto & k = *clks[i]; Tick P = ck[i]->period;
            CHECK(k.getPeriod() == P, "period", "%s: the period of c%zu changed", where, i);
            CHECK(k.currentTick() == t && k.currentCycle() == t / P && k.getCycle(t) == t / P, "cycle", "%s: c%zu says cycle %lu at tick %lu, period %lu", where, i, (ul)k.currentCycle(), (ul)t, (ul)P);
            CHECK(k.isPosedge() == (t % P == 0), "posedge", "%s: c%zu isPosedge() is %d at tick %lu, period %lu", where, i, k.isPosedge(), (ul)t, (ul)P);
            CHECK(k.getTick((sparta::Clock::Cycle)(t / P + 3)) == (t / P + 3) * P, "tick", "%s: c%zu getTick is wrong", where, i);
            CHECK(k.getCyclesROCounter().get() == t / P, "counter", "%s: the cycle counter of c%zu is %lu at tick %lu", where, i, (ul)k.getCyclesROCounter().get(), (ul)t); }
    }
    void sch(Ck & k, uint64_t n) { Tick d = now() + n * k.period; k.due.insert(d); c.log("t%lu schedule c%d +%lu", (ul)now(), k.id, (ul)n); k.ev->preparePayload(d)->schedule(sparta::Clock::Cycle(n)); }
    void sch_by(Ck & k, uint64_t n, size_t by) { Tick d = now() + n * ck[by]->period; k.due.insert(d); c.log("t%lu schedule c%d +%lu of c%zu", (ul)now(), k.id, (ul)n, by); k.ev->preparePayload(d)->schedule(sparta::Clock::Cycle(n), clks[by].get()); }
    void on_fire(Ck & k, uint64_t d) {
        c.nontrivial = true; c.log("t%lu c%d fires", (ul)now(), k.id); look("handler");
        CHECK(d == now(), "wrong-tick", "event of c%d due at tick %lu fired at %lu", k.id, (ul)d, (ul)now());
        auto it = k.due.find(d); CHECK(it != k.due.end(), "not-scheduled", "event of c%d fired twice", k.id); k.due.erase(it);
        CHECK(sched->getElapsedTicks() <= now() + 1, "elapsed", "elapsed ticks %lu at tick %lu", (ul)sched->getElapsedTicks(), (ul)now());
        if (!hq.empty()) { Op o = hq.front(); hq.pop_front(); Ck & n = *ck[o.arg(0) % ck.size()];
            // an event of another clock is only scheduled from one of that clock's edges
            uint64_t dl = (uint64_t)o.arg(1); if (dl == 0) dl = 1;
            if (o.arg(2) % 3 == 2) sch_by(n, dl, o.arg(3) % ck.size()); else sch(n, dl);
            // the delay until a crossing lands on the destination's next edge
            if (now() % k.period == 0) { Tick sd = (Tick)(o.arg(1)) * k.period, dd = (Tick)o.arg(3) * n.period; Tick x = sparta::calculateClockCrossingDelay(sd, clks[k.id].get(), dd, clks[n.id].get());
                Tick a = now() + x; CHECK(a % n.period == 0 && a >= now() + sd + dd && a < now() + sd + dd + n.period, "crossing", "crossing from c%d to c%d at tick %lu takes %lu ticks", k.id, n.id, (ul)now(), (ul)x);
                if (a >= sd + dd) { Tick rv = sparta::calculateReverseClockCrossingDelay(a, sd, clks[k.id].get(), dd, clks[n.id].get()); CHECK(rv >= sd + dd && a >= rv && (a - rv) % k.period == 0 && a - rv >= now() && a - rv <= a - sd - dd && a - sd - dd - (a - rv) < k.period, "crossing", "reverse crossing is %lu", (ul)rv); } }
        }
    }
    void go() {
        build(); bool boom = false; std::string msg;
        try { look("start");
            for (auto & o : plan.ops) { if (o.k == "m") sch(*ck[o.arg(0) % ck.size()], (uint64_t)o.arg(1));
                else if (o.k == "run") { Tick n = (Tick)std::max<int64_t>(1, o.arg(0)); elapsed += n; sched->run(n, true, false); if (stored) throw *stored; look("after run");
                    CHECK(now() == elapsed, "time", "after running %lu ticks it is tick %lu", (ul)elapsed, (ul)now());
                    for (size_t i = 0; i < clks.size(); ++i) { CHECK(clks[i]->elapsedCycles() == sched->getElapsedTicks() / ck[i]->period, "elapsed", "c%zu elapsedCycles() is %lu after %lu ticks, period %lu", i, (ul)clks[i]->elapsedCycles(), (ul)sched->getElapsedTicks(), (ul)ck[i]->period);
                        for (Tick d : ck[i]->due) CHECK(d >= now(), "lost", "event of c%zu due at tick %lu did not fire by %lu", i, (ul)d, (ul)now()); } } }
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (stored) throw *stored;
        CHECK(!boom, "exception", "unexpected exception: %.300s", msg.c_str());
        c.sim_time += now();
    }
};
void ckgen(Rng & r, Plan & p, bool th) {
    p.cfg["mhz"] = r.p(20); p.cfg["ph"] = r.range(0, 3);
    for (int i = 0, n = (int)r.range(0, 5); i < n; ++i) p.add("clk", {r.range(0, 6), r.range(1, r.p(70) ? 4 : 12), r.range(1, r.p(70) ? 4 : 12), r.pick(std::vector<int64_t>{1000, 500, 2000, 333, 750, 1600, 10, 999, 64, 3200, 1250})});
    for (int i = 0, n = (int)r.range(2, th ? 40 : 20); i < n; ++i) { if (r.p(60)) p.add("m", {r.range(0, 6), r.range(0, 6)}); else p.add("run", {r.p(70) ? r.range(1, 30) : r.range(1, 3000)}); }
    p.add("run", {r.range(1, 500)});
    for (int i = 0, n = (int)r.range(0, 40); i < n; ++i) p.add("h", {r.range(0, 6), r.range(0, 5), r.range(0, 2), r.range(0, 4)});
}
const char * REAL = "sparta::Scheduler, Clock, ClockManager, PayloadEvent, UniqueEvent, Port, PortSet, DataPort, SignalPort, SyncPort, DataContainer, DAG, tree nodes: all shipped code";
Register r9([] { Harness h; h.property = "C09"; h.technique = "deterministic simulation of random clock trees: seeded event schedules over several clock domains, checked at every firing and run boundary against exact rational arithmetic";
    h.rule = "1-6 clocks in a random tree (ratios or frequencies), events scheduled on one clock from handlers on another, run in random segments; non-trivial: an event fired"; h.measure = "FNV hash of the run's complete event log"; h.real = REAL; h.stub = "event handlers (scripted by the plan)"; h.assumptions = {"ratios small enough for a 32-bit period"};
    h.quick_runs = 30000; h.thorough_runs = 1000000; h.gen = ckgen; h.run = runWorld<CkWorld>; return h; }());
Register r10([] { Harness h; h.property = "C10"; h.technique = "deterministic simulation of units connected by data and signal ports: seeded send/cancel schedules from several phases and from port callbacks against an in-flight model";
    h.rule = "1-4 in ports and 1-4 out ports, randomly bound, driven by producers in up to four phases and by port callbacks; non-trivial: something was delivered"; h.measure = "FNV hash of the run's complete event log"; h.real = REAL; h.stub = "producers and consumers (scripted by the plan)"; h.assumptions = {"producers are registered with their out ports as the documentation requires"};
    h.quick_runs = 20000; h.thorough_runs = 600000; h.gen = pgen; h.run = runWorld<PWorld>; return h; }());
Register r11([] { Harness h; h.property = "C11"; h.technique = "deterministic simulation of clock-crossing links: seeded sends, slides and receiver stalls against an exact arrival model";
    h.rule = "1-3 links between up to 4 clock domains; open links take delayed and sliding sends, links with back-pressure take sends whenever isReady() while the receiver toggles its readiness; non-trivial: something was delivered"; h.measure = "FNV hash of the run's complete event log"; h.real = REAL; h.stub = "sender and receiver units (scripted by the plan)"; h.assumptions = {"back-pressure is used with equal clocks and a delay of at most one cycle, as the code asserts", "a slow sender slides at most once per own cycle"};
    h.quick_runs = 20000; h.thorough_runs = 600000; h.gen = sygen; h.run = runWorld<SyWorld>; return h; }());
} // namespace
