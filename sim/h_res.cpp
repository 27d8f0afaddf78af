// C12: Pipe and SharedData.  C13: Pipeline.  C15: Scoreboard.  (C14, the containers, is h_cont.cpp.)
#include "lane.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/resources/Pipe.hpp"
#include "sparta/resources/SharedData.hpp"
#include "sparta/resources/Pipeline.hpp"
#include "sparta/resources/Scoreboard.hpp"
#include "sparta/simulation/ResourceFactory.hpp"
#include "sparta/simulation/ResourceTreeNode.hpp"
#include "sparta/simulation/Unit.hpp"
#include "sparta/statistics/StatisticSet.hpp"

namespace {
// ------------------------------------------------------------------------------------------------ C12
struct PipeWorld : PBase {
    using PBase::PBase;
    typedef Lane<PipeWorld> L;
    struct PM { std::unique_ptr<sparta::Pipe<Canary>> p; uint32_t n; bool own = false; std::vector<int64_t> s; int64_t app = -1; uint64_t shifted = 0; L * l; bool started = false; };
    struct SM { std::unique_ptr<sparta::SharedData<Canary>> d; std::unique_ptr<sparta::SharedData<Canary, true>> m; int64_t ps = -1, ns = -1; bool pend = false; uint64_t pend_cyc = 0; L * l; };
    std::vector<std::unique_ptr<L>> lanes; std::vector<std::unique_ptr<PM>> pipes; std::vector<std::unique_ptr<SM>> shs; std::vector<Op> ops; int64_t nextv = 0; uint64_t events = 0;

    // time has reached the present cycle: in a self-updating pipe everything moved one stage per cycle
    void sync(PM & P) { uint64_t t = P.l->cycle(); while (P.shifted < t) { ++P.shifted; if (P.own) shift(P); } }
    void shift(PM & P) { for (size_t i = P.n; i-- > 1;) P.s[i] = P.s[i - 1]; P.s[0] = P.app; P.app = -1; }
    void sync(SM & S) { if (S.pend && S.l->cycle() >= S.pend_cyc) { S.pend = false; S.ps = S.ns; S.ns = -1; } }
    void look(PM & P, const char * w) {
        sync(P); auto & p = *P.p; uint32_t n = 0;
        for (uint32_t i = 0; i < P.n; ++i) { bool v = P.s[i] >= 0; n += v;
            CHECK(p.isValid(i) == v, v ? "pipe-lost" : "pipe-ghost", "%s: stage %u of a %u-stage pipe is %s at cycle %lu", w, i, P.n, v ? "empty" : "occupied", (ul)P.l->cycle());
            if (v) CHECK(p.read(i).val == P.s[i] && p.read(i).alive(), "pipe-value", "%s: stage %u holds %ld instead of %ld", w, i, (long)p.read(i).val, (long)P.s[i]);
            else if (mix64(i + 31 * events++) % 64 == 0) CHECK(refused([&] { p.read(i); }), "pipe-read", "%s: reading empty stage %u was accepted", w, i); }
        CHECK(p.numValid() == n && p.size() == n && p.empty() == (n == 0), "pipe-count", "%s: numValid() is %u with %u valid stages", w, p.numValid(), n);
        CHECK(p.isAppended() == (P.app >= 0), "pipe-append", "%s: isAppended() is %d", w, p.isAppended());
        if (P.app >= 0) CHECK(p.readAppendedData().val == P.app, "pipe-append", "%s: appended data differs", w);
        CHECK(p.isAnyValid() == (n > 0 || P.app >= 0), "pipe-any", "%s: isAnyValid() is %d with %u valid stages", w, p.isAnyValid(), n);
        CHECK(p.isLastValid() == (P.s[P.n - 1] >= 0), "pipe-last", "%s: isLastValid() is wrong", w);
        uint32_t i = 0; for (auto it = p.begin(); it != p.end(); ++it, ++i) { CHECK(i < P.n, "pipe-iter", "%s: iteration runs past the last stage", w); CHECK(it.isValid() == (P.s[i] >= 0), "pipe-iter", "%s: iterator at stage %u says %d", w, i, it.isValid()); if (it.isValid()) CHECK((*it).val == P.s[i], "pipe-iter", "%s: iterator at stage %u reads %ld", w, i, (long)(*it).val); }
        CHECK(i == P.n && p.capacity() == P.n, "pipe-iter", "%s: iteration saw %u of %u stages", w, i, P.n);
    }
    template<class D> void look1(SM & S, D & d, const char * w) {
        CHECK(d.isValid() == (S.ps >= 0), "shared-ps", "%s: the present value is %s at cycle %lu", w, S.ps >= 0 ? "gone" : "valid without having been written", (ul)S.l->cycle());
        if (S.ps >= 0) CHECK(d.read().val == S.ps, "shared-ps", "%s: present value %ld, expected %ld", w, (long)d.read().val, (long)S.ps); else if (mix64(events++) % 64 == 0) CHECK(refused([&] { d.read(); }), "shared-read", "%s: reading invalid data was accepted", w);
        CHECK(d.isValidNS() == (S.ns >= 0), "shared-ns", "%s: isValidNS() is %d", w, d.isValidNS());
        if (S.ns >= 0) CHECK(d.readNS().val == S.ns, "shared-ns", "%s: next value %ld, expected %ld", w, (long)d.readNS().val, (long)S.ns);
    }
    void look(SM & S, const char * w) { sync(S); if (S.d) look1(S, *S.d, w); else look1(S, *S.m, w); }
    void look(const char * w) { for (auto & P : pipes) if (at_edge(*P->l)) look(*P, w); for (auto & S : shs) if (at_edge(*S->l)) look(*S, w); }
    // the Update phase of this tick is over for every lane (drivers run later), so any lane may be examined
    bool at_edge(L &) { return true; }

    template<class D> void shop(SM & S, D & d, int code, int64_t v) {
        switch (code) {
        case 0: case 1: case 2: if (code == 2) { Canary t(v); d.write(std::move(t)); } else d.write(Canary(v)); S.ns = v; if (S.d && !S.pend) { S.pend = true; S.pend_cyc = S.l->cycle() + 1; } break;
        case 3: d.writePS(Canary(v)); S.ps = v; break;
        case 4: d.clear(); S.ps = S.ns = -1; break;
        case 5: d.clearNS(); S.ns = -1; break;
        case 6: d.clearPS(); S.ps = -1; break;
        case 7: if (S.ns >= 0) { d.accessNS().val = v; S.ns = v; } break;
        case 8: if (S.ps >= 0) { d.access().val = v; S.ps = v; } break;
        }
    }
    void doop(const Op & o, L & l) {
        int64_t v = ++nextv; int code = (int)o.arg(2);
        if (o.k == "s") { std::vector<SM *> cand; for (auto & S : shs) if (S->l == &l) cand.push_back(S.get()); if (cand.empty()) return; SM & S = *cand[o.arg(3) % cand.size()]; sync(S);
            c.log("c%lu sh op %d", (ul)l.cycle(), code); if (code == 9) { if (S.m) { S.m->update(); S.ps = S.ns; S.ns = -1; } } else if (S.d) shop(S, *S.d, code, v); else shop(S, *S.m, code, v); return; }
        std::vector<PM *> cand; for (auto & P : pipes) if (P->l == &l) cand.push_back(P.get()); if (cand.empty()) return; PM & P = *cand[o.arg(3) % cand.size()]; sync(P); auto & p = *P.p;
        uint32_t st = (uint32_t)(o.arg(4) % P.n); c.log("c%lu pipe op %d stage %u", (ul)l.cycle(), code, st);
        switch (code) {
        case 0: case 1: { bool full = P.app >= 0; bool t = refused([&] { if (code) { Canary x(v); p.append(std::move(x)); } else p.push_front(Canary(v)); }); CHECK(t == full, full ? "double-append" : "refused", full ? "a second append in one cycle was accepted" : "an append was refused"); if (!t) P.app = v; break; }
        case 2: p.writePS(st, Canary(v)); P.s[st] = v; break;
        case 3: { bool ok = P.s[st] >= 0; bool t = refused([&] { p.invalidatePS(st); }); CHECK(t == !ok, "invalidate", "invalidatePS of %s stage was %s", ok ? "a valid" : "an empty", t ? "refused" : "accepted"); P.s[st] = -1; break; }
        case 4: p.flushPS(st); P.s[st] = -1; break;
        case 5: p.flushAppend(); P.app = -1; break;
        case 6: p.flushAll(); P.app = -1; for (auto & x : P.s) x = -1; break;
        case 7: { int64_t m = o.arg(5, 2); if (o.arg(4) & 1) { p.flushIf([&](const Canary & x) { return x.val % m == 0; }); if (P.app % m == 0) P.app = -1; for (auto & x : P.s) if (x >= 0 && x % m == 0) x = -1; }
            else { std::vector<int64_t> cs; for (auto x : P.s) if (x >= 0) cs.push_back(x); if (P.app >= 0) cs.push_back(P.app); int64_t k = cs.empty() ? -5 : cs[m % cs.size()]; p.flushIf(Canary(k)); if (P.app == k) P.app = -1; for (auto & x : P.s) if (x == k) x = -1; } break; }
        case 8: { bool can = P.app >= 0 && P.s[0] < 0; bool r = p.shiftAppend(); CHECK(r == can, "shift-append", "shiftAppend() returned %d", r); if (can) { P.s[0] = P.app; P.app = -1; } break; }
        case 9: if (P.s[st] >= 0) { p.access(st).val = v; P.s[st] = v; } break;
        case 10: if (!P.own) { p.update(); shift(P); } else CHECK(refused([&] { p.update(); }), "manual-update", "update() of a self-updating pipe was accepted"); break;
        case 11: p.clear(); P.app = -1; for (auto & x : P.s) x = -1; break;
        case 12: p.performOwnUpdates(); if (!P.own) { P.own = true; P.shifted = l.cycle(); } break;
        }
    }
    void on_op(L & l, uint32_t i) { c.nontrivial = true; look("cycle"); doop(ops[i], l); look("after"); }
    void go() {
        int nl = (int)std::max<int64_t>(1, std::min<int64_t>(3, plan.c("lanes", 1))); lanes_build(*this, nl);
        for (auto & o : plan.ops) { L & l = *lanes[(size_t)o.arg(0) % lanes.size()];
            if (o.k == "pipe" && pipes.size() < 4) { pipes.emplace_back(new PM); PM & P = *pipes.back(); P.n = (uint32_t)std::max<int64_t>(1, o.arg(1)); P.p.reset(new sparta::Pipe<Canary>("pipe" + std::to_string(pipes.size()), o.arg(3) ? 1 + P.n / 2 : P.n, l.clk.get())); if (o.arg(3)) P.p->resize(P.n); P.s.assign(P.n, -1); P.l = &l; P.own = o.arg(2); if (P.own) P.p->performOwnUpdates(); }
            if (o.k == "sh" && shs.size() < 3) { shs.emplace_back(new SM); SM & S = *shs.back(); S.l = &l; S.ps = ++nextv; if (o.arg(1)) S.m.reset(new sparta::SharedData<Canary, true>("sh", l.clk.get(), Canary(S.ps))); else S.d.reset(new sparta::SharedData<Canary>("sh", l.clk.get(), Canary(S.ps))); } }
        rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize();
        bool boom = false; std::string msg;
        try {
            for (auto & o : plan.ops) if (o.k == "i" && o.arg(2) != 10) doop(Op{"p", {0, 0, o.arg(2), o.arg(3), o.arg(4), o.arg(5)}}, *lanes[(size_t)o.arg(0) % lanes.size()]);
            look("start");
            for (auto & o : plan.ops) if (o.k == "p" || o.k == "s") { ops.push_back(o); lanes[(size_t)o.arg(0) % lanes.size()]->at((uint64_t)(o.arg(1) / 5), (int)(o.arg(1) % 5), (uint32_t)ops.size() - 1); }
            uint64_t mx = 0; for (auto & o : plan.ops) if (o.k == "p" || o.k == "s") mx = std::max<uint64_t>(mx, (uint64_t)(o.arg(1) / 5)); Tick P = 1; for (auto & k : clks) P = std::max(P, (Tick)k->getPeriod());
            // run on in pieces so that quiet cycles are examined too
            for (Tick t = 0; t < (mx + 4) * P;) { Tick n = 1 + (Tick)plan.c("seg", 1) % 7; sched->run(n, true, false); t += n; if (stored) throw *stored; bool edge = true; for (auto & k : clks) if (sched->getCurrentTick() % k->getPeriod() == 0) edge = false; if (edge) look("between runs"); }
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (stored) throw *stored;
        CHECK(!boom, "exception", "unexpected exception: %.300s", msg.c_str());
        c.sim_time += now();
    }
};
void lgen(Rng & r, Plan & p, int n) { p.cfg["lanes"] = n; for (int i = 1; i < n; ++i) { p.cfg["p" + std::to_string(i)] = r.range(1, 4); p.cfg["q" + std::to_string(i)] = r.range(1, 4); } }
void pipegen(Rng & r, Plan & p, bool th) {
    int nl = (int)r.range(1, 2); lgen(r, p, nl); p.cfg["seg"] = r.range(0, 6);
    for (int i = 0, n = (int)r.range(1, 2); i < n; ++i) p.add("pipe", {r.range(0, 1), r.p(70) ? r.range(1, 5) : r.range(1, 17), r.p(70), r.p(15)});
    for (int i = 0, n = (int)r.range(0, 2); i < n; ++i) p.add("sh", {r.range(0, 1), r.p(25)});
    std::vector<int> w; for (int i = 0; i < 13; ++i) w.push_back(r.p(30) ? 0 : (int)r.range(1, 6)); w[0] += 8; w[11] = r.p(20); w[12] = r.p(40); w[10] += 3; if (r.p(60)) w[6] = 0;
    for (int i = 0, n = (int)r.range(0, 4); i < n; ++i) p.add("i", {r.range(0, 1), 0, (int64_t)r.w(w), r.range(0, 3), r.range(0, 16), r.range(2, 6)});
    int cyc = (int)r.range(3, th ? 60 : 25);
    for (int i = 0, n = (int)r.range(3, th ? 90 : 40); i < n; ++i) { int64_t at = r.range(0, cyc * 5); if (r.p(75)) p.add("p", {r.range(0, 1), at, (int64_t)r.w(w), r.range(0, 3), r.range(0, 16), r.range(2, 6)}); else p.add("s", {r.range(0, 1), at, r.p(60) ? r.range(0, 2) : r.range(0, 9), r.range(0, 3)}); }
}

// ------------------------------------------------------------------------------------------------ C13
// Value payload for the pipeline: carries an id.
template<class Ev> struct PlWorld : PBase {
    using PBase::PBase;
    typedef Lane<PlWorld> L; typedef sparta::Pipeline<Canary, Ev> PL;
    static constexpr bool PAY = std::is_same<Ev, sparta::PhasedPayloadEvent<Canary>>::value;
    struct H { PlWorld * w; int st; int idx; int ph; int id;
        void fire0() { w->on_stage(*this, -1); } void fire1(const Canary & x) { x.check("stage handler given dead data"); w->on_stage(*this, x.val); } };
    struct Due { int64_t v; };
    std::vector<std::unique_ptr<L>> lanes; std::unique_ptr<PL> pl; std::vector<std::unique_ptr<H>> hs; std::vector<Op> ops; std::deque<Op> hq; int64_t nextv = 0;
    // model
    uint32_t n = 1; std::vector<int64_t> s; int64_t app = -1; bool own = false, due = false; uint64_t due_cyc = 0; std::vector<bool> act, sup, frz, has; uint32_t stall_n = 0; int64_t stall_s = -1;
    std::map<int, int64_t> pend; uint64_t pend_cyc = 0; std::vector<std::pair<int,int>> prec; uint64_t manual_last = ~0ull; int mph = -1; uint64_t mc = 0;
    L & l() { return *lanes[0]; } uint64_t cyc() { return l().cycle(); }
    bool stalled() { return stall_n > 0 || stall_s >= 0; }
    void unstall() { for (int64_t i = 0; i <= stall_s; ++i) { if (sup[i]) { act[i] = true; sup[i] = false; } frz[i] = false; } stall_n = 0; stall_s = -1; }
    void sched_events() { pend_cyc = mc; pend.clear(); for (auto & h : hs) if (s[h->st] >= 0 && act[h->st]) pend[h->id] = s[h->st]; }
    void upd() {
        if (!stalled()) { for (size_t i = n; i-- > 1;) s[i] = s[i - 1]; s[0] = app; app = -1; sched_events(); }
        else {
            c.probe("stalled update"); size_t b = (size_t)stall_s + 1;
            if (b < n) { for (size_t i = n - 1; i > b; --i) s[i] = s[i - 1]; s[b] = -1; }
            for (int64_t i = stall_s; i > 0; --i) if (!frz[i - 1] && s[i] < 0 && s[i - 1] >= 0) { s[i] = s[i - 1]; s[i - 1] = -1; c.probe("bubble crushed"); }
            if (app >= 0 && s[0] < 0) { s[0] = app; app = -1; }
            sched_events(); if (--stall_n == 0) unstall();
        }
        if (own && any()) set_due();
    }
    bool any() { if (app >= 0) return true; for (auto x : s) if (x >= 0) return true; return false; }
    void set_due() { if (own) { due = true; due_cyc = mc + 1; } }
    void sync() { // the Update phase of this cycle is over
        uint64_t t = cyc();
        while (mc < t) { CHECK(pend.empty(), "stage-missed", "the handler of stage %d (number %d) was not called in cycle %lu", hs[pend.begin()->first]->st, hs[pend.begin()->first]->idx, (ul)pend_cyc);
            ++mc; if (due && due_cyc <= mc) { due = false; upd(); } }
    }
    void look(const char * w) {
        sync(); auto & p = *pl; uint32_t k = 0;
        for (uint32_t i = 0; i < n; ++i) { bool v = s[i] >= 0; k += v; CHECK(p.isValid(i) == v, v ? "lost" : "ghost", "%s: stage %u of %u is %s at cycle %lu", w, i, n, v ? "empty" : "occupied", (ul)cyc());
            if (v) { CHECK(p[i].val == s[i] && p.at(i).alive(), "value", "%s: stage %u holds %ld instead of %ld", w, i, (long)p[i].val, (long)s[i]); }
            CHECK(p.isStalledOrStallingAtStage(i) == (stalled() && (int64_t)i <= stall_s), "stall-state", "%s: isStalledOrStallingAtStage(%u) is wrong at cycle %lu", w, i, (ul)cyc()); }
        CHECK(p.numValid() == k && p.size() == k && p.empty() == !k, "count", "%s: numValid() is %u with %u valid stages", w, p.numValid(), k);
        CHECK(p.isAppended() == (app >= 0), "append", "%s: isAppended() is %d at cycle %lu", w, p.isAppended(), (ul)cyc()); if (app >= 0) CHECK(p.readAppendedData().val == app, "append", "%s: appended data differs", w);
        CHECK(p.isAnyValid() == any() && p.isLastValid() == (s[n - 1] >= 0) && p.capacity() == n, "any", "%s: isAnyValid()/isLastValid() wrong", w);
        CHECK(p.isStalledOrStalling() == stalled(), "stall-state", "%s: isStalledOrStalling() is %d at cycle %lu", w, p.isStalledOrStalling(), (ul)cyc());
        uint32_t i = 0; for (auto it = p.begin(); it != p.end(); ++it, ++i) { CHECK(i < n && it.isValid() == (s[i] >= 0), "iter", "%s: iterator at stage %u is wrong", w, i); if (s[i] >= 0) CHECK((*it).val == s[i], "iter", "%s: iterator reads %ld at stage %u", w, (long)(*it).val, i); } CHECK(i == n, "iter", "iteration saw %u stages", i);
    }
    void on_stage(H & h, int64_t v) {
        c.nontrivial = true; sync(); c.log("c%lu stage %d.%d v%ld", (ul)cyc(), h.st, h.idx, (long)v);
        CHECK(pend_cyc == cyc() && pend.count(h.id), "stage-extra", "the handler of stage %d (number %d) was called in cycle %lu without live data arriving there", h.st, h.idx, (ul)cyc());
        if (PAY) CHECK(v == pend[h.id], "stage-data", "the handler of stage %d was given %ld instead of %ld", h.st, (long)v, (long)pend[h.id]);
        pend.erase(h.id);
        CHECK((int)sched->getCurrentSchedulingPhase() == h.ph, "stage-phase", "handler of stage %d ran in the wrong phase", h.st);
        // same stage, same phase: registration order; declared precedence between stages of one phase
        for (auto & g : hs) if (g->ph == h.ph && pend.count(g->id)) {
            CHECK(!(g->st == h.st && g->idx < h.idx), "stage-order", "handler %d of stage %d ran before handler %d of the same stage and phase", h.idx, h.st, g->idx);
            for (auto & q : prec) CHECK(!(q.first == g->st && q.second == h.st), "stage-order", "stage %d's handler ran before that of stage %d, which precedes it, in cycle %lu", h.st, g->st, (ul)cyc()); }
        look("stage handler");
        if (!hq.empty()) { Op o = hq.front(); hq.pop_front(); if (o.arg(2) != 20) doop(o, h.st); look("after handler op"); }
    }
    void cancel_stage(uint32_t st) { for (auto it = pend.begin(); it != pend.end();) if (hs[it->first]->st == (int)st) { it = pend.erase(it); c.probe("scheduled handler flushed"); } else ++it; }
    void doop(const Op & o, int here) {
        int64_t v = ++nextv; int code = (int)o.arg(2); uint32_t st = (uint32_t)((here >= 0 && o.arg(3) < 8 ? here : o.arg(3)) % n); auto & p = *pl; c.log("c%lu op %d stage %u", (ul)cyc(), code, st);
        switch (code) {
        case 0: case 1: case 2: { bool full = app >= 0; bool t = refused([&] { if (code) { Canary x(v); p.append(std::move(x)); } else p.append(Canary(v)); }); CHECK(t == full, full ? "double-append" : "refused", full ? "a second append in one cycle was accepted" : "an append was refused"); if (!t) { app = v; set_due(); } break; }
        case 3: p.writeStage(st, Canary(v)); s[st] = v; set_due(); break;
        case 4: { bool ok = s[st] >= 0; bool t = refused([&] { p.invalidateStage(st); }); CHECK(t == !ok, "invalidate", "invalidateStage of %s stage was %s", ok ? "a valid" : "an empty", t ? "refused" : "accepted"); if (!t) { s[st] = -1; set_due(); } break; }
        case 5: case 6: case 7: { bool ok = s[st] >= 0 && !stalled(); uint32_t k = (uint32_t)o.arg(4); bool crush = o.arg(5) & 1, supp = o.arg(5) & 2; bool t = refused([&] { p.stall(st, k, crush, supp); });
            CHECK(t == !ok, "stall", "stall of stage %u was %s", st, t ? "refused" : "accepted"); if (t || !k) break; c.probe("stall"); stall_n = k; stall_s = st;
            for (int64_t i = st; i >= 0; --i) { if (crush && s[i] < 0) break; if (supp && has[i] && act[i]) { sup[i] = true; act[i] = false; } frz[i] = true; } break; }
        case 8: { bool ok = stalled(); bool t = refused([&] { p.clearStall(); }); CHECK(t == !ok, "clear-stall", "clearStall() was %s", t ? "refused" : "accepted"); if (!t) unstall(); break; }
        case 9: case 10: case 11: flush(st, (int)o.arg(4) % 3); break;
        case 12: p.flushAllStages(); for (uint32_t i = 0; i < n; ++i) mflush(i); break;
        case 13: p.flushAppend(); app = -1; break;
        case 14: if (has[st]) { p.deactivateEventAtStage(st); act[st] = false; sup[st] = false; c.probe("deactivated"); } break;
        case 15: if (has[st]) { p.activateEventAtStage(st); act[st] = true; sup[st] = false; } break;
        case 16: if (s[st] >= 0) { p[st].val = v; s[st] = v; } break;
        case 17: if (!own) { p.performOwnUpdates(); own = true; if (any()) set_due(); } break;
        case 20: if (!own && manual_last != cyc()) { manual_last = cyc(); p.update(); upd(); } break;
        }
    }
    void mflush(uint32_t st) { cancel_stage(st); if ((int64_t)st == stall_s) unstall(); s[st] = -1; }
    void flush(uint32_t st, int how) { if (how == 0) pl->flushStage(st); else if (how == 1) { typename PL::iterator it = pl->begin(); for (uint32_t i = 0; i < st; ++i) ++it; pl->flushStage(it); } else { const PL & q = *pl; typename PL::const_iterator it = q.begin(); for (uint32_t i = 0; i < st; ++i) it++; pl->flushStage(it); } mflush(st); }
    void on_op(L &, uint32_t i) { look("cycle"); doop(ops[i], -1); look("after"); }
    void go() {
        lanes_build(*this, 1); n = (uint32_t)std::max<int64_t>(1, plan.c("n", 3)); s.assign(n, -1); act.assign(n, false); sup.assign(n, false); frz.assign(n, false); has.assign(n, false); own = plan.c("own", 1); mph = (int)plan.c("mph", 0) % 2;
        pl.reset(plan.c("es", 1) ? new PL(l().es.get(), "pl", n, clks[0].get()) : new PL("pl", n, clks[0].get()));
        for (auto & o : plan.ops) if (o.k == "h" && hs.size() < 16) { int st = (int)(o.arg(0) % n), ph = (int)o.arg(1) % 3; // Collection, Tick, PostTick
            int idx = 0; for (auto & g : hs) idx += g->st == st; hs.emplace_back(new H{this, st, idx, 0, (int)hs.size()}); H * h = hs.back().get();
            if constexpr (PAY) { auto f = CREATE_SPARTA_HANDLER_WITH_DATA_WITH_OBJ(H, h, fire1, Canary); if (ph == 0) pl->template registerHandlerAtStage<SchedulingPhase::Collection>(st, f); else if (ph == 1) pl->registerHandlerAtStage(st, f); else pl->template registerHandlerAtStage<SchedulingPhase::PostTick>(st, f); }
            else { auto f = CREATE_SPARTA_HANDLER_WITH_OBJ(H, h, fire0); if (ph == 0) pl->template registerHandlerAtStage<SchedulingPhase::Collection>(st, f); else if (ph == 1) pl->registerHandlerAtStage(st, f); else pl->template registerHandlerAtStage<SchedulingPhase::PostTick>(st, f); }
            h->ph = (int)(ph == 0 ? SchedulingPhase::Collection : ph == 1 ? SchedulingPhase::Tick : SchedulingPhase::PostTick); has[st] = act[st] = true; }
        // declared precedence: transitive only between stages that have a handler in the same phase, so record direct pairs
        int pm = (int)plan.c("prec", 0);
        auto pair = [&](int a, int b) { prec.push_back({a, b}); };
        if (pm == 1 || pm == 2) { pl->setDefaultStagePrecedence(pm == 1 ? PL::Precedence::FORWARD : PL::Precedence::BACKWARD); int last = -1; for (uint32_t i = 0; i < n; ++i) if (has[i]) { if (last >= 0) { if (pm == 1) pair(last, (int)i); else pair((int)i, last); } last = (int)i; } }
        else if (pm == 3) { for (auto & o : plan.ops) if (o.k == "q") { int a = (int)(o.arg(0) % n), b = (int)(o.arg(1) % n); if (a == b || !has[a] || !has[b]) continue; if (a > b) std::swap(a, b); pl->setPrecedenceBetweenStage(a, b); pair(a, b); } }
        for (auto & o : plan.ops) if (o.k == "hq") hq.push_back(o);
        if (own) pl->performOwnUpdates();
        rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize();
        bool boom = false; std::string msg;
        try { look("start"); uint64_t mx = 0;
            for (auto & o : plan.ops) if (o.k == "o") { ops.push_back(o); int ph = (int)(o.arg(1) % 5); if (o.arg(2) == 20) ph = mph; mx = std::max<uint64_t>(mx, (uint64_t)(o.arg(1) / 5)); l().at((uint64_t)(o.arg(1) / 5), ph, (uint32_t)ops.size() - 1); }
            if (!own) for (uint64_t i = 0; i <= mx; ++i) if (dst::mix64(i * 77 + (uint64_t)plan.c("n", 3)) % 10 < 8) { ops.push_back(Op{"o", {0, 0, 20}}); l().at(i, mph, (uint32_t)ops.size() - 1); }
            for (uint64_t t = 0; t < mx + 6; ++t) { sched->run(clks[0]->getPeriod(), true, false); if (stored) throw *stored; }
            for (auto & q : pend) CHECK(false, "stage-missed", "the handler of stage %d was not called in cycle %lu", hs[q.first]->st, (ul)pend_cyc);
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (stored) throw *stored;
        CHECK(!boom, "exception", "unexpected exception: %.300s", msg.c_str());
        c.sim_time += now();
    }
};
void plgen(Rng & r, Plan & p, bool th) {
    lgen(r, p, 1); int n = (int)r.range(1, 6); p.cfg["n"] = n; p.cfg["own"] = r.p(70); p.cfg["mph"] = r.range(0, 1); p.cfg["es"] = r.p(70); p.cfg["prec"] = r.range(0, 3); p.cfg["pay"] = r.p(50);
    for (int i = 0, k = (int)r.range(0, 8); i < k; ++i) p.add("h", {r.range(0, n - 1), r.p(60) ? 1 : r.range(0, 2)});
    for (int i = 0, k = (int)r.range(0, 4); i < k; ++i) p.add("q", {r.range(0, n - 1), r.range(0, n - 1)});
    std::vector<int> w(21, 0); for (int i = 0; i < 18; ++i) w[i] = r.p(35) ? 0 : (int)r.range(1, 5); w[0] += r.range(5, 25); if (r.p(60)) w[12] = 0; if (r.p(70)) w[17] = 0;
    int cyc = (int)r.range(3, th ? 60 : 25);
    for (int i = 0, k = (int)r.range(3, th ? 90 : 45); i < k; ++i) p.add("o", {0, r.range(0, cyc * 5), (int64_t)r.w(w), r.range(0, 15), r.range(0, 5), r.range(0, 3)});
    w[0] = 1; for (int i = 0, k = (int)r.range(0, 25); i < k; ++i) p.add("hq", {0, 0, (int64_t)r.w(w), r.range(0, 15), r.range(0, 5), r.range(0, 3)});
}
void plrun(const Plan & p, Ctx & c) { if (p.c("pay")) runWorld<PlWorld<sparta::PhasedPayloadEvent<Canary>>>(p, c); else runWorld<PlWorld<sparta::PhasedUniqueEvent>>(p, c); }

// ------------------------------------------------------------------------------------------------ C15
struct SbWorld : PBase {
    using PBase::PBase;
    typedef Lane<SbWorld> L; typedef sparta::Scoreboard SB; typedef SB::RegisterBitMask M;
    struct Up { Tick at; M bits; int view; uint64_t ord; };
    struct CB { uint64_t id; M need; uint64_t inst; std::deque<Op> then; Tick born; bool ready0; };
    struct V { std::unique_ptr<sparta::ScoreboardView> v; int unit; M m; std::list<CB> cbs; };
    std::vector<std::unique_ptr<L>> lanes; sparta::ResourceFactory<SB, SB::ScoreboardParameters> fact; std::unique_ptr<sparta::ResourceTreeNode> sbn; SB * sb = nullptr;
    std::vector<std::vector<int64_t>> lat; std::vector<std::unique_ptr<V>> vs; std::vector<Up> fly; M g; std::vector<Op> ops; std::deque<Op> cq; uint64_t cbid = 0, ord = 0; int depth = 0; Tick nested_clear = ~(Tick)0;
    // a delivery to a view in progress: the callbacks it may run
    static M bits(int64_t a, int64_t b) { M m; uint64_t x = mix64((uint64_t)a * 131 + 7); int k = 1 + (int)(b % 3); for (int i = 0; i < k; ++i) { int lo = (a & 8) ? 20 : 28; m.set((size_t)(lo + (x % 14))); if (a == 15) m.set(511); x = mix64(x); } return m; }
    void recv(V & v, const M & b) { v.m |= b; }
    // callbacks whose bits are all ready and that have not been called: must not exist once an update was delivered to that view
    struct Expect { V * v; };
    void overdue(const char * w) { for (auto & u : fly) CHECK(u.at >= now(), "lost", "%s: an update due at tick %lu did not arrive", w, (ul)u.at); }
    int nesting = 0;
    bool ready(V & v, const CB & cb) { return (v.m & cb.need) == cb.need; }
    void look(const char * w) {
        for (size_t i = 0; i < vs.size(); ++i) { V & v = *vs[i]; M q; for (int b = 18; b < 46; ++b) q.set(b);
            for (int b : {0, 5, 20, 24, 27, 28, 29, 30, 31, 32, 33, 34, 36, 38, 40, 41, 511}) { M one; one.set(b); CHECK(v.v->isSet(one) == v.m.test(b), v.m.test(b) ? "not-ready" : "phantom-ready", "%s: view %zu (unit %d) says register %d is %s at tick %lu", w, i, v.unit, b, v.m.test(b) ? "not ready" : "ready", (ul)now()); } }
        for (int b : {0, 5, 20, 24, 27, 28, 29, 30, 31, 32, 33, 34, 36, 38, 40, 41, 511}) { M one; one.set(b); CHECK(sb->isSet(one) == g.test(b), "master", "%s: the scoreboard says register %d is %s", w, b, g.test(b) ? "not ready" : "ready"); }
    }
    // deliver in the model at the Update phase of this tick
    void sync() { for (size_t i = 0; i < fly.size();) if (fly[i].at <= now()) { overdue("sync"); Up u = fly[i]; fly.erase(fly.begin() + i); if (u.bits.any()) { recv(*vs[u.view], u.bits); touched(*vs[u.view], "delivery", u.at); } } else ++i; }
    // after a delivery: every ready callback must have been called (they erase themselves from the model)
    // (one registered by another callback in the same tick may have come after the delivery; one that was ready from the start waits for an update that has any bits left)
    void touched(V & v, const char * w, Tick at) { for (auto & cb : v.cbs) if (cb.born != at && !(cb.ready0 && nested_clear == at)) CHECK(!ready(v, cb), "callback-missed", "%s: a ready callback of instruction %lu was not called at tick %lu", w, (ul)cb.inst, (ul)now()); }
    void on_cb(int vi, uint64_t id, const M &) {
        V & v = *vs[vi]; c.nontrivial = true;
        // an update for this view that is due now may be the cause (delivered in the Update phase): apply it first
        for (size_t i = 0; i < fly.size();) if (fly[i].at == now() && fly[i].view == vi && (int)sched->getCurrentSchedulingPhase() == (int)SchedulingPhase::Update && may_apply(fly[i], v, id)) { recv(v, fly[i].bits); fly[i].bits.reset(); ++i; } else ++i;
        c.log("t%lu callback #%lu of view %d", (ul)now(), (ul)id, vi);
        auto it = v.cbs.begin(); while (it != v.cbs.end() && it->id != id) ++it;
        CHECK(it != v.cbs.end(), "callback-extra", "callback #%lu of view %d was called again or after being cleared, at tick %lu", (ul)id, vi, (ul)now());
        CHECK(ready(v, *it), "callback-early", "callback #%lu of view %d was called before its registers were ready", (ul)id, vi);
        std::deque<Op> then = it->then; v.cbs.erase(it);
        if (depth < 5) { ++depth; for (auto & o : then) doop(o); --depth; }
    }
    bool may_apply(const Up &, V & v, uint64_t id) { for (auto & cb : v.cbs) if (cb.id == id) return !ready(v, cb); return false; }
    void doop(const Op & o) {
        int code = (int)o.arg(2); V & v = *vs[(size_t)o.arg(3) % vs.size()]; int vi = (int)((size_t)o.arg(3) % vs.size()); M b = bits(o.arg(4), o.arg(5)); c.log("t%lu op %d view %d", (ul)now(), code, vi);
        switch (code) {
        case 0: case 1: case 2: { // set ready through a view or on the master by producer
            g |= b; std::vector<int> im;
            for (size_t i = 0; i < vs.size(); ++i) { int64_t L_ = lat[v.unit][vs[i]->unit]; if (L_ < 0) continue; if (L_ == 0) { recv(*vs[i], b); im.push_back((int)i); } else fly.push_back({now() + (Tick)L_ * clks[0]->getPeriod(), b, (int)i, ++ord}); }
            if (code == 2) sb->set(b, (SB::UnitID)v.unit); else v.v->setReady(b);
            if (!depth) for (int i : im) touched(*vs[i], "setReady", now()); break; }
        case 3: { g |= b; for (auto & x : vs) recv(*x, b); sb->set(b); if (!depth) for (auto & x : vs) touched(*x, "set", now()); break; }
        case 4: case 5: { if (depth) nested_clear = now(); g &= ~b; for (auto & x : vs) x->m &= ~b; for (auto & u : fly) { if ((u.bits & b).any()) c.probe("cleared while in flight"); u.bits &= ~b; } sb->clearBits(b); break; }
        case 6: case 7: case 8: { CB cb; cb.id = ++cbid; cb.born = depth ? now() : ~(Tick)0; cb.ready0 = ready(v, cb); cb.need = b; cb.inst = (uint64_t)o.arg(6) % 4; for (int i = 0; i < (int)(o.arg(7) % 3) && !cq.empty(); ++i) { cb.then.push_back(cq.front()); cq.pop_front(); } uint64_t id = cb.id;
            v.cbs.push_back(cb); v.v->registerReadyCallback(b, cb.inst, [this, vi, id](const M & m) { on_cb(vi, id, m); }); break; }
        case 9: { uint64_t inst = (uint64_t)o.arg(6) % 4; for (auto it = v.cbs.begin(); it != v.cbs.end();) if (it->inst == inst) { it = v.cbs.erase(it); c.probe("callback cleared"); } else ++it; v.v->clearCallbacks(inst); break; }
        case 10: if (vs.size() < 8) { add_view((int)(o.arg(6) % lat.size())); } break;
        case 11: v.v->setReady(M()); break;
        }
    }
    void add_view(int unit) { vs.emplace_back(new V); V & v = *vs.back(); v.unit = unit; v.m = g; v.v.reset(new sparta::ScoreboardView("u" + std::to_string(unit), "sb", rtn.get())); c.probe("view"); }
    void on_op(L &, uint32_t i) { sync(); look("cycle"); doop(ops[i]); look("after"); }
    void go() {
        lanes_build(*this, 1); int n = (int)std::max<int64_t>(1, plan.c("units", 2)); lat.assign(n, std::vector<int64_t>(n, 0)); SB::ScoreboardParameters::LatencyMatrixParameterType mat(n + 1, std::vector<std::string>(n + 1)); 
        std::vector<int64_t> ls; for (auto & o : plan.ops) if (o.k == "lat") ls.push_back(o.arg(0)); size_t k = 0; char hx[32];
        for (int i = 0; i < n; ++i) { mat[0][i + 1] = mat[i + 1][0] = "u" + std::to_string(i); for (int j = 0; j < n; ++j, ++k) { int64_t x = ls.empty() ? 1 : ls[k % ls.size()]; lat[i][j] = x; if (x > 0 && plan.c("hex")) { snprintf(hx, sizeof hx, "0x%lx", (long)x); mat[i + 1][j + 1] = hx; } else mat[i + 1][j + 1] = std::to_string(x); } }
        sbn.reset(new sparta::ResourceTreeNode(rtn.get(), "sb", sparta::TreeNode::GROUP_NAME_NONE, sparta::TreeNode::GROUP_IDX_NONE, "sb", &fact));
        auto * ps = dynamic_cast<SB::ScoreboardParameters *>(sbn->getParameterSet()); ps->latency_matrix = mat;
        g = M(0xffffffff);
        rtn->enterConfiguring(); rtn->enterFinalized(); sb = sbn->getResourceAs<SB *>(); sched->finalize();
        for (auto & o : plan.ops) if (o.k == "then") cq.push_back(o);
        bool boom = false; std::string msg;
        try { for (auto & o : plan.ops) if (o.k == "view" && vs.size() < 6) add_view((int)(o.arg(0) % n)); if (vs.empty()) add_view(0);
            look("start"); uint64_t mx = 0;
            for (auto & o : plan.ops) if (o.k == "o") { ops.push_back(o); mx = std::max<uint64_t>(mx, (uint64_t)(o.arg(1) / 5)); lanes[0]->at((uint64_t)(o.arg(1) / 5), (int)(o.arg(1) % 5), (uint32_t)ops.size() - 1); }
            for (uint64_t t = 0; t < mx + 12; ++t) { sched->run(clks[0]->getPeriod(), true, false); if (stored) throw *stored; Tick e = now(); for (size_t i = 0; i < fly.size();) if (fly[i].at < e) { Up u = fly[i]; fly.erase(fly.begin() + i); if (u.bits.any()) { recv(*vs[u.view], u.bits); touched(*vs[u.view], "delivery", u.at); } } else ++i; look("between cycles"); }
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (stored) throw *stored;
        CHECK(!boom, "exception", "unexpected exception: %.300s", msg.c_str());
        c.sim_time += now();
    }
    ~SbWorld() { vs.clear(); if (rtn) rtn->enterTeardown(); }
};
void sbgen(Rng & r, Plan & p, bool th) {
    lgen(r, p, 1); int n = (int)r.range(1, 4); p.cfg["units"] = n; p.cfg["hex"] = r.p(15);
    for (int i = 0; i < n * n; ++i) p.add("lat", {r.p(25) ? 0 : r.p(10) ? -1 : r.range(1, 5)});
    for (int i = 0, k = (int)r.range(1, 5); i < k; ++i) p.add("view", {r.range(0, 3)});
    std::vector<int> w(12, 0); for (int i = 0; i < 12; ++i) w[i] = r.p(30) ? 0 : (int)r.range(1, 5); w[0] += 3; w[4] += 2; w[10] = r.p(30); w[11] = r.p(20);
    int cyc = (int)r.range(3, th ? 50 : 20);
    for (int i = 0, k = (int)r.range(3, th ? 80 : 40); i < k; ++i) p.add("o", {0, r.range(0, cyc * 5), (int64_t)r.w(w), r.range(0, 5), r.range(0, 15), r.range(0, 2), r.range(0, 3), r.range(0, 2)});
    w[10] = 0; for (int i = 0, k = (int)r.range(0, 20); i < k; ++i) p.add("then", {0, 0, (int64_t)r.w(w), r.range(0, 5), r.range(0, 15), r.range(0, 2), r.range(0, 3), r.range(0, 2)});
}

Register r12([] { Harness h; h.property = "C12"; h.technique = "deterministic simulation of pipes and shared data driven from every phase, against a per-cycle shift model";
    h.rule = "1-2 clock domains with pipes (self-updating or updated by hand) and shared data items; appends, writes, flushes and invalidations at seeded cycles and phases; non-trivial: an operation ran"; h.measure = "FNV hash of the run's complete event log"; h.real = "sparta::Pipe, SharedData, GlobalEvent, ValidValue, UniqueEvent, Scheduler, Clock: all shipped code"; h.stub = "the units using them (scripted by the plan)"; h.assumptions = {"each resource is driven from its own clock's edges"};
    h.quick_runs = 15000; h.thorough_runs = 500000; h.gen = pipegen; h.run = runWorld<PipeWorld>; return h; }());
Register r13([] { Harness h; h.property = "C13"; h.technique = "deterministic simulation of pipelines with stalls, bubbles, flushes and handler-made changes, against a stage-by-stage model of data and handler calls";
    h.rule = "a 1-6 stage pipeline with up to 8 stage handlers in three phases and declared precedences, driven from seeded cycles/phases and from its own handlers; non-trivial: a stage handler ran"; h.measure = "FNV hash of the run's complete event log"; h.real = "sparta::Pipeline (unique-event and payload-event forms), Pipe, PhasedUniqueEvent, PhasedPayloadEvent, Scheduler, DAG: all shipped code"; h.stub = "stage handlers and the driving unit (scripted by the plan)"; h.assumptions = {"stage handlers are registered in phases after the one updating the pipeline"};
    h.quick_runs = 15000; h.thorough_runs = 500000; h.gen = plgen; h.run = plrun; return h; }());
Register r15([] { Harness h; h.property = "C15"; h.technique = "deterministic simulation of a scoreboard with several views, in-flight forwarding updates, clears and re-entrant callbacks, against a per-view readiness model";
    h.rule = "1-4 units with random forwarding latencies, several views per unit, sets/clears/callback registrations at seeded cycles and from callbacks; non-trivial: a callback ran"; h.measure = "FNV hash of the run's complete event log"; h.real = "sparta::Scoreboard, ScoreboardView, ResourceFactory, PayloadEvent, Scheduler: all shipped code"; h.stub = "renaming and execution units (scripted by the plan)";
    h.quick_runs = 12000; h.thorough_runs = 400000; h.gen = sbgen; h.run = runWorld<SbWorld>; return h; }());
} // namespace
