// C27: states (sparta::State with its markers, monitors, observers and residency tracking) and state timers, against a model that
// knows who is in which state since when; monitors that react, refused operations, tracking files, several simulations in a process.
#include "world_base.hpp"
#include "sparta/simulation/State.hpp"
#include "sparta/simulation/StateTimerUnit.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>

namespace stw {
enum class E4 : uint32_t { __FIRST, A = __FIRST, B, C, D, __LAST };
inline std::ostream & operator<<(std::ostream & o, const E4 & e) { return o << "ABCD"[(int)e % 4]; }
enum class E2 : uint32_t { __FIRST, X = __FIRST, Y, __LAST };
inline std::ostream & operator<<(std::ostream & o, const E2 & e) { return o << "XY"[(int)e % 2]; }
enum class T3 { P, Q, R, __LAST };
enum class T2 { U, V, __LAST };
enum class T1 { Z, __LAST };
struct World;
const int NM = 4; // markers a value may have
struct ISt {
    virtual ~ISt() {} virtual void set(int v, bool how) = 0; virtual int get() = 0; virtual bool eq(int v) = 0; virtual bool ne(int v) = 0; virtual void reset() = 0; virtual void reset(int v) = 0;
    virtual void marker(int v) = 0; virtual void mset(int v, size_t k, int64_t * m) = 0; virtual void mclear(int v, size_t k) = 0; virtual bool marked(int v, size_t k) = 0; virtual int mval(int v, size_t k) = 0;
    virtual uint32_t marks(int v) = 0; virtual uint32_t markers(int v) = 0; virtual bool complete(int v) = 0; virtual void thr(int v, uint32_t t) = 0; virtual bool isset(int v) = 0; virtual bool isclear(int v) = 0;
    virtual void observe(int v, const sparta::ScheduleableHandle & h) = 0; virtual void withdraw(int v, const sparta::ScheduleableHandle & h) = 0; virtual void release(int v) = 0;
    virtual void attach(int v, int mon) = 0; virtual void detach(int v, int mon) = 0; virtual Tick time() = 0; virtual std::vector<Tick> raw() = 0; };
template<class T> struct Num { static typename sparta::utils::Enum<T>::Value v(int i) { return static_cast<T>(i); } };
template<> struct Num<bool> { static sparta::BoolEnum v(int i) { return sparta::BoolEnum(i != 0); } };
template<class T> struct St : ISt {
    typedef sparta::State<T, int64_t, NM> S; World * w; int id; S s; std::vector<typename S::Marker *> mk[4];
    struct Mon : S::Monitor { St * st; int n; void signalSet(const typename S::EnumTValueType & v, int64_t * m) override; }; Mon mon[3];
    St(World * w_, int id_, int init) : w(w_), id(id_), s(Num<T>::v(init)) { for (int i = 0; i < 3; ++i) { mon[i].st = this; mon[i].n = i; } }
    void set(int v, bool how) override { if (how) s = Num<T>::v(v); else s.setValue(Num<T>::v(v)); } int get() override { return (int)(uint32_t)s.getValue(); } bool eq(int v) override { return same(v, (T *)nullptr); } bool ne(int v) override { return differ(v, (T *)nullptr); }
    template<class X> bool same(int v, X *) { return s == Num<X>::v(v); } template<class X> bool differ(int v, X *) { return s != Num<X>::v(v); } bool same(int v, bool *) { return get() == v; } bool differ(int v, bool *) { return get() != v; } // (State<bool> has no usable comparison)
    void reset() override { s.reset(); } void reset(int v) override { s.reset(Num<T>::v(v)); } void marker(int v) override { mk[v].push_back(s.newMarker(Num<T>::v(v))); }
    void mset(int v, size_t k, int64_t * m) override { mk[v][k]->set(m); } void mclear(int v, size_t k) override { mk[v][k]->clear(); } bool marked(int v, size_t k) override { return mk[v][k]->isMarked(); } int mval(int v, size_t k) override { return (int)(uint32_t)mk[v][k]->getMarkerValue(); }
    uint32_t marks(int v) override { return s.numMarks(Num<T>::v(v)); } uint32_t markers(int v) override { return s.numMarkers(Num<T>::v(v)); } bool complete(int v) override { return s.complete(Num<T>::v(v)); } void thr(int v, uint32_t t) override { s.setMarkedThreshold(Num<T>::v(v), t); }
    bool isset(int v) override { return s.isSet(Num<T>::v(v)); } bool isclear(int v) override { return s.isClear(Num<T>::v(v)); }
    void observe(int v, const sparta::ScheduleableHandle & h) override { s.observe(Num<T>::v(v), h); } void withdraw(int v, const sparta::ScheduleableHandle & h) override { s.withdraw(Num<T>::v(v), h); } void release(int v) override { s.release(Num<T>::v(v)); }
    void attach(int v, int m) override { s.attachMonitor(Num<T>::v(v), &mon[m]); } void detach(int v, int m) override { s.detachMonitor(Num<T>::v(v), &mon[m]); } Tick time() override { return s.getTimeInState(); } std::vector<Tick> raw() override { return s.getRawAccumulatedTime(); } };

struct World : PBase {
    using PBase::PBase;
    struct Val { std::vector<bool> m; uint32_t thr = 0; bool set = false; std::vector<uint64_t> obs; std::vector<int> mons; uint32_t marks() const { return (uint32_t)std::count(m.begin(), m.end(), true); } };
    struct M { int kind, n, val, init; Tick since; std::vector<Tick> res; Val v[4]; bool alive = true; std::unique_ptr<ISt> s; };
    std::deque<M> st; struct Ob { int st, v, d; sparta::ScheduleableHandle h; bool on = true; }; std::map<uint64_t, Ob> obs; uint64_t ids = 0; std::multimap<Tick, uint64_t> due;
    struct Call { int st, v; int64_t * meta; std::vector<int> left; }; std::vector<Call> calls; uint64_t script = 0; int64_t meta[3] = {1, 2, 3}; bool started = false;
    std::map<int, std::vector<Tick>> fsum; std::map<int, uint64_t> fcount; // by kind: what the tracking file will say
    std::string file; std::unique_ptr<sparta::EventSet> es; std::unique_ptr<sparta::PayloadEvent<uint64_t, SchedulingPhase::PostTick>> oe[3]; std::unique_ptr<sparta::UniqueEvent<SchedulingPhase::Trigger>> drive; std::unique_ptr<sparta::TreeNode> tn;
    size_t pc = 0, last = 0; sparta::Clock * clk = nullptr;
    // timers
    typedef sparta::StateTimerUnit U; struct Tm { U::StateTimer::Handle h; bool on = true; int act[2] = {-1, -1}; uint64_t from[2] = {0, 0}; uint64_t acc[2][3] = {{0, 0, 0}, {0, 0, 0}}; uint64_t seen = ~0ull; int unit; };
    struct Un { std::unique_ptr<U> u; int sets; uint64_t lo, hi, bin; std::vector<uint64_t> val[2][3]; bool alive = true; }; std::deque<Un> un; std::deque<Tm> tm;
    M & s(int64_t i) { return st[(size_t)i % st.size()]; }
    void enter(M & m, int v) { if (v == m.val) return; m.res[(size_t)m.val] += now() - m.since; m.since = now(); m.val = v; }
    void told(M & m, int v) { for (uint64_t o : m.v[v].obs) { Ob & b = obs[o]; due.emplace(now() + (Tick)b.d * clk->getPeriod(), o); b.on = false; c.probe("observer notified"); } m.v[v].obs.clear(); m.v[v].set = true; }
    void moved(M & m, int v) { enter(m, v); told(m, v); }
    void signal(int id, int mon, int v, int64_t * p) {
        CHECK(!calls.empty(), "monitor-stray", "a monitor was signalled although nothing was marked"); Call & k = calls.back(); CHECK(k.st == id && k.v == v && k.meta == p, "monitor-data", "a monitor was told of state %d value %d instead of state %d value %d", id, v, k.st, k.v);
        auto i = std::find(k.left.begin(), k.left.end(), mon); CHECK(i != k.left.end(), "monitor-stray", "monitor %d of state %d was signalled once too often or after it was detached", mon, id); k.left.erase(i); c.log("signal %d %d %d", id, mon, v);
        script = mix64(script); uint64_t x = script; M & m = st[(size_t)id]; if (calls.size() > 3) return;
        switch (x % 8) {
        case 0: c.probe("monitor sets the state"); setv(m, v, x >> 5 & 1); break;
        case 1: { auto & q = m.v[v].mons; auto j = std::find(q.begin(), q.end(), mon); if (j != q.end()) { c.probe("monitor detaches itself while it is signalled"); q.erase(j); m.s->detach(v, mon); } break; }
        case 2: { int o = (int)((x >> 8) % st.size()), w = (int)((x >> 16) % (uint64_t)st[(size_t)o].n); Val & q = st[(size_t)o].v[w]; if ((o != id || w != v) && st[(size_t)o].alive && !q.m.empty()) { c.probe("monitor sets another marker"); mark(o, w, (x >> 24) % q.m.size(), (int64_t)(x >> 32)); } break; }
        case 3: { int o = (int)((x >> 8) % 3); if (m.v[v].mons.size() < 6) { c.probe("monitor attaches another while it is signalled"); m.v[v].mons.push_back(o); extra = true; m.s->attach(v, o); } break; }
        case 4: if (cur >= 0) { c.probe("monitor clears the marker that is being set"); m.v[v].m[(size_t)cur] = false; m.s->mclear(v, (size_t)cur); } break;
        default: break; } }
    int cur = -1; bool extra = false, tracked = true;
    void setv(M & m, int v, bool how) { moved(m, v); m.s->set(v, how); }
    void mark(int i, int v, size_t k, int64_t x) {
        M & m = st[(size_t)i]; Val & q = m.v[v]; int64_t * p = x % 4 ? &meta[x % 3] : nullptr; if (q.m[k]) { c.probe("marker set twice"); m.s->mset(v, k, p); return; }
        q.m[k] = true; if (!q.mons.empty()) { c.nontrivial = true; Call cl{i, v, p, q.mons}; calls.push_back(cl); int oc = cur; cur = (int)k; m.s->mset(v, k, p); cur = oc; if (stored) throw *stored; cl = calls.back(); calls.pop_back();
            // a monitor detached by another's action in the meantime need not have been told; the ones still attached must have been
            for (int n : cl.left) { bool still = std::count(q.mons.begin(), q.mons.end(), n) > 0; CHECK(!still, "monitor-missed", "monitor %d of state %d value %d was not signalled", n, i, v); } return; }
        if (q.m.size() - q.marks() <= q.thr) { c.probe(q.thr ? "transition by a threshold of markers" : "transition by all markers"); c.nontrivial = true; moved(m, v); } m.s->mset(v, k, p); }
    void got(uint64_t o) { auto r = due.equal_range(now()); for (auto i = r.first; i != r.second; ++i) if (i->second == o) { c.log("told %lu", (ul)o); due.erase(i); return; } FAIL("observer", "observer %lu was told at tick %lu, when it should not be", (ul)o, (ul)now()); }
    void o0(const uint64_t & o) { got(o); } void run_ops() { step(); }
    // ---- timers
    uint64_t cyc() { return clk->currentCycle(); }
    void settle(Tm & t) { for (int k = 0; k < 2; ++k) if (t.act[k] >= 0) { t.acc[k][t.act[k]] += cyc() - t.from[k]; t.from[k] = cyc(); } }
    void sample(Tm & t) { Un & u = un[(size_t)t.unit]; settle(t); for (int k = 0; k < u.sets; ++k) for (int i = 0; i < (k ? 2 : 3); ++i) { if (t.acc[k][i]) u.val[k][i].push_back(t.acc[k][i]); t.acc[k][i] = 0; } }
    void start(Tm & t, int k, int i, int how) { if (k == 0) { if (how) *t.h = (T3)i; else t.h->startState((T3)i); } else { if (how) *t.h = (T2)i; else t.h->startState((T2)i); } }
    void fin(Tm & t, int k, int i) { if (k == 0) t.h->endState((T3)i); else t.h->endState((T2)i); }
    void drop(Tm & t) { if (!t.on) return; if (un[(size_t)t.unit].alive) sample(t); t.on = false; t.h.reset(); }
    void unlook(Un & u, int ui) {
        for (int k = 0; k < u.sets; ++k) for (int i = 0; i < (k ? 2 : 3); ++i) { std::string n = "unit" + std::to_string(ui) + "_histogram_set_" + (k ? typeid(T2).name() : typeid(T3).name()) + "_state_" + std::to_string(i); auto * h = dynamic_cast<sparta::Histogram *>(u.u->getChild(n)); CHECK(h, "histogram", "there is no histogram %s", n.c_str());
            std::vector<uint64_t> b(h->getNumBins(), 0); uint64_t uf = 0, of = 0, sum = 0; for (uint64_t v : u.val[k][i]) { sum += v; if (v < u.lo) ++uf; else if (v > u.hi) ++of; else ++b[(v - u.lo) / u.bin]; } uint64_t got = 0;
            auto * sc = h->getChildAs<sparta::StatisticSet>("stats")->getChildAs<sparta::Counter>("sum"); got = sc->get(); CHECK(got == sum, "residency", "timers of unit %d spent %lu cycles in state %d of set %d, the histogram adds up to %lu", ui, (ul)sum, i, k, (ul)got);
            CHECK(h->getOverflowBin().get() == of, "residency", "state %d of set %d: %lu values beyond the histogram instead of %lu", i, k, (ul)h->getOverflowBin().get(), (ul)of); if (u.lo == 0) CHECK(h->getUnderflowBin().get() == 0, "residency", "values below zero"); else CHECK(h->getUnderflowBin().get() >= uf, "residency", "values below the histogram were lost"); (void)uf;
            for (size_t q = 0; q < b.size(); ++q) if (u.lo + q * u.bin > 0) CHECK(h->getRegularBin()[q].get() == b[q], "residency", "state %d of set %d: bin %zu of the histogram holds %lu values instead of %lu", i, k, q, (ul)h->getRegularBin()[q].get(), (ul)b[q]); else CHECK(h->getRegularBin()[q].get() >= b[q], "residency", "state %d of set %d: the first bin of the histogram holds %lu values, fewer than %lu", i, k, (ul)h->getRegularBin()[q].get(), (ul)b[q]); } }
    // ----
    void op(const Op & o) {
        int64_t k = o.arg(1), i = o.arg(2), j = o.arg(3), x = o.arg(4); script = mix64((uint64_t)x * 7919 + pc); if (k >= 2 && k < 16 && st.empty()) return; c.log("op %d %d %d %d", (int)k, (int)i, (int)j, (int)(x % 1000));
        if (k == 0 || k == 1) { if (st.size() > 6) return; M m; m.kind = (int)(j % 3); m.n = m.kind == 0 ? 4 : 2; m.init = (int)(x % m.n); m.val = m.init; m.since = now(); m.res.assign((size_t)m.n + 1, 0); int id = (int)st.size(); if (m.kind == 0) m.s.reset(new St<E4>(this, id, m.init)); else if (m.kind == 1) m.s.reset(new St<bool>(this, id, m.init)); else m.s.reset(new St<E2>(this, id, m.init)); ++fcount[m.kind]; st.push_back(std::move(m)); if (st.back().kind == 1) moved(st.back(), 0); return; }
        if (k < 16) { M & m = s(i); int id = (int)((size_t)i % st.size()); if (!m.alive) return; int v = (int)(j % m.n); Val & q = m.v[v];
            switch (k) {
            case 2: case 3: setv(m, v, x % 2); break;
            case 4: { bool full = q.m.size() == (size_t)NM; bool no = refused([&] { m.s->marker(v); }); CHECK(no == full, "marker-limit", "marker %zu of %d was %s", q.m.size() + 1, NM, no ? "refused" : "accepted"); if (full) c.fault("marker beyond the maximum"); else q.m.push_back(false); break; }
            case 5: case 6: case 7: if (!q.m.empty()) mark(id, v, (size_t)(x >> 4) % q.m.size(), x >> 8); break;
            case 8: if (!q.m.empty()) { size_t n = (size_t)(x >> 4) % q.m.size(); q.m[n] = false; m.s->mclear(v, n); } break;
            case 9: { for (auto & y : m.v) { y.m.assign(y.m.size(), false); y.set = false; } if (x % 2) { enter(m, v); m.s->reset(v); c.probe("reset to a value"); } else { enter(m, m.init); if (m.kind == 1) moved(m, 0); m.s->reset(); c.probe("reset"); } break; }
            case 10: q.thr = (uint32_t)(x % 4); m.s->thr(v, q.thr); break;
            case 11: case 12: { if (!started || obs.size() > 60) break; uint64_t n = ++ids; int d = (int)(x % 3); Ob b; b.st = id; b.v = v; b.d = d; b.h = oe[d]->preparePayload(n); obs.emplace(n, b); q.obs.push_back(n); m.s->observe(v, obs[n].h); if (x % 2) obs[n].h = sparta::ScheduleableHandle(); break; }
            case 13: { if (q.obs.empty()) break; size_t n = (size_t)(x >> 3) % q.obs.size(); uint64_t o2 = q.obs[n]; if (x % 5 == 0) { c.probe("observers released"); for (uint64_t a : q.obs) obs[a].on = false; q.obs.clear(); m.s->release(v); } else if (obs[o2].h != sparta::ScheduleableHandle()) { c.probe("observer withdrawn"); q.obs.erase(q.obs.begin() + (long)n); m.s->withdraw(v, obs[o2].h); obs[o2].on = false; } break; }
            case 14: { int n = (int)(x % 3); if (x % 2 || q.mons.empty()) { if (q.mons.size() < 5) { q.mons.push_back(n); m.s->attach(v, n); } } else { auto y = std::find(q.mons.begin(), q.mons.end(), n); if (y != q.mons.end()) q.mons.erase(y); else c.probe("detach of a monitor that is not attached"); m.s->detach(v, n); } break; }
            case 15: if (x % 3 == 0) { m.res[(size_t)m.val] += now() - m.since; if (fsum[m.kind].empty()) fsum[m.kind].assign(m.res.size(), 0); for (size_t a = 0; a < m.res.size(); ++a) fsum[m.kind][a] += m.res[a]; for (auto & y : m.v) y.obs.clear(); m.alive = false; m.s.reset(); c.probe("state destroyed"); } break; } return; }
        if (un.empty()) return; Un & u = un[(size_t)i % un.size()]; int ui = (int)((size_t)i % un.size()); Tm * t = tm.empty() ? nullptr : &tm[(size_t)j % tm.size()];
        switch (k) {
        case 16: case 17: { if (!u.alive || tm.size() > 14) break; Tm n; n.unit = ui; n.h = u.u->allocateStateTimer(); for (auto & z : tm) if (z.on && z.unit == ui) CHECK(z.h.get() != n.h.get(), "timer-shared", "a timer was handed out although it is in use"); tm.push_back(std::move(n)); break; }
        case 18: case 19: case 20: { if (!t || !t->on || !un[(size_t)t->unit].alive) break; int k2 = (int)(x % 2), v = (int)(x >> 3) % (k2 ? 3 : 4), how = (int)(x >> 9 & 1); bool bad = k2 >= un[(size_t)t->unit].sets || v == (k2 ? 2 : 3) || t->act[k2] == v; bool no = refused([&] { start(*t, k2, v, how); }); CHECK(no == bad, "start", "starting state %d of set %d was %s", v, k2, no ? "refused" : "accepted"); if (bad) { c.fault("state refused by a timer"); break; } c.nontrivial = true; if (cyc() == 0) c.probe("timer started in cycle 0"); settle(*t); t->act[k2] = v; t->from[k2] = cyc(); break; }
        case 21: { if (!t || !t->on || !un[(size_t)t->unit].alive) break; int k2 = (int)(x % 2), v = (int)(x >> 3) % (k2 ? 2 : 3); if (t->act[k2] >= 0 && x % 5) v = t->act[k2]; bool bad = t->act[k2] != v; bool no = refused([&] { fin(*t, k2, v); }); CHECK(no == bad, "end", "ending state %d of set %d was %s", v, k2, no ? "refused" : "accepted"); if (bad) { c.fault("end refused by a timer"); break; } settle(*t); t->act[k2] = -1; break; }
        case 22: if (t) { if (x % 3 == 0 && t->on) { U::StateTimer::Handle h = t->h; t->h.reset(); t->h = h; c.probe("timer handle copied"); } else drop(*t); } break;
        case 23: if (u.alive) { for (auto & z : tm) if (z.on && z.unit == ui) sample(z); std::string a = u.u->dynamicQuery(), b = u.u->dynamicQuery(T3::Q); CHECK(a.find(b) != std::string::npos, "query", "the display of one state is not part of the display of all"); c.probe("query while timers run"); unlook(u, ui); } break;
        case 24: if (u.alive && x % 4 == 0) { if (x % 3) for (auto & z : tm) if (z.unit == ui) drop(z); c.probe(x % 3 ? "unit destroyed" : "unit destroyed while timers are in use"); u.alive = false; u.u.reset(); for (auto & z : tm) if (z.unit == ui && z.on && x % 2) drop(z); } break;
        case 25: if (t && t->on && un[(size_t)t->unit].alive) CHECK(refused([&] { t->h->startState(T1::Z); }), "start", "a state of a set the unit does not have was accepted"); break; } }
    void look() {
        for (size_t a = 0; a < st.size(); ++a) { M & m = st[a]; if (!m.alive) continue; CHECK(m.s->get() == m.val, "value", "state %zu is %d instead of %d", a, m.s->get(), m.val); if (tracked) CHECK(m.s->time() == now() - m.since, "time-in-state", "state %zu says it has been %d for %lu ticks instead of %lu", a, m.val, (ul)m.s->time(), (ul)(now() - m.since));
            if (!tracked) { CHECK(refused([&] { m.s->time(); }), "time-in-state", "a state that is not tracked tells the time"); }
            auto r = tracked ? m.s->raw() : m.res; Tick sum = 0; for (size_t b = 0; b < r.size(); ++b) { sum += r[b]; } (void)sum; base.resize(std::max(base.size(), a + 1)); // trackers are reused: what they held before is the base
            if (base[a].empty()) { base[a] = r; for (size_t b = 0; b < r.size(); ++b) { CHECK(base[a][b] >= m.res[b], "residency", "state %zu lost time", a); base[a][b] -= m.res[b]; } } for (size_t b = 0; b < r.size(); ++b) CHECK(r[b] - base[a][b] == m.res[b], "residency", "state %zu is said to have spent %lu ticks in %zu instead of %lu", a, (ul)(r[b] - base[a][b]), b, (ul)m.res[b]);
            for (int v = 0; v < m.n; ++v) { Val & q = m.v[v]; CHECK(m.s->eq(v) == (v == m.val) && m.s->ne(v) == (v != m.val), "value", "state %zu compares wrongly with %d", a, v); CHECK(m.s->markers(v) == q.m.size() && m.s->marks(v) == q.marks() && m.s->complete(v) == (q.marks() == q.m.size()), "marks", "state %zu value %d: %u of %u markers are set, it should be %u of %zu", a, v, m.s->marks(v), m.s->markers(v), q.marks(), q.m.size()); CHECK(m.s->isset(v) == q.set && m.s->isclear(v) != q.set, "is-set", "state %zu: isSet(%d) is wrong", a, v);
                for (size_t k = 0; k < q.m.size(); ++k) CHECK(m.s->marked(v, k) == q.m[k] && m.s->mval(v, k) == v, "marks", "state %zu value %d: marker %zu is wrong", a, v, k); } } }
    std::vector<std::vector<Tick>> base;
    void step() {
        last = pc; for (; pc < plan.ops.size(); ++pc) { const Op & o = plan.ops[pc]; if (o.arg(0) && last != pc) { drive->schedule((sparta::Clock::Cycle)o.arg(0)); last = pc; break; } op(o); if (stored) throw *stored; look(); }
    }
    static void quiet(bool on) { static std::streambuf * old = nullptr; if (on) { static std::stringbuf nul; nul.str(""); old = std::cout.rdbuf(&nul); } else if (old) { std::cout.rdbuf(old); old = nullptr; } }
    void life(int n) {
        auto & pm = sparta::tracker::StatePoolManager::getInstance(); sched.reset(new sparta::Scheduler("sched")); pm.setScheduler(sched.get()); tracked = plan.c("tracked", 1); if (tracked) pm.setTrackingFilename(file); else c.probe("untracked");
        cm.reset(new sparta::ClockManager(sched.get())); rtn.reset(new sparta::RootTreeNode("top")); auto root = cm->makeRoot(rtn.get(), "root"); auto ck = cm->makeClock("ck", root, (uint32_t)plan.c("num", 1), (uint32_t)plan.c("den", 1)); cm->normalize(); rtn->setClock(ck.get()); clk = ck.get(); clks = {root, ck};
        tn.reset(new sparta::TreeNode(rtn.get(), "node", "node")); es.reset(new sparta::EventSet(tn.get())); for (int d = 0; d < 3; ++d) oe[d].reset(new sparta::PayloadEvent<uint64_t, SchedulingPhase::PostTick>(es.get(), "o" + std::to_string(d), CREATE_SPARTA_HANDLER_WITH_DATA(World, o0, uint64_t), (sparta::Clock::Cycle)d)); drive.reset(new sparta::UniqueEvent<SchedulingPhase::Trigger>(es.get(), "drive", CREATE_SPARTA_HANDLER(World, run_ops)));
        for (int k = 0, e = (int)plan.c("units", 1); k < e; ++k) { Un u; u.sets = k % 2 ? 1 : 2; u.lo = (uint64_t)plan.c("lo") * (uint64_t)k; u.bin = 1ull << plan.c("bin"); u.hi = u.lo + u.bin * (uint64_t)plan.c("bins", 3); std::string nm = "unit" + std::to_string(k); if (u.sets == 2) u.u.reset(new U(tn.get(), nm, "unit", (uint32_t)plan.c("pool", 1), (uint32_t)u.lo, (uint32_t)u.hi, (uint32_t)u.bin, T3::__LAST, T2::__LAST)); else u.u.reset(new U(tn.get(), nm, "unit", (uint32_t)plan.c("pool", 1), (uint32_t)u.lo, (uint32_t)u.hi, (uint32_t)u.bin, T3::__LAST)); un.push_back(std::move(u)); }
        rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize(); started = false;
        // before the first cycle
        size_t stop = pc + (size_t)plan.c("early"); for (; pc < plan.ops.size() && pc < stop; ++pc) { const Op & o = plan.ops[pc]; if (o.arg(1) < 2 || (o.arg(1) >= 16 && o.arg(1) != 24)) { op(o); look(); } }
        started = true; drive->schedule(1); bool shrt = plan.c("short") && n + 1 < (int)plan.c("lives", 1);
        try { if (shrt) sched->run((Tick)plan.c("short"), true); else sched->run(); } catch (Violation &) { throw; } catch (std::exception & e) { if (stored) throw *stored; FAIL("exception", "%s", e.what()); }
        if (stored) throw *stored; c.sim_time += now(); look(); for (auto & d : due) CHECK(d.first > now() || (shrt && d.first == now()), "observer-missed", "observer %lu was not told at tick %lu", (ul)d.second, (ul)d.first);
        for (size_t k = 0; k < un.size(); ++k) if (un[k].alive) unlook(un[k], (int)k);
        // some states outlive the tracking pool, as those of a simulation's resources may
        bool keep = plan.c("keep"); if (keep) c.probe("states outlive the tracking file");
        for (auto & m : st) if (m.alive && !keep) { m.res[(size_t)m.val] += now() - m.since; if (fsum[m.kind].empty()) fsum[m.kind].assign(m.res.size(), 0); for (size_t a = 0; a < m.res.size(); ++a) fsum[m.kind][a] += m.res[a]; m.s.reset(); }
        pm.flushPool(); if (tracked) residency(keep);
        st.clear(); base.clear(); obs.clear(); due.clear(); fsum.clear(); fcount.clear(); tm.clear(); un.clear(); rtn->enterTeardown(); drive.reset(); for (auto & e : oe) e.reset(); es.reset(); tn.reset(); rtn.reset(); clks.clear(); cm.reset(); sched.reset(); pm.setScheduler(nullptr);
    }
    void residency(bool keep) {
        std::ifstream f(file); std::string l; std::map<int, std::pair<uint64_t, std::vector<Tick>>> got; std::map<int, std::vector<double>> avg; int kind = -1, part = 0; uint64_t cnt = 0;
        while (std::getline(f, l)) { size_t a = l.rfind(" : "); if (l.find("Enum Class Name") == 0) { kind = l.find("E4") != std::string::npos ? 0 : l.find("Bool") != std::string::npos ? 1 : 2; CHECK(!got.count(kind), "file", "the tracking file lists a kind of state twice"); part = 0; got[kind].first = 0; continue; } if (l.find("Aggregate") == 0) { part = 1; continue; } if (l.find("Average") == 0) { part = 2; continue; } if (a == std::string::npos) continue; if (part == 0) { cnt = strtoull(l.c_str() + a + 3, nullptr, 10); got[kind].first = cnt; } else if (part == 1) { if (kind != 1) CHECK(l[0] == (kind == 0 ? "ABCD" : "XY")[got[kind].second.size() % 4], "file", "the tracking file labels a value '%s'", l.c_str()); got[kind].second.push_back(strtoull(l.c_str() + a + 3, nullptr, 10)); } else avg[kind].push_back(strtod(l.c_str() + a + 3, nullptr)); }
        CHECK(got.size() == fcount.size(), "file", "the tracking file lists %zu kinds of states instead of %zu", got.size(), fcount.size());
        for (auto & k : fcount) { auto & g = got[k.first]; size_t n = k.first == 0 ? 4 : 2; CHECK(g.first == k.second, "file", "the tracking file says %lu states were used instead of %lu", (ul)g.first, (ul)k.second); CHECK(g.second.size() == n && avg[k.first].size() == n, "file", "the tracking file lists %zu values instead of %zu", g.second.size(), n); for (size_t a = 0; a < n; ++a) { Tick e = fsum.count(k.first) ? fsum[k.first][a] : 0; CHECK(g.second[a] == e || (keep && g.second[a] < e), "residency", "the tracking file says states of kind %d spent %lu ticks in value %zu instead of %lu", k.first, (ul)g.second[a], a, (ul)e); double av = (double)g.second[a] / (double)k.second; CHECK(std::abs(avg[k.first][a] - av) <= 1e-4 * av + 1e-9, "residency", "the tracking file says %g ticks on average instead of %g", avg[k.first][a], av); } }
        c.probe("tracking file compared"); }
    void go() {
        char f[] = "/tmp/dststXXXXXX"; int fd = mkstemp(f); CHECK(fd >= 0, "setup", "mkstemp"); close(fd); file = f; struct Rm { World & w; ~Rm() { auto & pm = sparta::tracker::StatePoolManager::getInstance(); w.tm.clear(); w.un.clear(); w.st.clear(); pm.flushPool(); unlink(w.file.c_str()); quiet(false); } } rm{*this}; quiet(true);
        for (int n = 0; n < (int)plan.c("lives", 1); ++n) { if (n) { c.fault("simulation ended and another begun"); pc = plan.c("short") ? pc : 0; } life(n); }
    }
};
template<class T> void St<T>::Mon::signalSet(const typename S::EnumTValueType & v, int64_t * m) { st->w->signal(st->id, n, (int)(uint32_t)v, m); }

void gen(Rng & r, Plan & p, bool th) {
    p.cfg["num"] = r.range(1, 3); p.cfg["den"] = r.range(1, 2); p.cfg["units"] = r.range(0, 2); p.cfg["lo"] = r.p(60) ? 0 : r.range(1, 5); p.cfg["bin"] = r.range(0, 2); p.cfg["bins"] = r.range(1, 6); p.cfg["pool"] = r.range(1, 3); p.cfg["early"] = r.p(60) ? r.range(1, 6) : 0; p.cfg["lives"] = r.p(70) ? 1 : r.range(2, 3); p.cfg["short"] = r.p(50) ? r.range(3, 30) : 0; p.cfg["keep"] = r.p(25); p.cfg["tracked"] = r.p(85);
    p.cfg["lay"] = r.range(0, 1000); std::vector<int> w(26); for (auto & x : w) x = (int)r.range(0, 6); w[0] += 3; w[4] += 3; w[5] += 4; w[15] = (int)r.range(0, 2); w[24] = (int)r.range(0, 1); w[25] = (int)r.range(0, 1); if (!p.cfg["units"]) for (int k = 16; k < 26; ++k) w[(size_t)k] = 0; int few = (int)r.range(1, 6), gaps = (int)r.range(10, 70);
    for (int i = 0, m = (int)r.range(4, th ? 120 : 60); i < m; ++i) p.add("o", {r.p(gaps) ? (r.p(10) ? r.range(5, 40) : r.range(1, 4)) : 0, i == 0 ? 0 : (int64_t)r.w(w), r.range(0, few), r.range(0, few), r.range(0, 1 << 20)});
}
Register R27([] {
    Harness h; h.property = "C27"; h.technique = "deterministic simulation: seeded histories of states, markers, monitors, observers and state timers over simulated time, with monitors that act while they are signalled, refused operations and several simulations in one process, against a reference model";
    h.rule = "plan = a clock, timer units, and operations at seeded cycles (also before the first); what monitors do is derived from the plan; non-trivial: a marker caused a transition or a signal, or a timer ran"; h.measure = "hash of the event log";
    h.real = "State, Audience, StateTracker (pool, manager, file), StateTimerUnit, Histogram, Scheduler, PayloadEvent"; h.stub = "global operator new (placement and fill); the handlers are the harness's";
    h.quick_runs = 12000; h.thorough_runs = 1500000; h.gen = gen; h.run = runWorld<World>; return h; }());
} // namespace stw
