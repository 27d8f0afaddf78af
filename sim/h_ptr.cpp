// C26: shared and weak pointers and the bounded allocator behind them, against a model that counts references; constructors
// that throw or allocate, destructors that drop, move and create other references, allocations that fail.
#include "world_base.hpp"
#include "sparta/utils/SpartaSharedPointer.hpp"
#include "sparta/utils/SpartaSharedPointerAllocator.hpp"
#include <sstream>

namespace {
struct World;
struct Base { int id = -1; virtual ~Base() {} virtual int who() const { return id; } };
struct Node : Base {
    static const uint64_t LIVE = 0x11FE11FE11FEull; World * w; uint64_t magic = 0; int64_t v; int act; int64_t arg; sparta::SpartaSharedPointer<Node> next; sparta::SpartaWeakPointer<Node> self;
    Node(World * w, int64_t spec, int pool, int depth); ~Node();
};
struct A1 { uint64_t a = 7; virtual ~A1() {} }; struct B1 { uint64_t b = 9; virtual ~B1() {} }; struct D1 : A1, B1 {};
typedef sparta::SpartaSharedPointer<Node> SP; typedef sparta::SpartaSharedPointer<Base> BP; typedef sparta::SpartaWeakPointer<Node> WP; typedef sparta::SpartaSharedPointerAllocator<Node> Alloc;
struct Thrown : std::exception { const char * what() const noexcept override { return "constructor failed"; } };

struct World : PBase {
    using PBase::PBase;
    enum { NS = 7, NB = 3, NW = 5, NP = 2 };
    enum State { NEW, ALIVE, DYING, DEAD };
    struct O { State st = NEW; int pool = -1, next = -1, self = -1; Node * p = nullptr; int64_t v = 0; };
    std::vector<O> ob; SP sh[NS]; BP ba[NB]; WP wk[NW]; std::unique_ptr<Alloc> pool[NP]; size_t cap[NP], mark[NP]; int warned[NP] = {0, 0}, over[NP] = {0, 0}; bool must_warn[NP] = {false, false}; size_t most[NP] = {0, 0};
    int S[NS], B[NB], W[NW]; std::vector<int> T; bool busy[NS] = {}; int depth = 0; int made = -1; size_t deaths = 0; bool over_ok = false;
    int strong(int id) { int n = 0; for (int x : S) n += x == id; for (int x : B) n += x == id; for (int x : T) n += x == id; for (auto & o : ob) n += (o.st == ALIVE || o.st == NEW) && o.next == id; return n; }
    int weak(int id, bool dying = false) { int n = 0; for (int x : W) n += x == id; for (auto & o : ob) n += (o.st == ALIVE || o.st == NEW || (dying && o.st == DYING)) && o.self == id; return n; }
    size_t used(int k, bool dying) { size_t n = 0; for (size_t i = 0; i < ob.size(); ++i) if (ob[i].pool == k) { O & o = ob[i]; n += o.st == ALIVE || o.st == NEW || (o.st == DYING && dying) || (o.st != ALIVE && o.st != NEW && (o.st == DEAD || !dying) && weak((int)i, dying)); } return n; }
    void born(Node * n, int64_t spec, int pl) { n->id = (int)ob.size(); ob.emplace_back(); O & o = ob.back(); o.p = n; o.pool = pl; o.v = spec; c.log("+%d pool %d", n->id, pl); }
    void soft(const char * cls, const std::string & m) { if (!stored) stored.reset(new Violation(cls, m)); } // in destructors
    void died(Node * n);
    void act(Node * n);
    int create(int64_t spec, int pl, int d, SP & out); // the object's id, -1 if refused
    // an operation that gives slot i another value; drops what it held before
    template<class F> void on(int i, F && f) { bool b = busy[i]; busy[i] = true; f(); busy[i] = b; }
    void op(const Op & o);
    void look();
    void finish();
    void go();
};
Node::Node(World * w_, int64_t spec, int pool, int d) : w(w_), v(spec), act((int)(spec % 11)), arg(spec / 11) {
    magic = LIVE; w->born(this, spec, pool); int me = id;
    if ((spec / 7) % 5 == 0 && d < 2) { int k = w->create(spec / 35 + 1, pool >= 0 ? pool : (int)(spec % 3) - 1, d + 1, next); w->ob[(size_t)me].next = k; if (k >= 0) w->T.pop_back(); w->c.probe("constructed inside a constructor"); }
    if ((spec / 3) % 13 == 0) { w->c.fault("constructor throws"); w->c.log("throw %d", me); w->ob[(size_t)me].st = World::DYING; magic = 0; throw Thrown(); }
    w->ob[(size_t)me].st = World::ALIVE;
}
Node::~Node() { w->died(this); }
int World::create(int64_t spec, int pl, int d, SP & out) {
    if (pl < 0) { try { std::unique_ptr<Node> n(new Node(this, spec, -1, d)); int id = n->id; T.push_back(id); out.reset(n.release()); return id; } catch (Thrown &) { return -1; } }
    size_t lo = used(pl, false), hi = used(pl, true); int ov = over[pl]; size_t first = ob.size();
    try {
        SP p = sparta::allocate_sparta_shared_pointer<Node>(*pool[pl], this, spec, pl, d);
        if (lo >= cap[pl]) failv("pool-limit", "an allocation beyond the maximum number of blocks succeeded");
        if (over[pl] != ov && ob[first].pool == pl && d == 2) failv("pool-over", "over allocation was announced for an allocation that succeeded");
        if (!p) failv("null", "allocation gave a null pointer"); int id = p->id; T.push_back(id); if (lo > mark[pl]) must_warn[pl] = true; out = std::move(p); return id;
    } catch (Thrown &) { if (lo > mark[pl]) must_warn[pl] = true; return -1; }
    catch (sparta::SpartaException & e) { if (stored) throw; if (hi < cap[pl]) { char b[200]; snprintf(b, sizeof b, "an allocation was refused although only %lu of %lu blocks are in use", (ul)hi, (ul)cap[pl]); failv("pool-lost", b); }
        if (over[pl] != ov + 1) failv("pool-over", "over allocation was not announced exactly once"); c.fault("allocator exhausted"); return -1; }
}
void World::died(Node * n) {
    ++deaths; if (n->magic != Node::LIVE) soft("twice", "an object was destroyed that was not alive"); n->magic = 0; size_t id = (size_t)n->id; if (stored) return;
    c.log("-%lu", (ul)id); if (id >= ob.size() || ob[id].p != n || ob[id].st != ALIVE) soft("twice", "an object was destroyed that was not alive"); if (stored) return; O & o = ob[id];
    if (o.v != n->v) soft("damaged", "an object was damaged"); int s = strong((int)id); if (s) { char b[100]; snprintf(b, sizeof b, "object %lu was destroyed with %d references left", (ul)id, s); soft("early", b); }
    o.st = DYING; if (depth < 6) { ++depth; try { act(n); } catch (Violation &) { } catch (std::exception & e) { if (!stored) stored.reset(new Violation("destructor", e.what())); } --depth; }
}
// what a destructor does to other references
void World::act(Node * n) {
    int i = (int)(n->arg % NS), j = (int)(n->arg / NS % NS); if (stored || n->act < 5) return;
    if (n->self.lock() && n->self.lock()->id == n->id) failv("resurrected", "the weak pointer of a dying object to itself can be locked");
    for (int k = 0; k < NW; ++k) if (W[k] == n->id) { if (!wk[k].expired() || wk[k].use_count() || wk[k].lock()) failv("resurrected", "a weak pointer to a dying object can be locked"); c.probe("weak pointer to a dying object"); }
    if (busy[i]) return; c.probe("destructor works on other pointers"); c.log("act %d %d %d", n->act, i, j);
    if (n->act == 5) on(i, [&] { S[i] = -1; sh[i].reset(); });
    else if (n->act == 6 && i != j && !busy[j]) on(i, [&] { S[i] = S[j]; busy[j] = true; sh[i] = sh[j]; busy[j] = false; });
    else if (n->act == 7 && i != j && !busy[j]) on(i, [&] { S[i] = S[j]; S[j] = -1; busy[j] = true; sh[i] = std::move(sh[j]); busy[j] = false; });
    else if (n->act == 8) { SP p; size_t t = T.size(); int id = create(n->arg / 49 + 1, (int)(n->arg % 3) - 1, 1, p); if (id >= 0) on(i, [&] { S[i] = id; sh[i] = std::move(p); }); T.resize(t); }
    else if (n->act == 9) { int k = j % NW; W[k] = S[i]; wk[k] = WP(sh[i]); }
    else if (n->act == 10 && n->next) on(i, [&] { S[i] = ob[(size_t)n->id].next; sh[i] = n->next; });
}
void World::op(const Op & o) {
    int i = (int)o.arg(1), j = (int)o.arg(2); int64_t x = o.arg(3); T.clear(); c.log("op %d %d %d", (int)o.arg(0), i, j);
    auto at = [&](int k) { return (size_t)S[k]; };
    switch (o.arg(0)) {
    case 0: case 1: { SP p; int id = create(x, o.arg(0) ? j % NP : -1, 0, p); if (id < 0) break; if (x % 2) on(i, [&] { S[i] = id; sh[i] = std::move(p); }); else on(i, [&] { S[i] = id; sh[i] = p; T.clear(); p.reset(); }); break; }
    case 2: if (i == j) { if (!refused([&] { SP & a = sh[i]; sh[i] = a; })) failv("self", "assigning a pointer to itself is not refused"); break; } on(i, [&] { S[i] = S[j]; busy[j] = true; sh[i] = sh[j]; busy[j] = false; }); break;
    case 3: if (i == j) break; on(i, [&] { S[i] = S[j]; S[j] = -1; busy[j] = true; sh[i] = std::move(sh[j]); busy[j] = false; }); break;
    case 4: on(i, [&] { S[i] = -1; if (x % 3 == 0) sh[i].reset(); else if (x % 3 == 1) sh[i] = nullptr; else { SP t(std::move(sh[i])); } }); break;
    case 5: if (S[j] < 0 || ob[at(j)].st != ALIVE) break; on(i, [&] { int nx = ob[at(j)].next; bool b = busy[j]; busy[j] = true; if (i == j) c.probe("pointer replaced by one inside its own object"); S[i] = nx; sh[i] = sh[j]->next; busy[j] = b; }); break;
    case 6: if (S[i] < 0) break; { SP & n = sh[i]->next; if (&n == &sh[j]) break; ob[at(i)].next = S[j]; bool bi = busy[i], bj = busy[j]; busy[i] = busy[j] = true; n = sh[j]; busy[i] = bi; busy[j] = bj; break; }
    case 7: if (S[j] < 0) break; on(i, [&] { O & q = ob[at(j)]; int nx = q.next; q.next = -1; bool b = busy[j]; busy[j] = true; S[i] = nx; sh[i] = std::move(sh[j]->next); busy[j] = b; }); break;
    case 8: { int k = j % NW; W[k] = S[i]; if (x % 2) wk[k] = sh[i]; else { WP t(sh[i]); wk[k] = t; } break; }
    case 9: { int k = i % NW, l = j % NW; if (k == l && W[k] >= 0 && ob[(size_t)W[k]].st != ALIVE) break; W[k] = W[l]; wk[k] = wk[l]; break; }
    case 10: { int k = i % NW, l = j % NW; if (k == l) break; W[k] = W[l]; W[l] = -1; wk[k] = std::move(wk[l]); break; }
    case 11: { int k = j % NW; W[k] = -1; wk[k] = WP(); break; }
    case 12: { int k = j % NW; int id = W[k]; if (id >= 0 && ob[(size_t)id].st != ALIVE) { id = -1; c.probe("lock of an expired pointer"); } on(i, [&] { if (id >= 0) T.push_back(id); S[i] = id; sh[i] = wk[k].lock(); }); break; }
    case 13: { int k = j % NW; int id = W[k]; bool al = id >= 0 && ob[(size_t)id].st == ALIVE; { SP a = wk[k].lock(), b = wk[k].lock(); if ((bool)a != al || (bool)b != al || (al && a->id != id)) failv("lock", "lock() of a weak pointer gave the wrong object"); if (al && b.use_count() != (uint32_t)strong(id) + 2) failv("count", "use_count() after two locks is wrong"); if (x % 2) a.reset(); if (wk[k].expired() == al) failv("expired", "expired() is wrong while the pointer is locked"); } break; }
    case 14: { int k = j % NB; T.clear(); bool b = busy[i]; busy[i] = true; B[k] = S[i]; if (x % 2) ba[k] = sh[i]; else { BP t(sh[i]); if (S[i] >= 0) T.push_back(S[i]); ba[k] = t; T.clear(); } busy[i] = b; break; }
    case 15: { int k = i % NB, l = j % NB; if (x % 3 == 0) { B[k] = -1; ba[k].reset(); } else if (k != l && x % 3 == 1) { B[k] = B[l]; ba[k] = ba[l]; } else if (k != l) { B[k] = B[l]; B[l] = -1; ba[k] = std::move(ba[l]); } break; }
    case 16: if (S[i] < 0) break; { ob[at(i)].self = S[j]; sh[i]->self = sh[j]; break; }
    case 17: { { std::vector<SP> v; std::vector<WP> u; for (int k = 0; k < NS; ++k) for (int m = 0; m < (int)(x >> k) % 3; ++m) { v.push_back(sh[k]); u.push_back(sh[k]); T.push_back(S[k]); } for (size_t k = 0; k < v.size(); ++k) if (v[k].use_count() != (T[k] < 0 ? 0 : (uint32_t)strong(T[k]))) failv("count", "use_count() in a container is wrong"); if (x % 2) v.erase(v.begin(), v.begin() + (long)(v.size() / 2)); T.clear(); } break; }
    case 18: if (i != j) { std::swap(S[i], S[j]); std::swap(sh[i], sh[j]); } break;
    case 19: { int64_t spec = x - x % 11; while ((spec / 7) % 5 == 0 || (spec / 3) % 13 == 0) spec += 11; std::unique_ptr<Node> n(new Node(this, spec, -1, 2)); size_t d = deaths; int id = n->id; T.push_back(id); Node * raw = n.release(); bool boom = false; int old = S[i]; S[i] = id; af::arm(1); on(i, [&] { try { sh[i].reset(raw); } catch (std::bad_alloc &) { boom = true; } }); af::disarm(); T.clear();
        if (!boom) failv("oom", "a failing allocation was not reported"); c.fault("allocation failed");
        // the caller still owns the object; the handle is as it was
        S[i] = old; if (sh[i].get() != (old < 0 ? nullptr : ob[(size_t)old].p)) failv("oom", "a failed reset changed the pointer"); if (deaths != d) failv("oom", "a failed reset destroyed something"); delete raw; ob[(size_t)id].st = DEAD; break; }
    case 20: { sparta::SpartaSharedPointer<D1> d(new D1); sparta::SpartaSharedPointer<B1> b(d); if (b.get() != static_cast<B1 *>(d.get())) c.known("upcast-second-base", "converting to a base class which is not the first one gives a pointer to something else"); break; }
    }
    T.clear(); for (auto & q : ob) if (q.st == DYING) q.st = DEAD; if (stored) throw *stored;
    for (size_t k = 0; k < ob.size(); ++k) if (ob[k].st == ALIVE && !strong((int)k)) FAIL("leak", "object %lu has no references but was not destroyed", (ul)k);
    look();
}
void World::look() {
    auto one = [&](const char * wh, int k, int id, bool b, bool nb, const Base * p, uint32_t n) { const Base * e = id < 0 ? nullptr : ob[(size_t)id].p; CHECK(b == (id >= 0) && nb == (id < 0) && p == e, "target", "%s %d refers to the wrong object", wh, k); uint32_t s = id < 0 ? 0 : (uint32_t)strong(id); CHECK(n == s, "count", "%s %d: use_count() is %u, %u references exist", wh, k, n, s); if (p) CHECK(p->who() == id, "damaged", "object %d is damaged", id); };
    for (int k = 0; k < NS; ++k) one("pointer", k, S[k], (bool)sh[k], !sh[k], sh[k].get(), sh[k].use_count()); for (int k = 0; k < NB; ++k) one("base pointer", k, B[k], (bool)ba[k], !ba[k], ba[k].get(), ba[k].use_count());
    for (int k = 0; k < NS; ++k) for (int l = 0; l < NS; ++l) CHECK((sh[k] == sh[l]) == (S[k] == S[l]) && (sh[k] != sh[l]) == (S[k] != S[l]), "compare", "comparison of two pointers is wrong");
    for (int k = 0; k < NW; ++k) { bool al = W[k] >= 0 && ob[(size_t)W[k]].st == ALIVE; CHECK(wk[k].expired() == !al, "expired", "weak pointer %d: expired() is wrong", k); CHECK(wk[k].use_count() == (al ? strong(W[k]) : 0), "count", "weak pointer %d: use_count() is %ld", k, wk[k].use_count()); }
    for (auto & o : ob) if (o.st == ALIVE) { CHECK(o.p->magic == Node::LIVE && o.p->v == o.v, "damaged", "an object was damaged"); CHECK(o.p->next.get() == (o.next < 0 ? nullptr : ob[(size_t)o.next].p), "target", "a pointer inside an object refers to the wrong object"); }
    for (int k = 0; k < NP; ++k) { size_t u = used(k, false); Alloc & a = *pool[k]; CHECK(a.hasOutstandingObjects() == (u > 0), "outstanding", "hasOutstandingObjects() is wrong with %lu blocks in use", (ul)u); auto v = a.getOutstandingAllocatedObjects(); std::set<const Node *> s(v.begin(), v.end()), e; for (auto & o : ob) if (o.pool == k && o.st == ALIVE) e.insert(o.p); CHECK(v.size() == e.size() && s == e, "outstanding", "%lu objects are reported outstanding, %lu are", (ul)v.size(), (ul)e.size());
        CHECK(a.getNumAllocated() - a.getNumFree() == u, "outstanding", "%lu blocks allocated, %lu free, %lu in use", (ul)a.getNumAllocated(), (ul)a.getNumFree(), (ul)u); CHECK(a.getNumAllocated() <= cap[k], "pool-limit", "more blocks than the maximum"); most[k] = std::max(most[k], u); CHECK(warned[k] <= 1, "watermark", "warned %d times", warned[k]); CHECK(!must_warn[k] || warned[k], "watermark", "allocation went beyond the watermark without a warning"); }
}
void World::finish() { // cycles keep their members alive: break them
    for (int k = 0; k < NS; ++k) { S[k] = -1; sh[k].reset(); } for (int k = 0; k < NB; ++k) { B[k] = -1; ba[k].reset(); } for (int k = 0; k < NS; ++k) { S[k] = -1; sh[k].reset(); }
    for (bool more = true; more;) { more = false; for (size_t k = 0; k < ob.size(); ++k) if (ob[k].st == ALIVE && ob[k].next >= 0) { more = true; c.probe("cycle broken"); WP keep(ob[k].p->next); SP t = keep.lock(); SP & n = ob[k].p->next; T.assign(1, ob[k].next); ob[k].next = -1; n.reset(); T.clear(); t.reset(); if (stored) throw *stored; break; } for (int k = 0; k < NS; ++k) if (S[k] >= 0) { S[k] = -1; sh[k].reset(); more = true; } }
    for (auto & q : ob) if (q.st == DYING) q.st = DEAD; for (auto & o : ob) CHECK(o.st == DEAD, "leak", "an object outlives all references to it"); look(); for (int k = 0; k < NW; ++k) { W[k] = -1; wk[k] = WP(); } look();
}
void World::go() {
    for (int & x : S) x = -1; for (int & x : B) x = -1; for (int & x : W) x = -1;
    for (int k = 0; k < NP; ++k) { cap[k] = (size_t)plan.c(k ? "cap1" : "cap0", 1); mark[k] = (size_t)plan.c(k ? "mark1" : "mark0", 0) % (cap[k] + 1); pool[k].reset(new Alloc(cap[k], mark[k])); pool[k]->registerCustomWaterMarkCallback([this, k](const Alloc & a) { ++warned[k]; c.log("mark %d", k); c.probe("watermark hit"); if (a.getNumAllocated() < mark[k]) failv("watermark", "warned before the watermark was reached"); }); pool[k]->registerCustomOverAllocationCallback([this, k](const Alloc &) { ++over[k]; c.log("over %d", k); }); }
    CHECK(refused([&] { Alloc bad(cap[0], cap[0] + 1); }), "watermark", "a watermark beyond the maximum is not refused");
    for (auto & o : plan.ops) { if (deaths || ob.size() > 1) c.nontrivial = true; if (ob.size() > 400) break; op(o); c.sim_time++; }
    finish();
}
void gen(Rng & r, Plan & p, bool th) {
    p.cfg["cap0"] = r.range(1, 6); p.cfg["mark0"] = r.range(0, 6); p.cfg["cap1"] = r.range(1, 3); p.cfg["mark1"] = r.range(0, 3); p.cfg["lay"] = r.range(0, 1000);
    std::vector<int> w(21); for (auto & x : w) x = (int)r.range(0, 6); w[0] += 6; w[1] += 10; w[4] += 4; w[19] = r.p(30) ? 2 : 0; w[20] = r.p(1) ? 1 : 0; int ns = (int)r.range(2, World::NS);
    for (int i = 0, m = (int)r.range(4, th ? 120 : 50); i < m; ++i) p.add("o", {(int64_t)r.w(w), r.range(0, ns - 1), r.range(0, ns - 1), r.range(0, 1 << 20)});
}
Register R([] {
    Harness h; h.property = "C26"; h.technique = "deterministic simulation: seeded histories of shared, weak and base class pointers over the heap and bounded allocators, with constructors that throw and destructors that change other pointers, against a model that counts references";
    h.rule = "plan = two allocators of 1-6 blocks and a history of creating, copying, moving, locking and dropping pointers in slots, inside objects and in containers; what constructors and destructors do is part of the plan; non-trivial: several objects, or one destroyed";
    h.real = "SpartaSharedPointer, SpartaWeakPointer, SpartaSharedPointerAllocator"; h.stub = "the objects pointed to; global operator new (placement, fill, failure)"; h.measure = "hash of the event log";
    h.quick_runs = 30000; h.thorough_runs = 3000000; h.gen = gen; h.run = runWorld<World>; return h; }());
} // namespace
