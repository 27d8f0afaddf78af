// C14: the containers (Queue, Buffer, Array, FrontArray, CircularBuffer, PriorityQueue) against a sequence model,
// with held iterators, refused calls and copies that fail.
#include "world_base.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/resources/Queue.hpp"
#include "sparta/resources/Buffer.hpp"
#include "sparta/resources/Array.hpp"
#include "sparta/resources/FrontArray.hpp"
#include "sparta/resources/CircularBuffer.hpp"
#include "sparta/resources/PriorityQueue.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include <new>

namespace {
// element whose copies (not moves) fail on demand
struct El : Canary {
    static int & fuse() { static int f = 0; return f; }
    static void burn() { if (fuse() > 0 && --fuse() == 0) throw std::bad_alloc(); }
    El(int64_t v = 0) : Canary(v) {}
    El(const El & o) : Canary((burn(), o)) {}
    El(El && o) : Canary(std::move(o)) {}
    El & operator=(const El &) = default; El & operator=(El &&) = default;
};
struct ElLess { bool operator()(const El & a, const El & b) const { return a.val / 4 < b.val / 4; } };

struct World;
struct Cont { // one container under test
    World & w; std::string name; bool stats = false; uint32_t cap; std::vector<uint64_t> occ; uint64_t lvl = 0, since = 0; uint32_t most = 0;
    Cont(World & w_, std::string n, uint32_t c) : w(w_), name(n), cap(c) {}
    virtual ~Cont() {}
    virtual void op(int code, const Op & o, int64_t v) = 0;
    virtual void look(const char * wh) = 0;
    virtual uint32_t size() = 0;
    virtual const char * statname(uint32_t) = 0;
    void level();
};
struct World : PBase {
    using PBase::PBase;
    struct Act { World * w; std::unique_ptr<sparta::PhasedPayloadEvent<uint32_t>> ev; void fire(const uint32_t & i) { w->on_op(i); } };
    std::unique_ptr<sparta::TreeNode> node; std::unique_ptr<sparta::EventSet> es; std::unique_ptr<sparta::StatisticSet> ss; std::vector<std::unique_ptr<Act>> acts; std::vector<std::unique_ptr<Cont>> cs; std::vector<Op> ops; int64_t nv = 0;
    uint64_t cyc() { return clks[0]->elapsedCycles(); }
    // do f with the element fuse armed as the op says; true if the copy failed (nothing may have changed then)
    template<class F> bool faulty(const Op & o, F && f) { if (o.arg(6) % 8 != 1) { f(); return false; } struct Off { ~Off() { El::fuse() = 0; } } off; El::fuse() = 1 + (int)(o.arg(6) / 8) % 2; bool t = false; try { f(); } catch (std::bad_alloc &) { t = true; c.fault("failing copy"); } return t; }
    void on_op(uint32_t i);
    void go();
};
void Cont::level() { // occupancy changed, at this cycle
    if (!stats) return; uint32_t s = size(); if (s != lvl) { occ[lvl] += w.cyc() - since; since = w.cyc(); lvl = s; if (s > most) most = s; }
}
#define WCHECK(cond, cls, ...) do { if (!(cond)) { char b_[900]; int n_ = snprintf(b_, sizeof b_, "%s %s: ", name.c_str(), wh); snprintf(b_ + n_, sizeof b_ - n_, __VA_ARGS__); w.failv(cls, b_); } } while (0)

// ---- sequence containers share the model: (id, value) in order
struct Seq : Cont { struct E { uint64_t id; int64_t v; }; std::vector<E> m; uint64_t ids = 0; using Cont::Cont; uint32_t size() override { return (uint32_t)m.size(); }
    int pos(uint64_t id) { for (size_t i = 0; i < m.size(); ++i) if (m[i].id == id) return (int)i; return -1; } };

template<class Q> struct Held { typename Q::iterator it; uint64_t id; };

struct QueueC : Seq {
    typedef sparta::Queue<El> Q; std::unique_ptr<Q> q; std::vector<Held<Q>> held;
    QueueC(World & w, std::string n, uint32_t c, sparta::StatisticSet * ss) : Seq(w, n, c) { q.reset(new Q(n, c, w.clks[0].get(), ss)); stats = ss && c; occ.assign(c + 1, 0); }
    const char * statname(uint32_t i) override { static std::string s; s = name + "_utilization_count" + std::to_string(i); return s.c_str(); }
    void op(int code, const Op & o, int64_t v) override { const char * wh = "op";
        switch (code % 6) {
        case 0: case 1: case 2: { bool full = m.size() == cap; Q::iterator it; bool f = false; El e(v); bool t = w.refused([&] { f = w.faulty(o, [&] { if (code % 6 == 2) { it = q->push(std::move(e)); } else it = q->push(e); }); }); WCHECK(t == full, full ? "overflow" : "refused", full ? "a push into a full queue was accepted" : "a push was refused with %zu of %u entries", m.size(), cap);
            if (!t && !f) { m.push_back({++ids, v}); if (held.size() < 12 && o.arg(5) & 1) held.push_back({it, ids}); } break; }
        case 3: { bool e = m.empty(); bool t = w.refused([&] { q->pop(); }); WCHECK(t == e, "pop", "pop of %zu entries was %s", m.size(), t ? "refused" : "accepted"); if (!t) m.erase(m.begin()); break; }
        case 4: { bool e = m.empty(); bool t = w.refused([&] { q->pop_back(); }); WCHECK(t == e, "pop", "pop_back of %zu entries was %s", m.size(), t ? "refused" : "accepted"); if (!t) m.pop_back(); break; }
        case 5: if (o.arg(5) == 3) { q->clear(); m.clear(); } else if (!m.empty()) { uint32_t i = (uint32_t)(o.arg(4) % m.size()); q->access(i).val = v; m[i].v = v; } else WCHECK(w.refused([&] { q->front(); }), "read", "front() of an empty queue was accepted"); break;
        } }
    void look(const char * wh) override {
        WCHECK(q->size() == m.size() && q->empty() == m.empty() && q->numFree() == cap - m.size() && q->capacity() == cap, "size", "size() is %u instead of %zu", q->size(), m.size());
        for (uint32_t i = 0; i < m.size(); ++i) WCHECK(q->isValid(i) && q->read(i).alive() && q->read(i).val == m[i].v, "content", "entry %u holds %ld instead of %ld", i, (long)q->read(i).val, (long)m[i].v);
        WCHECK(!q->isValid((uint32_t)m.size()), "size", "isValid past the end");
        if (!m.empty()) WCHECK(q->front().val == m[0].v && q->back().val == m.back().v, "content", "front()/back() wrong");
        uint32_t i = 0; for (auto it = q->begin(); it != q->end(); ++it, ++i) { WCHECK(i < m.size() && it.isValid() && (*it).val == m[i].v && it.getIndex() == i, "iterate", "iteration reads %ld at %u", (long)(*it).val, i); } WCHECK(i == m.size(), "iterate", "iteration saw %u of %zu entries", i, m.size());
        if (m.size()) { uint32_t k = 0; auto it = q->begin(); for (auto pr = q->begin(); it != q->end(); ++k) { pr = it; auto was = it++; WCHECK(was == pr && (*was).val == m[k].v, "iterate", "postfix ++ returned another position at %u", k); if (it != q->end()) { WCHECK(was < it && it > was && !(was > it) && !(it < was) && !(was < was) && !(was > was) && was == was && was != it, "order", "iterators %u and %u compare the wrong way", k, k + 1); } } WCHECK(k == m.size(), "iterate", "postfix iteration saw %u of %zu entries", k, m.size()); Q::const_iterator ci(q->begin()); WCHECK((*ci).val == m[0].v, "iterate", "a const iterator reads another entry"); }
        if (i) { auto it = q->end(); for (; i-- > 0;) { --it; WCHECK(it.isValid() && (*it).val == m[i].v, "iterate", "backward iteration is wrong at %u", i); } }
        for (auto & h : held) { int p = pos(h.id); WCHECK(h.it.isValid() == (p >= 0), "held", "an iterator to %s entry is %s", p >= 0 ? "a live" : "a removed", h.it.isValid() ? "valid" : "invalid"); if (p >= 0) WCHECK((*h.it).val == m[p].v && h.it.getIndex() == (uint32_t)p, "held", "a held iterator reads %ld at index %u instead of %ld at %d", (long)(*h.it).val, h.it.getIndex(), (long)m[p].v, p); }
        if (held.size() >= 12) held.erase(held.begin(), held.begin() + 4);
    }
};

struct BufC : Seq {
    typedef sparta::Buffer<El> Q; std::unique_ptr<Q> q; std::vector<Held<Q>> held; bool inf = false; uint32_t delta = 1;
    BufC(World & w, std::string n, uint32_t c, sparta::StatisticSet * ss, int infd) : Seq(w, n, c) { q.reset(new Q(n, c, w.clks[0].get(), infd ? nullptr : ss)); stats = ss && c && !infd; occ.assign(c + 1, 0); if (infd) { q->makeInfinite(delta = (uint32_t)infd); inf = true; } }
    const char * statname(uint32_t i) override { static std::string s; s = name + "_utilization_count" + std::to_string(i); return s.c_str(); }
    void grow() { if (inf && m.size() == cap) { const char * wh = "growth"; WCHECK(q->capacity() >= cap + delta, "size", "the buffer grew from %u to %u entries, by less than %u", cap, q->capacity(), delta); cap = q->capacity(); held.clear(); w.c.probe("buffer grew"); } } // growing moves the elements: held iterators end here
    void op(int code, const Op & o, int64_t v) override { const char * wh = "op"; uint32_t n = (uint32_t)m.size();
        switch (code % 8) {
        case 0: case 1: case 2: case 3: { bool back = code % 8 < 2; uint32_t at = back ? n : (uint32_t)(o.arg(4) % (n + 1)); bool full = n == cap && !inf; Q::iterator it; bool f = false; El e(v); 
            bool t = w.refused([&] { f = w.faulty(o, [&] { if (back) { if (code & 1) it = q->push_back(std::move(e)); else it = q->push_back(e); } else if (o.arg(5) & 2 && at < n) { Q::const_iterator p = q->begin(); for (uint32_t i = 0; i < at; ++i) ++p; it = q->insert(p, e); } else if (code & 1) it = q->insert(at, std::move(e)); else it = q->insert(at, e); }); });
            WCHECK(t == full, full ? "overflow" : "refused", full ? "an insertion into a full buffer was accepted" : "an insertion was refused with %u of %u entries", n, cap);
            if (!t) { grow(); if (!f) { m.insert(m.begin() + at, {++ids, v}); if (held.size() < 12 && o.arg(5) & 1) held.push_back({it, ids}); } } break; }
        case 4: case 5: { uint32_t at = (uint32_t)(o.arg(4) % (n + 2)); if (o.arg(5) & 1 && at < n) { Q::const_iterator p = q->begin(); for (uint32_t i = 0; i < at; ++i) ++p; auto r = q->erase(p); if (at + 1 < n) WCHECK(r.isValid() && (*r).val == m[at + 1].v, "erase-next", "erase() does not return the next entry"); else WCHECK(r == q->end(), "erase-next", "erasing the last entry does not return end()"); drop(at); break; }
            bool t = w.refused([&] { q->erase(at); }); WCHECK(t == (at >= n), "erase", "erase(%u) of %u entries was %s", at, n, t ? "refused" : "accepted"); if (!t) drop(at); break; }
        case 6: if (!held.empty()) { auto & h = held[(size_t)o.arg(4) % held.size()]; int p = pos(h.id); bool reused = p < 0 && h.it.isValid(); if (reused) break; bool t = w.refused([&] { q->erase(h.it); }); WCHECK(t == (p < 0), "erase-held", "erasing %s entry through its iterator was %s", p < 0 ? "an already erased" : "a live", t ? "refused" : "accepted"); if (p >= 0) drop((uint32_t)p); } break;
        case 7: if (o.arg(5) == 3) { q->clear(); m.clear(); held.clear(); } else if (o.arg(5) == 2) { Q n2(std::move(*q)); q.reset(new Q(std::move(n2))); held.clear(); w.c.probe("buffer moved"); } else if (n) { uint32_t i = (uint32_t)(o.arg(4) % n); q->access(i).val = v; m[i].v = v; } else WCHECK(w.refused([&] { q->read(0); }), "read", "reading an empty buffer was accepted"); break;
        } }
    void drop(uint32_t i) { m.erase(m.begin() + i); }
    void look(const char * wh) override {
        WCHECK(q->size() == m.size() && q->empty() == m.empty() && q->capacity() == cap && q->numFree() == cap - m.size(), "size", "size() is %u of %u instead of %zu of %u", q->size(), q->capacity(), m.size(), cap);
        for (uint32_t i = 0; i < m.size(); ++i) WCHECK(q->isValid(i) && q->read(i).alive() && q->read(i).val == m[i].v, "content", "entry %u holds %ld instead of %ld", i, (long)q->read(i).val, (long)m[i].v);
        if (!m.empty()) WCHECK(q->accessBack().val == m.back().v, "content", "accessBack() is wrong");
        uint32_t i = 0; Q::iterator pr; for (auto it = q->begin(); it != q->end(); ++it, ++i) { WCHECK(i < m.size() && it.isValid() && (*it).val == m[i].v, "iterate", "iteration is wrong at %u of %zu", i, m.size()); if (i) WCHECK(pr < it && !(it < pr) && it > pr && !(pr > it) && !(it > it) && !(it < it) && it == it && it != pr, "order", "iterators %u and %u compare the wrong way", i - 1, i); pr = it; } WCHECK(i == m.size(), "iterate", "iteration saw %u of %zu entries", i, m.size());
        i = (uint32_t)m.size(); for (auto it = q->rbegin(); it != q->rend(); ++it) { WCHECK(i > 0 && (*it).val == m[i - 1].v, "iterate", "reverse iteration is wrong"); --i; } WCHECK(i == 0, "iterate", "reverse iteration stopped early");
        for (auto & h : held) { int p = pos(h.id); if (p < 0) continue; WCHECK(h.it.isValid() && (*h.it).val == m[p].v && (*h.it).alive(), "held", "a held iterator lost its entry"); WCHECK(q->read(h.it).val == m[p].v, "held", "read(iterator) returns another entry"); }
        if (held.size() >= 12) held.erase(held.begin(), held.begin() + 4);
    }
};

struct CircC : Seq {
    typedef sparta::CircularBuffer<El> Q; std::unique_ptr<Q> q; std::vector<Held<Q>> held;
    CircC(World & w, std::string n, uint32_t c, sparta::StatisticSet * ss) : Seq(w, n, c) { q.reset(new Q(n, c, w.clks[0].get(), ss)); stats = ss != nullptr; occ.assign(c + 1, 0); }
    const char * statname(uint32_t i) override { static std::string s; s = name + "_util_cnt" + std::to_string(i); return s.c_str(); }
    Q::iterator nth(uint32_t i) { auto it = q->begin(); while (i--) ++it; return it; }
    void op(int code, const Op & o, int64_t v) override { const char * wh = "op"; uint32_t n = (uint32_t)m.size();
        switch (code % 8) {
        case 0: case 1: case 2: { El e(v); if (code % 8 == 1) q->push_back(std::move(e)); else if (w.faulty(o, [&] { q->push_back(e); })) break; if (n == cap) { m.erase(m.begin()); w.c.probe("oldest overwritten"); } m.push_back({++ids, v}); if (o.arg(5) & 1 && held.size() < 12) held.push_back({nth((uint32_t)m.size() - 1), ids}); break; }
        case 3: case 4: { El e(v); uint32_t at = n ? (uint32_t)(o.arg(4) % n) : 0; Q::iterator it; if (code % 8 == 3) it = q->insert(nth(at), std::move(e)); else if (w.faulty(o, [&] { Q::const_iterator p = nth(at); it = q->insert(p, e); })) break;
            if (n == cap) { m.erase(m.begin()); if (at) --at; w.c.probe("insert into a full ring"); } m.insert(m.begin() + at, {++ids, v}); held.clear(); WCHECK(it.isValid() && (*it).val == v, "insert", "insert() does not return the inserted entry"); break; }
        case 5: if (n) { uint32_t at = (uint32_t)(o.arg(4) % n); if (o.arg(5) & 1) { auto r = q->rbegin(); for (uint32_t i = 0; i + 1 < n - at; ++i) ++r; q->erase(r); } else q->erase(nth(at)); m.erase(m.begin() + at); stale(); } else WCHECK(w.refused([&] { q->erase(q->begin()); }), "erase", "erasing from an empty buffer was accepted"); break;
        case 6: if (!held.empty()) { auto h = held[(size_t)o.arg(4) % held.size()]; int p = h.id ? pos(h.id) : -1; bool t = w.refused([&] { q->erase(h.it); }); WCHECK(t == (p < 0), "erase-held", "erasing %s entry through its iterator was %s", p < 0 ? "an overwritten" : "a live", t ? "refused" : "accepted"); if (p >= 0) { m.erase(m.begin() + p); stale(); } } break;
        case 7: if (o.arg(5) == 3) { q->clear(); m.clear(); } else if (n) { uint32_t i = (uint32_t)(o.arg(4) % n); (*nth(i)).val = v; m[i].v = v; } break;
        } }
    void stale() { for (auto & h : held) h.id = 0; } // erase and insert end all iterators
    void look(const char * wh) override {
        WCHECK(q->size() == m.size() && q->capacity() == cap && q->numFree() == cap - m.size(), "size", "size() is %u of %u instead of %zu", q->size(), cap, m.size());
        uint32_t i = 0; for (auto it = q->begin(); it != q->end(); ++it, ++i) { WCHECK(i < m.size() && it.isValid() && (*it).alive() && (*it).val == m[i].v, "content", "entry %u of %zu is wrong", i, m.size()); WCHECK((*q)[i].val == m[i].v && q->isValid(i), "content", "operator[](%u) is wrong", i); } WCHECK(i == m.size(), "iterate", "iteration saw %u of %zu entries", i, m.size());
        i = (uint32_t)m.size(); for (auto it = q->rbegin(); it != q->rend(); ++it) { WCHECK(i > 0 && it.isValid() && (*it).val == m[i - 1].v, "iterate", "reverse iteration is wrong"); --i; } WCHECK(i == 0, "iterate", "reverse iteration stopped early");
        for (auto & h : held) { int p = h.id ? pos(h.id) : -1; WCHECK(h.it.isValid() == (p >= 0), "held", "an iterator to %s entry is %s", p >= 0 ? "a live" : "a removed", h.it.isValid() ? "valid" : "invalid"); if (p >= 0) WCHECK((*h.it).val == m[p].v, "held", "a held iterator reads another entry"); }
        if (held.size() >= 12) held.erase(held.begin(), held.begin() + 4);
    }
};

template<class Q, bool AGED, bool FRONT> struct ArrC : Cont {
    struct E { bool on = false; int64_t v = 0; uint64_t age = 0; }; std::vector<E> m; uint64_t ages = 0; std::unique_ptr<Q> q;
    ArrC(World & w, std::string n, uint32_t c, sparta::StatisticSet * ss) : Cont(w, n, c) { q.reset(new Q(n, c, w.clks[0].get(), ss)); m.resize(c); stats = ss && c; occ.assign(c + 1, 0); }
    uint32_t size() override { uint32_t n = 0; for (auto & e : m) n += e.on; return n; }
    const char * statname(uint32_t i) override { static std::string s; s = name + "_utilization_count" + std::to_string(i); return s.c_str(); }
    std::vector<uint32_t> byage() { std::vector<uint32_t> r; for (uint32_t i = 0; i < m.size(); ++i) if (m[i].on) r.push_back(i); std::sort(r.begin(), r.end(), [&](uint32_t a, uint32_t b) { return m[a].age < m[b].age; }); return r; } // oldest first
    void op(int code, const Op & o, int64_t v) override { const char * wh = "op"; uint32_t at = (uint32_t)(o.arg(4) % cap);
        switch (code % 8) {
        case 0: case 1: case 2: { El e(v); bool f = false; if (FRONT && o.arg(5)) { if constexpr (FRONT) { bool full = size() == cap; uint32_t g = ~0u; bool t = w.refused([&] { f = w.faulty(o, [&] { switch (o.arg(5)) { case 1: g = q->writeFront(e); break; case 2: g = q->writeBack(e); break; default: g = code & 1 ? q->push_front(std::move(e)) : q->push_back(std::move(e)); } }); }); WCHECK(t == full, full ? "overflow" : "refused", "front/back write with %u of %u entries was %s", size(), cap, t ? "refused" : "accepted"); if (t || f) break;
                bool front = o.arg(5) == 1 || (o.arg(5) >= 3 && code & 1); uint32_t x; if (front) { for (x = 0; m[x].on;) ++x; } else for (x = cap - 1; m[x].on;) --x; WCHECK(g == x, "front", "wrote index %u instead of the %s free one %u", g, front ? "first" : "last", x); m[x] = {true, v, ++ages}; } break; }
            bool over = m[at].on; if (over) w.c.probe("overwrite"); if (code % 8 == 2) q->write(at, std::move(e)); else if (o.arg(5) == 2 && over) { auto it = q->begin(); while (it.getIndex() != at) ++it; f = w.faulty(o, [&] { q->write(it, e); }); } else f = w.faulty(o, [&] { q->write(at, e); }); if (!f) m[at] = {true, v, ++ages}; break; }
        case 3: case 4: { bool ok = m[at].on; bool t; if (AGED && ok && o.arg(5) == 1) { auto & l = q->getAgedList(); at = byage()[0]; q->erase(l.back()); t = false; } else t = w.refused([&] { if (o.arg(5) == 2) q->erase(q->getCircularIterator(at)); else q->erase(at); }); WCHECK(t == !ok, "erase", "erase(%u) was %s", at, t ? "refused" : "accepted"); if (!t) m[at].on = false; break; }
        case 5: if (o.arg(5) == 3) { q->clear(); for (auto & e : m) e.on = false; } else if (m[at].on) { q->access(at).val = v; m[at].v = v; } else if (o.arg(5) == 2) WCHECK(w.refused([&] { q->read(at); }), "read", "reading a free entry was accepted"); break;
        case 6: { // copy an element of the array onto another or onto itself
            uint32_t b = (uint32_t)(o.arg(5) % cap); if (m[at].on) { bool f = w.faulty(o, [&] { q->write(b, q->read(at)); }); if (!f) { m[b] = {true, m[at].v, ++ages}; } } break; }
        case 7: break;
        } }
    void look(const char * wh) override { uint32_t n = size();
        WCHECK(q->size() == n && q->numValid() == n && q->numFree() == cap - n && q->capacity() == cap, "size", "size() is %u instead of %u", q->size(), n);
        for (uint32_t i = 0; i < cap; ++i) { WCHECK(q->isValid(i) == m[i].on, "valid", "isValid(%u) is %d", i, q->isValid(i)); if (m[i].on) WCHECK(q->read(i).alive() && q->read(i).val == m[i].v, "content", "entry %u holds %ld instead of %ld", i, (long)q->read(i).val, (long)m[i].v); }
        uint32_t k = 0; for (auto it = q->begin(); it != q->end(); ++it, ++k) WCHECK(k < cap && it.getIndex() == k && it.isValid() == m[k].on, "iterate", "iteration is wrong at %u", k); WCHECK(k == cap, "iterate", "iteration saw %u of %u entries", k, cap);
        { const Q & cq = *q; k = 0; for (auto it = cq.begin(); it != cq.end(); ++it, ++k) { WCHECK(k < cap && it.getIndex() == k && it.isValid() == m[k].on && (!m[k].on || (*it).val == m[k].v), "iterate", "const iteration is wrong at %u", k); } WCHECK(k == cap, "iterate", "const iteration saw %u of %u entries", k, cap);
          auto ci = q->getCircularIterator(cap - 1); for (k = 0; k < cap + 1; ++k) { uint32_t x = (cap - 1 + k) % cap; WCHECK(ci.getIndex() == x && ci.isIndexValid() && ci.isValid() == m[x].on, "iterate", "circular iteration is at %u instead of %u", ci.getIndex(), x); if (k % 2) ++ci; else { auto was = ci++; WCHECK(was.getIndex() == x, "iterate", "postfix ++ returned another position"); } } ci.reset(); WCHECK(!ci.isIndexValid() && !q->getUnitializedIterator().isIndexValid() && !q->getUnitializedIterator().isValid(), "iterate", "a reset iterator is valid"); }
        if constexpr (FRONT) { uint32_t j = 0; for (uint32_t i = 0; i < cap; ++i) if (m[i].on) { WCHECK(q->readValid(j).val == m[i].v, "read-valid", "readValid(%u) is not the entry at %u", j, i); ++j; } }
        if constexpr (AGED) { auto by = byage(); k = 0; for (auto it = q->abegin(); it != q->aend(); ++it, ++k) WCHECK(k < n && it.getIndex() == by[k] && (*it).val == m[by[k]].v, "age", "age-ordered iteration is wrong at %u", k); WCHECK(k == n, "age", "age-ordered iteration saw %u of %u entries", k, n);
            for (k = 0; k < n; ++k) { WCHECK(q->getOldestIndex(k).getIndex() == by[k] && q->getYoungestIndex(k).getIndex() == by[n - 1 - k], "age", "getOldestIndex/getYoungestIndex(%u) is wrong", k); WCHECK(q->getAge(by[k]) == k, "age", "getAge(%u) is %u instead of %u", by[k], q->getAge(by[k]), k); if (k) { WCHECK(q->isOlder(by[k - 1], by[k]) && q->isYounger(by[k], by[k - 1]) && !q->isOlder(by[k], by[k - 1]) && !q->isYounger(by[k - 1], by[k]), "age", "isOlder/isYounger is wrong"); auto a = q->getCircularIterator(by[k - 1]), b = q->getCircularIterator(by[k]); WCHECK(a.isOlder(b) && b.isYounger(a) && !b.isOlder(a) && b < a && !(a < b) && a.isOlder(by[k]), "age", "iterators compare the wrong ages"); } }
            { const Q & cq = *q; k = 0; for (auto it = cq.abegin(); it != cq.aend(); ++it, ++k) { WCHECK(k < n && it.getIndex() == by[k], "age", "const age-ordered iteration is wrong at %u", k); } WCHECK(k == n, "age", "const age-ordered iteration saw %u of %u entries", k, n); } }
    }
};

template<size_t BOUND> struct PrioC : Seq {
    typedef sparta::PriorityQueue<El, ElLess, BOUND> Q; std::unique_ptr<Q> q;
    PrioC(World & w, std::string n) : Seq(w, n, BOUND ? BOUND : 1000000) { q.reset(new Q()); }
    const char * statname(uint32_t) override { return ""; }
    void op(int code, const Op & o, int64_t v) override { const char * wh = "op"; uint32_t n = (uint32_t)m.size(); v = v * 7 % 40; bool full = n == cap;
        switch (code % 6) {
        case 0: case 1: case 2: { bool f = false; El e(v); bool t = w.refused([&] { f = w.faulty(o, [&] { if (code % 6 == 2) q->forceFront(e); else q->insert(e); }); }); WCHECK(t == full, full ? "overflow" : "refused", "inserting with %u entries was %s", n, t ? "refused" : "accepted"); if (t || f) break;
            if (code % 6 == 2) m.insert(m.begin(), {++ids, v}); else { size_t i = 0; while (i < m.size() && !(v / 4 < m[i].v / 4)) ++i; m.insert(m.begin() + i, {++ids, v}); } break; }
        case 3: { bool t = w.refused([&] { q->pop(); }); WCHECK(t == (n == 0), "pop", "pop of %u entries was %s", n, t ? "refused" : "accepted"); if (!t) m.erase(m.begin()); break; }
        case 4: if (n) { uint32_t at = (uint32_t)(o.arg(4) % n); auto it = q->begin(); for (uint32_t i = 0; i < at; ++i) ++it; typename Q::const_iterator ci(it); q->erase(ci); m.erase(m.begin() + at); } break;
        case 5: if (o.arg(5) == 3) { q->clear(); m.clear(); } else if constexpr (BOUND == 0) { if (n) { auto it = q->begin(); for (uint32_t i = 0; i < o.arg(4) % n; ++i) ++it; int64_t k = (*it).val; q->remove(*it); for (size_t i = 0; i < m.size();) if (m[i].v == k) m.erase(m.begin() + i); else ++i; } } else if (!n) WCHECK(w.refused([&] { q->top(); }), "read", "top() of an empty queue was accepted"); break;
        } }
    void look(const char * wh) override {
        WCHECK(q->size() == m.size() && q->empty() == m.empty(), "size", "size() is %zu instead of %zu", q->size(), m.size());
        if (!m.empty()) { WCHECK(q->top().val == m[0].v, "content", "top() is %ld instead of %ld", (long)q->top().val, (long)m[0].v); if constexpr (BOUND == 0) WCHECK(q->back().val == m.back().v, "content", "back() is wrong"); }
        size_t i = 0; for (auto it = q->begin(); it != q->end(); ++it, ++i) WCHECK(i < m.size() && (*it).alive() && (*it).val == m[i].v, "content", "entry %zu is wrong", i); WCHECK(i == m.size(), "iterate", "iteration saw %zu of %zu entries", i, m.size());
    }
};

void World::on_op(uint32_t i) {
    const Op & o = ops[i]; c.nontrivial = true; Cont & k = *cs[(size_t)o.arg(2) % cs.size()]; c.log("c%lu %s op %ld", (ul)cyc(), k.name.c_str(), (long)o.arg(3));
    k.op((int)o.arg(3), o, ++nv); k.level(); k.look("after an operation"); if (Canary::errors()) FAIL("lifetime", "%s: %s", k.name.c_str(), Canary::what().c_str());
    if (k.stats) for (uint32_t s = 0; s <= k.cap; ++s) { sparta::CounterBase * ctr = dynamic_cast<sparta::CounterBase *>(ss->getChild(k.statname(s))); uint64_t x = k.occ[s] + (k.lvl == s ? cyc() - k.since : 0); CHECK(ctr && ctr->get() == x, "utilization", "%s: %lu cycles counted at occupancy %u, it was %lu", k.name.c_str(), ctr ? (ul)ctr->get() : 0, s, (ul)x); }
    if (k.stats) if (auto ctr = dynamic_cast<sparta::CounterBase *>(ss->getChild(k.name + "_utilization_max", false))) { c.probe("utilization maximum"); CHECK(ctr->get() == k.most, "utilization", "%s: the highest occupancy is %lu, it was %u", k.name.c_str(), (ul)ctr->get(), k.most); }
}
void World::go() {
    El::fuse() = 0;
    sched.reset(new sparta::Scheduler()); cm.reset(new sparta::ClockManager(sched.get())); rtn.reset(new sparta::RootTreeNode("dstroot")); clks.push_back(cm->makeRoot(rtn.get())); if (plan.c("div", 1) > 1) cm->makeClock("x", clks[0], 1, (uint32_t)plan.c("div")); cm->normalize(); rtn->setClock(clks[0].get());
    node.reset(new sparta::TreeNode(rtn.get(), "n", "n")); node->setClock(clks[0].get()); es.reset(new sparta::EventSet(node.get())); ss.reset(new sparta::StatisticSet(node.get()));
    const SchedulingPhase PH[] = {SchedulingPhase::PortUpdate, SchedulingPhase::Tick, SchedulingPhase::PostTick};
    for (int p = 0; p < 3; ++p) { acts.emplace_back(new Act{this, {}}); Act * A = acts.back().get(); A->ev.reset(new sparta::PhasedPayloadEvent<uint32_t>(es.get(), "act" + std::to_string(p), PH[p], CREATE_SPARTA_HANDLER_WITH_DATA_WITH_OBJ(Act, A, fire, uint32_t))); }
    for (auto & o : plan.ops) if (o.k == "c" && cs.size() < 4) { std::string n = "k" + std::to_string(cs.size()); uint32_t cap = (uint32_t)std::max<int64_t>(1, o.arg(1)); auto * s = o.arg(2) ? ss.get() : nullptr;
        switch (o.arg(0) % 8) { case 0: cs.emplace_back(new QueueC(*this, n, cap, s)); break; case 1: cs.emplace_back(new BufC(*this, n, cap, s, 0)); break; case 2: cs.emplace_back(new BufC(*this, n, cap, s, (int)std::max<int64_t>(1, o.arg(3)))); break; case 3: cs.emplace_back(new CircC(*this, n, cap, s)); break;
            case 4: cs.emplace_back(new ArrC<sparta::Array<El>, true, false>(*this, n, cap, s)); break; case 5: cs.emplace_back(new ArrC<sparta::Array<El, sparta::ArrayType::NORMAL>, false, false>(*this, n, cap, s)); break; case 6: cs.emplace_back(new ArrC<sparta::FrontArray<El>, true, true>(*this, n, cap, s)); break;
            case 7: if (o.arg(1) % 2) cs.emplace_back(new PrioC<0>(*this, n)); else cs.emplace_back(new PrioC<5>(*this, n)); break; } }
    if (cs.empty()) return;
    rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize();
    bool boom = false; std::string msg;
    try { uint64_t mx = 0; for (auto & k : cs) k->look("at the start");
        for (auto & o : plan.ops) if (o.k == "o") { ops.push_back(o); mx = std::max<uint64_t>(mx, (uint64_t)o.arg(0)); acts[o.arg(1) % 3]->ev->preparePayload((uint32_t)ops.size() - 1)->schedule(sparta::Clock::Cycle(o.arg(0))); }
        sched->run((mx + 2) * clks[0]->getPeriod(), true, false);
    } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
    if (stored) throw *stored;
    CHECK(!boom, "exception", "unexpected exception: %.300s", msg.c_str());
    c.sim_time += now();
    cs.clear(); if (Canary::errors()) FAIL("lifetime", "%s", Canary::what().c_str());
}
void gen(Rng & r, Plan & p, bool th) {
    p.cfg["div"] = r.range(1, 3); int k = (int)r.range(1, 2); std::vector<int> w8;
    for (int i = 0; i < k; ++i) p.add("c", {r.range(0, 7), r.p(70) ? r.range(1, 6) : r.range(1, 20), r.p(60), r.range(1, 4)});
    for (int i = 0; i < 24; ++i) w8.push_back(r.p(25) ? 0 : (int)r.range(1, 6)); w8[0] += 10; w8[1] += 3; bool clr = r.p(30), flt = r.p(50); int64_t cyc = 0;
    for (int i = 0, n = (int)r.range(5, th ? 160 : 80); i < n; ++i) { if (r.p(50)) cyc += r.range(0, 3); int64_t x = r.range(0, 3); if (x == 3 && !clr) x = r.range(0, 2); p.add("o", {cyc, r.range(0, 2), r.range(0, 3), (int64_t)r.w(w8), r.range(0, 40), x, flt ? r.range(0, 31) : 0}); }
}
Register r14([] { Harness h; h.property = "C14"; h.technique = "deterministic simulation of operation histories with held iterators, refused calls and failing element copies, against sequence models";
    h.rule = "1-2 containers of seven kinds and random capacity, 5-80 operations (160 thorough) at increasing cycles in three phases, some element copies failing; non-trivial: an operation ran"; h.measure = "FNV hash of the run's complete event log"; h.real = "sparta::Queue, Buffer, Array, FrontArray, CircularBuffer, PriorityQueue (bounded on FastList and unbounded), their utilization counters, Scheduler: all shipped code"; h.stub = "elements (self-checking) and the units using the containers (scripted by the plan)";
    h.assumptions = {"iterators into a buffer are not used after it grew or was moved; a buffer iterator whose slot was reused is not judged"};
    h.quick_runs = 15000; h.thorough_runs = 500000; h.gen = gen; h.run = runWorld<World>; return h; }());
} // namespace
