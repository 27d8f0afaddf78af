// C29: caches in front of a memory that may refuse - SimpleCache, and SimpleCache2 behind a controller with several misses
// outstanding - against a model of the bytes last stored, of what is where, and of the order in which it was used.
#include "world_base.hpp"
#include "cache/SimpleCache.hpp"
#include "cache/SimpleCache2.hpp"
#include "cache/LRUReplacement.hpp"
#include "cache/TreePLRUReplacement.hpp"
#include <sstream>

namespace {
using namespace sparta::cache;
typedef std::vector<uint8_t> Bytes;
struct Refused : std::exception { const char * what() const noexcept override { return "memory refused"; } };
struct World;
struct C1 : SimpleCache<LineData> {
    World * w; using SimpleCache<LineData>::SimpleCache;
    Cache<LineData> & in() { return cache_; }
    void castout_(const LineData & l) override; void reload_(uint64_t a, LineData & l) override; void writeNextLevel_(uint64_t a, uint32_t n, const uint8_t * b) override;
};
struct Item : LineDataWithNT { using LineDataWithNT::LineDataWithNT; using LineData::reset; using LineDataWithNT::reset; };
struct C2 : SimpleCache2<Item> { using SimpleCache2<Item>::SimpleCache2; Cache<Item, CacheSetWithNT<Item>> & in() { return cache_; } };
// who was used last: exact for true LRU (among ways never touched any order is right), a binary tree of pointers for PLRU
struct Order {
    bool tree; uint32_t n; std::vector<int64_t> key; std::map<std::pair<uint32_t, uint32_t>, bool> right; int64_t t = 0;
    Order(bool tr, uint32_t n_) : tree(tr), n(n_), key(n_, 0) {}
    void touch(uint32_t w, bool mru) { ++t; key[w] = mru ? t : -t; for (uint32_t lo = 0, hi = n; hi - lo > 1;) { uint32_t m = (lo + hi) / 2; bool r = w >= m; right[{lo, hi}] = mru ? !r : r; if (r) lo = m; else hi = m; } }
    uint32_t walk(bool lru) { uint32_t lo = 0, hi = n; while (hi - lo > 1) { uint32_t m = (lo + hi) / 2; bool r = right.count({lo, hi}) && right[{lo, hi}]; if (!lru) r = !r; if (r) lo = m; else hi = m; } return lo; }
    bool ok(uint32_t w, bool lru) { if (w >= n) return false; if (tree) return w == walk(lru); for (auto k : key) if (lru ? k < key[w] : k > key[w]) return false; return true; }
    void reset() { if (tree) right.clear(); else std::fill(key.begin(), key.end(), 0); } // whether LRU forgets the order is its choice
};
struct World : PBase {
    using PBase::PBase;
    struct Line { bool valid = false, wrote = false, nt = false; uint64_t blk = 0; };
    struct Req { uint64_t a; uint32_t n; bool wr, nt; uint8_t v; };
    uint32_t L = 0, S = 0, Wn = 0; uint64_t stride = 0, base = 0, off = 0; bool lru = false, two = false, wt = false, wa = false; std::unique_ptr<C1> c1; std::unique_ptr<C2> c2; std::vector<std::vector<Line>> ls; std::vector<Order> ord; std::map<uint64_t, Bytes> mem, view; std::deque<Req> pend; uint64_t fails = 0; std::vector<std::pair<char, uint64_t>> traffic;
    Bytes & at(std::map<uint64_t, Bytes> & m, uint64_t blk) { auto it = m.find(blk); if (it != m.end()) return it->second; Bytes b(L); for (uint32_t i = 0; i < L; ++i) b[i] = (uint8_t)(((blk + i) * 0x9E3779B97F4A7C15ull) >> 40); return m[blk] = b; }
    void maybe(const char * n) { bool f = fails & 1; fails >>= 1; if (f) { c.fault(n); throw Refused(); } }
    uint64_t blk(uint64_t tag, uint32_t set) { return base + (tag * S + set) * stride + off; }
    uint32_t setof(uint64_t b) { return (uint32_t)((b - base - off) / stride % S); }
    int find(uint64_t b) { auto & s = ls[setof(b)]; for (uint32_t w = 0; w < Wn; ++w) if (s[w].valid && s[w].blk == b) return (int)w; return -1; }
    template<class X> void look(X & cache, uint32_t set) {
        auto & cs = cache.in().getCacheSetAtIndex(set); auto & m = ls[set]; Order & o = ord[set]; auto * rep = cs.getReplacementIF(); uint32_t lw = rep->getLRUWay(), mw = rep->getMRUWay(); uint32_t open = Wn;
        for (uint32_t w = 0; w < Wn; ++w) { auto & l = cs.peekItemAtWay(w); CHECK(l.getWay() == w && l.getSetIndex() == set, "place", "the line in set %u way %u says %u %u", set, w, l.getSetIndex(), l.getWay()); CHECK(l.isValid() == m[w].valid, "valid", "the line in set %u way %u is %svalid", set, w, l.isValid() ? "" : "in"); if (!l.isValid()) { if (open == Wn) open = w; continue; }
            CHECK(l.getAddr() == m[w].blk, "address", "set %u way %u holds %lx instead of %lx", set, w, (ul)l.getAddr(), (ul)m[w].blk); Bytes & v = at(view, m[w].blk); CHECK(!memcmp(l.getDataPtr(), v.data(), L), "bytes", "the line of %lx in the cache does not have the bytes last stored", (ul)m[w].blk);
            if (l.isModified()) CHECK(m[w].wrote, "modified", "the line of %lx is modified but was not written", (ul)m[w].blk); else CHECK(!memcmp(at(mem, m[w].blk).data(), v.data(), L), "lost", "the line of %lx has bytes the memory has not, and is not marked as modified", (ul)m[w].blk); }
        CHECK(o.ok(lw, true), "LRU", "way %u of %u is the least recently used one of set %u", lw, Wn, set); CHECK(o.ok(mw, false), "MRU", "way %u of %u is the most recently used one of set %u", mw, Wn, set);
        CHECK(cs.findInvalidWay() == open && cs.hasOpenWay() == (open < Wn), "open", "findInvalidWay() is %u instead of %u", cs.findInvalidWay(), open);
        if (!lru) { std::stringstream s(dynamic_cast<TreePLRUReplacement *>(rep)->getDisplayString()); std::vector<uint32_t> v; uint32_t x; while (s >> x) v.push_back(x); CHECK(v.size() == Wn && v.front() == mw && v.back() == lw, "display", "the ranks displayed are %s", s.str().c_str()); std::sort(v.begin(), v.end()); for (uint32_t i = 0; i < Wn; ++i) CHECK(v[i] == i, "display", "the ranks displayed are %s", s.str().c_str()); } }
    void look(uint32_t set) { if (two) look(*c2, set); else look(*c1, set); }
    void lookall() { for (uint32_t i = 0; i < S; ++i) look(i); uint32_t n = 0; if (two) for (auto it = c2->begin(); it != c2->end(); ++it) { CHECK(it->getSetIndex() == n, "iterate", "the sets are not in order"); ++n; } else for (auto & s : c1->in()) { (void)s; ++n; } CHECK(n == S, "iterate", "%u of %u sets are iterated over", n, S); }
    // memory side of SimpleCache
    void put(uint64_t a, uint32_t n, const uint8_t * b) { uint64_t bl = a & ~(uint64_t)(L - 1); memcpy(&at(mem, bl)[a - bl], b, n); }
    // a line went into a way, which must have been a right victim; what was in there is gone
    void placed(uint64_t b, uint32_t w, bool anyinv) {
        uint32_t set = setof(b); Line & l = ls[set][w]; bool inv = false; for (auto & x : ls[set]) inv |= !x.valid;
        if (anyinv && inv) CHECK(!l.valid, "victim", "a valid line was replaced though set %u has an invalid one", set); else CHECK(ord[set].ok(w, true), "victim", "way %u of set %u was replaced, which is not the least recently used one", w, set);
        if (l.valid) c.probe("valid line replaced"); l.valid = true; l.blk = b; l.wrote = false; l.nt = false; }
    void dropped(Line & l) { if (l.valid) { if (at(view, l.blk) != at(mem, l.blk)) c.probe("modified line dropped"); view.erase(l.blk); at(view, l.blk) = at(mem, l.blk); } l.valid = false; }
    void expect(const std::vector<std::pair<char, uint64_t>> & e, const char * what) { if (traffic == e) return; std::string s; for (auto & x : traffic) { char b[40]; snprintf(b, sizeof b, "%c%lx ", x.first, (ul)x.second); s += b; } FAIL("traffic", "%s: the memory was asked for %s", what, s.empty() ? "nothing" : s.c_str()); }
    template<class F> bool tried(F && f) { traffic.clear(); try { f(); } catch (Refused &) { fails = 0; return false; } fails = 0; return true; }

    void zero() { C1 & k = *c1; CHECK(!k.getNumGetLineMisses() && !k.getNumCastouts() && !k.getNumReloads() && !k.getNumReads() && !k.getNumWrites() && !k.getNumReadMisses() && !k.getNumWriteMisses() && !k.getNumWriteNextLevel(), "counters", "the counters do not start from nothing"); }
    void op1(const Op & o, uint64_t b, uint32_t set, uint32_t of, uint32_t n, uint8_t v) {
        C1 & k = *c1; int w = find(b); auto & s = ls[set]; uint64_t a = b + of; Bytes & vw = at(view, b);
        // the state of the line a miss would replace
        uint32_t vic = k.in().getCacheSetAtIndex(set).getReplacementIF()->getLRUWay(); bool dirty = s[vic].valid && k.in().getCacheSetAtIndex(set).peekItemAtWay(vic).isModified(); std::vector<std::pair<char, uint64_t>> miss; if (dirty) miss.push_back({'c', s[vic].blk}); miss.push_back({'r', b});
        auto fill = [&] { if (w < 0) { const LineData * l = k.peekLine(a); CHECK(l, "miss", "the line of %lx is not in the cache after an access", (ul)b); placed(b, l->getWay(), false); w = (int)l->getWay(); expect(miss, "a miss"); } else expect({}, "a hit"); ord[set].touch((uint32_t)w, true); };
        auto partial = [&] { if (!traffic.empty() && traffic[0].first == 'c') c.probe("refused after the castout"); };
        switch (o.arg(1)) {
        case 0: { Bytes r(n, 0xEE); fails = (uint64_t)o.arg(5); bool ok = tried([&] { CHECK(k.read(a, n, r.data()), "read", "a read failed"); }); if (!ok) { partial(); break; } fill(); CHECK(!memcmp(r.data(), &vw[of], n), "bytes", "a read of %u bytes at %lx did not return the bytes last stored", n, (ul)a); break; }
        case 1: case 2: { Bytes d(n); for (uint32_t i = 0; i < n; ++i) d[i] = (uint8_t)(v + i * 7); fails = (uint64_t)o.arg(5); bool hit = w >= 0; bool ok = tried([&] { CHECK(k.write(a, n, d.data()), "write", "a write failed"); });
            if (ok) { if (!hit && !wa) { expect({{'w', a}}, "a write miss without allocation"); memcpy(&vw[of], d.data(), n); CHECK(!k.peekLine(a), "allocate", "a write miss allocated a line"); break; }
                if (wt) { CHECK(!traffic.empty() && traffic.back() == std::make_pair('w', a), "through", "a write was not passed on to the memory"); traffic.pop_back(); } fill(); s[(size_t)w].wrote = true; memcpy(&vw[of], d.data(), n); break; }
            if (hit || wa) { const LineData * l = k.peekLine(a); bool passed = !traffic.empty() && traffic.back().first == 'W'; if (passed) { c.probe("write through refused"); traffic.pop_back(); CHECK(l, "through", "the line is gone"); bool nw = !memcmp(l->getDataPtr() + of, d.data(), n); if (!hit) { placed(b, l->getWay(), false); w = (int)l->getWay(); } ord[set].touch((uint32_t)w, true); if (nw) { s[(size_t)w].wrote = true; memcpy(&vw[of], d.data(), n); } } else partial(); }
            break; }
        case 3: { fails = (uint64_t)o.arg(5); LineData * l = nullptr; bool ok = tried([&] { l = k.getLine(a); }); if (!ok) { partial(); break; } fill(); CHECK(l == k.peekLine(a), "line", "getLine() gives another line"); if (v & 1) { uint8_t x = v; l->write(of, 1, &x); l->setModified(true); s[(size_t)w].wrote = true; vw[of] = v; } break; }
        case 4: { bool need = true, di = false; uint64_t ca = 1; bool h = k.isHitWithCastout(a, need, ca, di); CHECK(h == (w >= 0), "hit", "isHitWithCastout() is wrong"); CHECK(need == (w < 0 && s[vic].valid), "castout", "isHitWithCastout() says %d", need); if (need) CHECK(ca == s[vic].blk && di == dirty, "castout", "isHitWithCastout() says that %lx would be cast out", (ul)ca); break; }
        case 5: if (w < 0) { CHECK(refused([&] { k.invalidateLine(a); }), "invalidate", "invalidating a line that is not in the cache was not refused"); break; } k.invalidateLine(a); dropped(s[(size_t)w]); ord[set].touch((uint32_t)w, false); break;
        case 6: if (v % 8) break; k.invalidateAll(); for (auto & q : ls) for (auto & l : q) dropped(l); for (auto & q : ord) q.reset(); c.probe("all invalidated"); break;
        case 7: wt = v & 1; k.setWriteThroughMode(wt); break;
        case 8: wa = v & 1; k.setWriteAllocateMode(wa); if (v % 8 < 2) { k.resetStats(); zero(); } break;
        }
        CHECK(k.isHit(a) == (find(b) >= 0) && (k.peekLine(a) != nullptr) == k.isHit(a), "hit", "isHit(%lx) is %d", (ul)a, k.isHit(a)); }

    // the controller in front of SimpleCache2: hits at once, misses when their turn comes
    void access(const Req & q) { auto & k = *c2; uint64_t b = q.a & ~(uint64_t)(L - 1); uint32_t of = (uint32_t)(q.a - b), set = setof(b); auto * l = k.getLine(q.a); int w = find(b); CHECK(l && w >= 0 && l->getWay() == (uint32_t)w, "hit", "getLine(%lx) is wrong", (ul)q.a); Bytes & vw = at(view, b);
        if (q.wr) { Bytes d(q.n); for (uint32_t i = 0; i < q.n; ++i) d[i] = (uint8_t)(q.v + i * 3); k.writeWithMRUUpdate(*l, q.a, q.n, d.data()); memcpy(&vw[of], d.data(), q.n); ls[set][(size_t)w].wrote = true; CHECK(l->isModified(), "modified", "a write did not mark its line"); }
        else { Bytes r(q.n, 0x77); k.readWithMRUUpdate(*l, q.a, q.n, r.data()); CHECK(!memcmp(r.data(), &vw[of], q.n), "bytes", "a read of %u bytes at %lx did not return the bytes last stored", q.n, (ul)q.a); }
        ord[set].touch((uint32_t)w, true); c.log("%c%lx %u", q.wr ? 'W' : 'R', (ul)q.a, q.n); }
    void refill(size_t i, int how, uint64_t f) {
        auto & k = *c2; Req q = pend[i]; uint64_t b = q.a & ~(uint64_t)(L - 1); uint32_t set = setof(b); if (find(b) >= 0) { c.probe("filled by another miss"); pend.erase(pend.begin() + (long)i); access(q); return; }
        fails = f; auto & s = ls[set]; bool inv = how == 1; Item * l; CacheSetWithNT<Item> & cs = k.getCacheSet(q.a); CHECK(cs.getSetIndex() == set, "set", "%lx is in set %u instead of %u", (ul)q.a, cs.getSetIndex(), set);
        bool ntv = how == 2 && q.nt && Wn > 1; if (how == 0) l = &k.getLineForReplacement(q.a); else if (inv) l = &k.getLineForReplacementWithInvalidCheck(q.a); else l = &k.getLineForReplacement(q.a, ntv);
        uint32_t w = l->getWay(); CHECK(w < Wn && l == &cs.getItemAtWay(w), "victim", "the line for replacement is not in the set"); if (ntv) { bool n0 = cs.getItemAtWay(0).isNT(), n1 = cs.getItemAtWay(1).isNT(); CHECK(w < 2 && (n0 || w == 0) && (!n0 || n1 || w == 1), "victim", "way %u was given for non-temporal data", w); c.probe("non-temporal replacement"); }
        try {
            if (l->isValid() && l->isModified()) { maybe("castout refused"); put(l->getAddr(), L, l->getDataPtr()); c.probe("line written back"); }
        } catch (Refused &) { fails = 0; return; } // nothing has changed; later
        if (!ntv) { placed(b, w, inv); } else { s[w].valid = true; s[w].blk = b; s[w].wrote = false; }
        if (how == 2) k.allocateWithMRUUpdate(*l, q.a, q.nt); else if (how == 0) { l->setNT(false); if (q.v & 1) k.allocateWithMRUUpdate(*l, q.a); else k.allocateWithMRUUpdate(*l, q.a, false); } else k.allocateWithMRUUpdate(*l, q.a, q.nt); s[w].nt = how != 0 && q.nt; ord[set].touch(w, true);
        CHECK(l->isExclusive() && !l->isShared() && !l->isModified() && l->isValid() && l->isNT() == s[w].nt, "reset", "an allocated line is not in its initial state"); if (l->isNT()) CHECK(cs.getPreviousNTWay() == w, "previous", "the previous non-temporal way is wrong");
        try { maybe("reload refused"); } catch (Refused &) { fails = 0; view.erase(b); at(view, b) = at(mem, b); k.invalidateLineWithLRUUpdate(*l); s[w].valid = false; s[w].nt = false; ord[set].touch(w, false); c.probe("allocated line given up"); return; }
        fails = 0; memcpy(l->getDataPtr(), at(mem, b).data(), L); c.log("F%lx %u", (ul)b, w); pend.erase(pend.begin() + (long)i); access(q); }
    void op2(const Op & o, uint64_t b, uint32_t set, uint32_t of, uint32_t n, uint8_t v) {
        auto & k = *c2; uint64_t a = b + of; int w = find(b); auto & s = ls[set];
        switch (o.arg(1)) {
        case 0: case 1: case 2: case 3: { Req q{a, n, o.arg(1) == 1 || o.arg(1) == 2, (v & 3) == 0, v}; CHECK(k.isHit(a) == (w >= 0), "hit", "isHit(%lx) is wrong", (ul)a); if (w >= 0) { access(q); if (!pend.empty()) c.probe("hit under a miss"); } else if (pend.size() < 6) { pend.push_back(q); if (pend.size() > 1) c.probe("several misses outstanding"); } break; }
        case 4: case 5: case 6: if (!pend.empty()) { size_t i = v % pend.size(); if (i) c.probe("misses answered out of order"); refill(i, (int)(o.arg(1) - 4), (uint64_t)o.arg(5)); } break;
        case 7: if (w >= 0) { auto * l = k.getLine(a); if (v & 1 && l->isModified()) put(b, L, l->getDataPtr()); dropped(s[(size_t)w]); s[(size_t)w].nt = false; k.invalidateLineWithLRUUpdate(*l); ord[set].touch((uint32_t)w, false); c.probe("line invalidated"); } break;
        case 8: { uint32_t ww = (uint32_t)v % Wn; auto & l = k.in().getItemAtIndexWay(set, ww); if (v & 64) k.touchLRU(l); else k.touchMRU(l); ord[set].touch(ww, !(v & 64)); break; }
        case 9: if (v % 8) break; k.invalidateAll(); for (auto & q : ls) for (auto & l : q) dropped(l); for (auto & q : ord) q.reset(); c.probe("all invalidated"); break;
        case 10: { std::vector<uint32_t> order; for (uint32_t i = 0; i < Wn; ++i) order.push_back((i + v) % Wn); uint32_t e = Wn; for (auto x : order) if (!s[x].valid) { e = x; break; } CHECK(k.in().findInvalidWay(a, order) == e, "open", "findInvalidWay() with an order of ways is wrong"); bool cold = false; auto * l = k.in().getItem(a, cold); CHECK((l != nullptr) == (w >= 0), "hit", "getItem() is wrong"); if (!l) { bool any = false; for (auto & x : s) any |= !x.valid; CHECK(cold == any, "cold", "a miss in a set %s invalid lines is%s cold", any ? "with" : "without", cold ? "" : " not"); } break; }
        case 11: { typedef uint32_t T; const uint32_t ix = (uint32_t)(v >> 1) % ((uint32_t)of / 4 + 1), o0 = (uint32_t)of - 4 * ix; if (w >= 0 && of + sizeof(T) <= L) { const auto * l = k.peekLine(a); uint32_t x = 0; for (int i = 0; i < 4; ++i) x |= (uint32_t)at(view, b)[of + (uint32_t)i] << 8 * i; CHECK((l->read<T, sparta::LE>(o0, ix) == x), "bytes", "a typed read is wrong"); CHECK((l->read<T, sparta::BE>(o0, ix) == __builtin_bswap32(x)), "bytes", "a big-endian read is wrong"); if (v & 1) { auto * m = k.getLine(a); uint32_t y = x * 3 + v; m->write<T, sparta::BE>(o0, y, ix); m->setModified(true); s[(size_t)w].wrote = true; y = __builtin_bswap32(y); memcpy(&at(view, b)[of], &y, 4); } } else if (w >= 0) CHECK(refused([&] { k.getLine(a)->write<T, sparta::LE>(o0, 7, ix); }), "beyond", "a write beyond the line was not refused"); break; }
        case 12: if (w >= 0) { Bytes r(L + 1, 1); CHECK(refused([&] { k.writeWithMRUUpdate(*k.getLine(a), a, L - of + 1, r.data()); }), "beyond", "a write beyond the line was not refused"); CHECK(refused([&] { k.readWithMRUUpdate(*k.getLine(a), a, L - of + 1, r.data()); }), "beyond", "a read beyond the line was not refused"); } break;
        }
        CHECK(k.isHit(a) == (find(b) >= 0) && (k.peekLine(a) != nullptr) == k.isHit(a) && k.hasOpenWay(a) == k.getCacheSet(a).hasOpenWay(), "hit", "isHit(%lx) is %d", (ul)a, k.isHit(a)); }
    void go() {
        two = plan.c("two"); lru = plan.c("lru"); Wn = (uint32_t)plan.c("ways", 2); L = 1u << plan.c("line", 5); S = 1u << plan.c("sets", 0); if (!two) while (L * S < 1024) S *= 2; uint64_t banks = 1ull << plan.c("banks", 0); stride = L * banks; off = ((uint64_t)plan.c("bank") % banks) * L; base = (uint64_t)plan.c("base") * S * stride; wa = plan.c("wa"); wt = plan.c("wt");
        std::unique_ptr<ReplacementIF> rep; if (lru) rep.reset(new LRUReplacement(Wn)); else rep.reset(new TreePLRUReplacement(Wn)); uint64_t kb = (uint64_t)L * S * Wn / 1024; bool unit = !two || ((uint64_t)L * S * Wn % 1024 == 0 && plan.c("unit"));
        { // the template of the lines and of the replacement is copied: what happens to it later matters not
            LineData d(L); Item dn(L); if (two && unit) c2.reset(new C2(kb, L, stride, dn, *rep)); else if (two) c2.reset(new C2(unit ? kb : (uint64_t)L * S * Wn, L, stride, dn, *rep, unit)); else { c1.reset(new C1(kb, L, stride, d, *rep)); c1->w = this; c1->setWriteAllocateMode(wa); c1->setWriteThroughMode(wt); zero(); } rep->touchMRU(0); rep.reset(); }
        ls.assign(S, std::vector<Line>(Wn)); for (uint32_t i = 0; i < S; ++i) ord.emplace_back(!lru, Wn); if (two) CHECK(c2->getNumSets() == S && c2->getNumWays() == Wn, "geometry", "%u sets of %u ways", c2->getNumSets(), c2->getNumWays()); lookall();
        size_t cnt = 0; for (auto & o : plan.ops) { uint64_t x = (uint64_t)o.arg(2); uint32_t set = (uint32_t)((uint64_t)o.arg(3) % S); if (!two && S > 4) set %= 4; uint64_t b = blk(x, set); uint32_t of = (uint32_t)((uint64_t)o.arg(4) % L), n = 1 + (uint32_t)((uint64_t)(o.arg(4) >> 12) % (L - of)); uint8_t v = (uint8_t)(o.arg(4) >> 24);
            if (c.trace) printf("  op %ld block %lx set %u +%u %u v %u\n", (long)o.arg(1), (ul)b, set, of, n, v);
            if (two) op2(o, b, set, of, n, v); else op1(o, b, set, of, n, v); fails = 0; c.log("%ld %lx", (long)o.arg(1), (ul)b); look(set); if (++cnt % 16 == 0) lookall(); c.nontrivial = true; ++c.sim_time; }
        lookall(); // nothing is lost: with every modified line written back the memory has the bytes last stored
        auto flush = [&](auto & k) { for (auto & s : k.in()) for (auto & l : s) if (l.isValid() && l.isModified()) put(l.getAddr(), L, l.getDataPtr()); }; if (two) flush(*c2); else flush(*c1);
        for (auto & q : view) CHECK(at(mem, q.first) == q.second, "lost", "bytes stored at %lx are lost", (ul)q.first); }
};
void C1::castout_(const LineData & l) { w->maybe("castout refused"); w->traffic.push_back({'c', l.getAddr()}); SimpleCache<LineData>::castout_(l); w->put(l.getAddr(), w->L, l.getDataPtr()); w->c.probe("line written back"); }
void C1::reload_(uint64_t a, LineData & l) { w->maybe("reload refused"); w->traffic.push_back({'r', a}); SimpleCache<LineData>::reload_(a, l); memcpy(l.getDataPtr(), w->at(w->mem, a).data(), w->L); }
void C1::writeNextLevel_(uint64_t a, uint32_t n, const uint8_t * b) { try { w->maybe("write refused"); } catch (Refused &) { w->traffic.push_back({'W', a}); throw; } w->traffic.push_back({'w', a}); SimpleCache<LineData>::writeNextLevel_(a, n, b); w->put(a, n, b); }
void gen(Rng & r, Plan & p, bool th) {
    bool two = r.p(55), lru = r.p(50); p.cfg["two"] = two; p.cfg["lru"] = lru; p.cfg["ways"] = lru ? r.range(1, 7) : 1 << r.range(0, r.p(20) ? 6 : 4); p.cfg["line"] = two ? r.range(2, 7) : r.range(5, 10); p.cfg["sets"] = r.range(0, 3); p.cfg["banks"] = r.p(60) ? 0 : r.range(1, 3); p.cfg["bank"] = r.range(0, 7); p.cfg["base"] = r.p(30) ? 0 : r.range(0, 1 << 30) * (r.p(50) ? 1 : 4096); p.cfg["wa"] = r.p(60); p.cfg["wt"] = r.p(30); p.cfg["unit"] = r.p(50);
    std::vector<int> w(two ? 13 : 9); for (auto & x : w) x = (int)r.range(0, 3); w[0] += 5; w[1] += 5; if (two) { w[4] += 2; w[5] += 2; w[6] += 2; } int W = (int)p.c("ways"), tags = (int)r.range(1, 2 * W + 2), sets = (int)r.range(1, 4), bad = r.p(50) ? 0 : (int)r.range(1, 30);
    for (int i = 0, m = (int)r.range(6, th ? 300 : 120); i < m; ++i) { int64_t f = 0; if (r.p(bad)) f = r.range(1, 7); p.add("o", {0, (int64_t)r.w(w), r.range(0, tags - 1), r.range(0, sets - 1), r.range(0, (1ll << 32) - 1), f}); }
}
Register R([] {
    Harness h; h.property = "C29"; h.technique = "deterministic simulation: seeded histories of accesses to caches in front of a memory that refuses some of them, with several misses outstanding and answered in any order, against a model of the bytes, the lines and the order of their use";
    h.rule = "plan = a geometry, a replacement and a history of accesses, fills, invalidations and mode changes, with the accesses the memory refuses; non-trivial: at least one operation";
    h.real = "sparta::cache: Cache, sets, lines, address decoder, LRU and tree PLRU replacement, SimpleCache, SimpleCache2"; h.stub = "the memory and the controller that fills SimpleCache2"; h.measure = "hash of the event log";
    h.quick_runs = 30000; h.thorough_runs = 3000000; h.gen = gen; h.run = runWorld<World>; return h; }());
} // namespace
