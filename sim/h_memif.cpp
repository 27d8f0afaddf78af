// C18: the memory interfaces (memory objects, DMI windows, memory maps, cached memories of several cores) against
// byte-array models, under refused accesses, invalidated windows, dropped and committed stores and failing allocations.
#include "world_base.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/memory/SimpleMemoryMapNode.hpp"
#include "sparta/memory/CachedMemory.hpp"
#include "sparta/memory/DMIBlockingMemoryIF.hpp"
#include "alloc_fault.hpp"

namespace {
using namespace sparta::memory;
typedef std::vector<uint8_t> Bytes;
typedef sparta::memory::addr_t A;

struct Obj { // one memory object, its interface and its model
    std::unique_ptr<sparta::TreeNode> node; std::unique_ptr<MemoryObject> mo; std::unique_ptr<BlockingMemoryObjectIFNode> ifn;
    A size; uint64_t fill; unsigned fsz; std::map<A, uint8_t> bytes; uint64_t reads = 0, writes = 0; bool orr = false, ow = false;
    uint8_t get(A a) const { auto i = bytes.find(a); return i == bytes.end() ? (uint8_t)(fill >> (8 * (a % fsz))) : i->second; }
};
struct Map { A s, e; int o; A d; };
struct Dmi { DMIBlockingMemoryIF * p; int o; A base; bool valid; };
struct MW : public PBase {
    using PBase::PBase;
    struct Mgr : public BlockingMemoryIF { // the coherence point below the cores (the testbench's part)
        MW * w; Mgr(MW * w_, A blk, A tot) : BlockingMemoryIF("mgr", blk, AccessWindow(0, tot)), w(w_) {}
        bool tryPeek_(A a, A n, uint8_t * b) const override { return w->map->tryPeek(a, n, b); }
        bool tryPoke_(A a, A n, const uint8_t * b) override { if (!w->map->tryPoke(a, n, b)) return false; w->stored_to(a, n, b, nullptr, true); return true; }
        bool tryRead_(A a, A n, uint8_t * b, const void *, void *) override { return w->map->tryRead(a, n, b); }
        bool tryWrite_(A a, A n, const uint8_t * b, const void * who, void *) override { w->mread = a; if (!w->map->tryWrite(a, n, b)) return false; w->stored_to(a, n, b, who, false); return true; }
    };
    struct St { uint64_t id; A a; Bytes d; };
    struct Core { std::unique_ptr<CachedMemory<>> m; std::deque<St> q; };
    struct RObs { MW * w; int i; void cb(const BlockingMemoryIFNode::ReadAccess & r) { w->note(i, 0, r.addr, r.size, r.data, nullptr); } };
    struct WObs { MW * w; int i; void cb(const BlockingMemoryIFNode::PostWriteAccess & r) { w->note(i, 1, r.addr, r.size, r.tried, r.prior); } };
    struct Note { int kind; A a; Bytes data, prior; };
    std::vector<std::vector<Note>> notes; std::vector<std::unique_ptr<RObs>> ro; std::vector<std::unique_ptr<WObs>> wo;
    std::unique_ptr<sparta::RootTreeNode> rt; std::vector<std::unique_ptr<Obj>> objs; std::vector<Map> maps; std::unique_ptr<SimpleMemoryMapNode> map; uint64_t mreads = 0, mwrites = 0; A mread = 0;
    std::vector<Dmi> dmis; std::vector<std::unique_ptr<Core>> cores; std::unique_ptr<Mgr> mgr; std::vector<CachedMemory<> *> cms; A blk = 16, total = 0; unsigned wm = 4;
    ~MW() { if (rt) rt->enterTeardown(); cores.clear(); mgr.reset(); map.reset(); for (auto & o : objs) { o->ifn.reset(); o->mo.reset(); o->node.reset(); } }
    void note(int i, int kind, A a, A n, const uint8_t * d, const uint8_t * p) { notes[i].push_back({kind, a, Bytes(d, d + n), p ? Bytes(p, p + n) : Bytes()}); }
    // every write that reached memory underneath is shown to every core, under every address it is mapped at
    void stored_to(A a, A n, const uint8_t * b, const void * who, bool poke) {
        const Map * m = find(a); if (!m) return; obj_stored(m->o, a - m->s + m->d, n, b, who, a, poke); }
    void obj_stored(int o, A oa, A n, const uint8_t * b, const void * who, A at, bool poke) {
        Obj & ob = *objs[o]; for (A i = 0; i < n; ++i) ob.bytes[oa + i] = b[i];
        for (auto & m : maps) if (m.o == o && oa >= m.d && oa < m.d + (m.e - m.s)) { A x = oa - m.d + m.s; for (auto & k : cores) { if (!poke && who == (void *)k->m.get() && x == at) continue; k->m->mergeWrite(x, n, b); } }
    }
    const Map * find(A a) const { for (auto & m : maps) if (a >= m.s && a < m.e) return &m; return nullptr; }
    bool inwin(A a, A n, A lo, A hi) const { return a >= lo && a <= hi && n <= hi - a; }
    bool span(A a, A n) const { return a / blk != (a + n - 1) / blk; }
    Bytes rnd(int64_t seed, A n) { Bytes b(n); uint64_t x = (uint64_t)seed * 0x9E3779B97F4A7C15ull + 12345; for (auto & v : b) { x = x * 6364136223846793005ull + 1442695040888963407ull; v = (uint8_t)(x >> 56); } return b; }
    static std::string hex(const Bytes & b) { std::string s; char t[4]; for (size_t i = 0; i < b.size() && i < 40; ++i) { snprintf(t, sizeof t, "%02x", b[i]); s += t; } return s; }
    A oaddr(A size, const Op & o, int i) { A off = (A)o.arg(i + 1); switch (o.arg(i) % 6) { case 0: case 1: return off; case 2: return size / 2 + off; case 3: return size + off; case 4: return A(0) + off + (size > 8 * blk ? 3 * blk : 0); default: return ~A(0) - 20 + off; } }
    A maddr(const Op & o, int i) { A off = (A)o.arg(i + 1); int64_t s = o.arg(i); switch (s % 8) { case 0: return off; case 1: return (A(1) << 12) + off; case 2: return (A(1) << 32) + off; case 3: return total + off; case 4: return ~A(0) - 20 + off;
        default: if (maps.empty()) return off; const Map & m = maps[(s / 8) % maps.size()]; return (s % 8 == 7 ? m.e : s % 8 == 6 ? m.s : m.s + (m.e - m.s) / 2 / blk * blk) + off; } }
    void obscheck(int o, bool fired, int kind, A a, const Bytes & d, const Bytes & prior) {
        auto & v = notes[o];
        if (!fired) { CHECK(v.empty(), "memory-notification", "a %s notification was posted on object %d although it was not observed or the access failed", v.empty() ? "" : v[0].kind ? "write" : "read", o); return; }
        CHECK(v.size() == 1 && v[0].kind == kind, "memory-notification", "an observed %s of object %d posted %zu notifications", kind ? "write" : "read", o, v.size());
        CHECK(v[0].a == a && v[0].data == d && (!kind || v[0].prior == prior), "memory-notification", "the notification for a %s of %zu bytes at 0x%lx says address 0x%lx, data %s (expected %s), prior %s (expected %s)", kind ? "write" : "read", d.size(), (ul)a, (ul)v[0].a, hex(v[0].data).c_str(), hex(d).c_str(), hex(v[0].prior).c_str(), hex(prior).c_str());
        v.clear(); c.probe("notification checked");
    }
    // one access through an interface; the outcome and the bytes are compared with what the caller says must happen
    int access(BlockingMemoryIF * f, int kind, A a, Bytes & b) { // 1 done, 0 refused
        bool r = false; A n = b.size();
        bool t = refused([&] { switch (kind) { case 0: f->read(a, n, b.data()); r = true; break; case 1: f->write(a, n, b.data()); r = true; break; case 2: r = f->tryRead(a, n, b.data()); break; case 3: r = f->tryWrite(a, n, b.data()); break;
            case 4: f->peek(a, n, b.data()); r = true; break; case 5: f->poke(a, n, b.data()); r = true; break; case 6: r = f->tryPeek(a, n, b.data()); break; default: r = f->tryPoke(a, n, b.data()); } });
        lastthrow = t; return !t && r; }
    bool lastthrow = false;
    static bool isw(int k) { return k & 1; }
    static bool isdbg(int k) { return k >= 4; }
    static bool istry(int k) { return k == 2 || k == 3 || k >= 6; }
    void oacc(const Op & o, int64_t fuse) {
        int i = (int)(o.arg(0) % objs.size()); Obj & ob = *objs[i]; A a = oaddr(ob.size, o, 1); A n = (A)std::max<int64_t>(1, o.arg(3)); int k = (int)(o.arg(4) & 7);
        Bytes b = rnd(o.arg(5), n), w = b; bool ok = inwin(a, n, 0, ob.size) && (isdbg(k) || !span(a, n)); c.log("o%d k%d @%lx+%lu", i, k, (ul)a, (ul)n);
        Bytes old; if (ok) for (A j = 0; j < n; ++j) old.push_back(ob.get(a + j));
        if (!isdbg(k)) (isw(k) ? ob.writes : ob.reads)++;
        if (ob.orr || ob.ow) fuse = 0; if (fuse) af::arm(fuse);
        int r = access(ob.ifn.get(), k, a, b); bool fired_fault = fuse && af::fuse() == 0; af::disarm();
        if (fired_fault && !r) { c.fault("failing allocation"); notes[i].clear(); partial(ob, a, n, w, k); return; }
        CHECK(r == ok, ok ? "access-refused" : "access-allowed", "an access (kind %d) of %lu bytes at 0x%lx of a memory of 0x%lx bytes (blocks of %lu) was %s", k, (ul)n, (ul)a, (ul)ob.size, (ul)blk, ok ? "refused" : "accepted");
        if (!ok) { c.fault("refused access"); CHECK(!istry(k) || !lastthrow, "try-threw", "a try access threw instead of returning false (kind %d, 0x%lx+%lu)", k, (ul)a, (ul)n); CHECK(!isw(k) || b == w, "buffer-changed", "the caller's buffer was changed by a refused write"); obscheck(i, false, 0, 0, {}, {}); check_near(ob, a); return; }
        c.nontrivial = true;
        if (isw(k)) { CHECK(b == w, "buffer-changed", "a write changed the caller's buffer"); if (k < 4) obscheck(i, ob.ow, 1, a, w, old); else obscheck(i, false, 0, 0, {}, {}); store_model(i, a, w); }
        else { CHECK(b == old, "wrong-data", "reading %lu bytes at 0x%lx of object %d (kind %d) gave %s, memory holds %s", (ul)n, (ul)a, i, k, hex(b).c_str(), hex(old).c_str()); if (k < 4) obscheck(i, ob.orr, 0, a, b, {}); else obscheck(i, false, 0, 0, {}, {}); }
        check_near(ob, a);
    }
    void partial(Obj & ob, A a, A n, const Bytes & w, int k) { // an access that failed for lack of memory: every byte is old or (multi-block pokes) new
        c.probe("allocation failed in an access"); if (!isw(k)) return;
        for (A j = 0; j < n; ++j) { if (!inwin(a + j, 1, 0, ob.size)) continue; uint8_t v; Bytes one(1); ob.mo->read(a + j, 1, one.data()); v = one[0];
            CHECK(v == ob.get(a + j) || (isdbg(k) && v == w[j]), "wrong-data", "after an allocation failure byte 0x%lx holds 0x%02x, neither the old nor the new value", (ul)(a + j), v); ob.bytes[a + j] = v; }
        resync(ob, a, n);
    }
    void resync(Obj & ob, A a, A n) { if (cores.empty()) return; for (size_t o = 0; o < objs.size(); ++o) if (objs[o].get() == &ob) for (A j = 0; j < n; ++j) if (inwin(a + j, 1, 0, ob.size)) { uint8_t v = ob.get(a + j); obj_stored((int)o, a + j, 1, &v, nullptr, 0, true); } }
    void store_model(int i, A a, const Bytes & w) { for (A j = 0; j < w.size();) { A n = std::min<A>(w.size() - j, blk - (a + j) % blk); obj_stored(i, a + j, n, w.data() + j, nullptr, 0, true); j += n; } }
    void check_near(Obj & ob, A a) { // the bytes around the access are what the model says (raw peek of the object)
        for (int d = -9; d <= 40; d += 7) { A x = a + d; if (!inwin(x, 1, 0, ob.size)) continue; uint8_t v = 0; ob.mo->read(x, 1, &v); CHECK(v == ob.get(x), "wrong-data", "byte 0x%lx of a memory holds 0x%02x after an access at 0x%lx, expected 0x%02x", (ul)x, v, (ul)a, ob.get(x)); } }
    void macc(const Op & o) {
        A a = maddr(o, 0); A n = (A)std::max<int64_t>(1, o.arg(2)); int k = (int)(o.arg(3) & 7); Bytes b = rnd(o.arg(4), n), w = b; c.log("m k%d @%lx+%lu", k, (ul)a, (ul)n);
        bool ok = inwin(a, n, 0, total) && (isdbg(k) || !span(a, n)); bool hole = false;
        if (ok) for (A x = a;;) { if (!find(x)) { ok = false; hole = true; break; } A nb = (x / blk + 1) * blk; if (nb - a >= n) break; x = nb; }
        Bytes old; if (ok) for (A j = 0; j < n; ++j) { const Map * m = find(a + j); old.push_back(objs[m->o]->get(a + j - m->s + m->d)); }
        const Map * m = find(a);
        if (!isdbg(k)) { (isw(k) ? mwrites : mreads)++; if (ok) (isw(k) ? objs[m->o]->writes : objs[m->o]->reads)++; }
        int r = access(map.get(), k, a, b);
        CHECK(r == ok, ok ? "access-refused" : "access-allowed", "an access (kind %d) of %lu bytes at mapped address 0x%lx was %s (%zu mappings)", k, (ul)n, (ul)a, ok ? "refused" : "accepted", maps.size());
        if (!ok) { c.fault(hole ? "access to an unmapped address" : "refused access"); CHECK(!istry(k) || !lastthrow, "try-threw", "a try access threw instead of returning false (kind %d, map address 0x%lx+%lu)", k, (ul)a, (ul)n);
            if (hole && isw(k)) for (A j = 0; j < n; ++j) { const Map * mm = find(a + j); if (!mm) continue; A x = a + j - mm->s + mm->d; uint8_t v; objs[mm->o]->mo->read(x, 1, &v); bool may = false; if (isdbg(k)) for (A q = 0; q < n; ++q) { const Map * mq = find(a + q); if (!mq) break; if (mq->o == mm->o && a + q - mq->s + mq->d == x && w[q] == v) may = true; }
                CHECK(v == objs[mm->o]->get(x) || may, "wrong-data", "a refused write through the map changed byte 0x%lx", (ul)(a + j)); if (v != objs[mm->o]->get(x)) { obj_stored(mm->o, x, 1, &v, nullptr, 0, true); } }
            return; }
        c.nontrivial = true; c.probe("access through the map");
        Obj & ob = *objs[m->o]; A oa = a - m->s + m->d;
        if (isw(k)) { if (k < 4) obscheck(m->o, ob.ow, 1, oa, w, old); int mo = -1; (void)mo; for (A j = 0; j < n;) { const Map * mm = find(a + j); A q = std::min<A>(n - j, blk - (a + j) % blk); obj_stored(mm->o, a + j - mm->s + mm->d, q, w.data() + j, nullptr, 0, true); j += q; } }
        else { if (k < 4) obscheck(m->o, ob.orr, 0, oa, b, {}); CHECK(b == old, "wrong-data", "reading %lu bytes at mapped address 0x%lx gave %s, memory holds %s", (ul)n, (ul)a, hex(b).c_str(), hex(old).c_str()); }
        check_near(ob, oa);
    }
    void addmap(const Op & o) {
        A s = ((o.arg(0) & 3) == 3 ? (A(1) << 32) : (o.arg(0) & 3) == 2 ? (A(1) << 12) : 0) + (A)o.arg(1) * blk, e = s + (A)std::max<int64_t>(1, o.arg(2)) * blk; int i = (int)(o.arg(3) % objs.size()); A d = (A)o.arg(4) * blk;
        if (o.arg(5) == 1) s += 1; if (o.arg(5) == 2) e = s; if (o.arg(5) == 3) d += blk / 2;
        bool ok = s < e && s % blk == 0 && e % blk == 0 && d % blk == 0 && (e - s) + d <= objs[i]->size; for (auto & m : maps) if (s < m.e && e > m.s) ok = false;
        c.log("map [%lx,%lx) -> o%d+%lx ok=%d", (ul)s, (ul)e, i, (ul)d, ok);
        bool t = refused([&] { map->addMapping(s, e, objs[i]->ifn.get(), d); });
        CHECK(t == !ok, ok ? "mapping-refused" : "mapping-allowed", "mapping [0x%lx, 0x%lx) to object %d + 0x%lx was %s with %zu mappings present", (ul)s, (ul)e, i, (ul)d, ok ? "refused" : "accepted", maps.size());
        if (ok) { maps.push_back({s, e, i, d}); c.probe("mapping added"); } else c.fault("refused mapping");
        CHECK(map->getNumMappings() == maps.size() && map->getMappings().size() == maps.size(), "mapping-count", "the map reports %u mappings (%zu listed), %zu were added", map->getNumMappings(), map->getMappings().size(), maps.size());
        for (auto & m : maps) for (A x : {m.s, m.e - 1, m.e, m.s - 1}) lookup(x);
    }
    void lookup(A x) {
        const Map * m = find(x); auto * p = static_cast<const SimpleMemoryMap *>(map.get())->findMapping(x); auto * q = map->findMapping(x);
        CHECK((p != nullptr) == (m != nullptr) && p == q, "map-lookup", "address 0x%lx is %s by the map (%zu mappings)", (ul)x, p ? "claimed to be mapped" : "not found", maps.size());
        auto r = static_cast<const SimpleMemoryMap *>(map.get())->mapAddress(x); CHECK((void *)map->findInterface(x) == (void *)r.first, "map-lookup", "findInterface and mapAddress disagree");
        if (!m) { CHECK(!r.first, "map-lookup", "an unmapped address is translated"); return; }
        CHECK(r.first == static_cast<BlockingMemoryIF *>(objs[m->o]->ifn.get()) && r.second == x - m->s + m->d, "map-lookup", "address 0x%lx is translated to 0x%lx, expected object %d + 0x%lx", (ul)x, (ul)r.second, m->o, (ul)(x - m->s + m->d));
    }
    void dget(const Op & o) {
        A n = (A)std::max<int64_t>(1, o.arg(3)); DMIBlockingMemoryIF * p = nullptr; int oi; A a; bool ok;
        if (o.arg(4)) { A x = maddr(o, 1); const Map * m = find(x); oi = m ? m->o : 0; a = m ? x - m->s + m->d : 0; ok = m && !span(a, n); if (m && !inwin(a, n, 0, objs[oi]->size)) return; bool t = refused([&] { p = map->getDMI(x, n); }); CHECK(!t, "dmi-refused", "getDMI of the map threw at 0x%lx", (ul)x); }
        else { oi = (int)(o.arg(0) % objs.size()); a = oaddr(objs[oi]->size, o, 1); if (!inwin(a, n, 0, objs[oi]->size)) return; ok = !span(a, n); bool t = refused([&] { p = objs[oi]->ifn->getDMI(a, n); }); CHECK(!t, "dmi-refused", "getDMI threw at 0x%lx", (ul)a); }
        c.log("dmi o%d @%lx+%lu", oi, (ul)a, (ul)n);
        CHECK((p != nullptr) == ok, ok ? "dmi-refused" : "dmi-allowed", "a DMI window for %lu bytes at 0x%lx was %s", (ul)n, (ul)a, ok ? "refused" : "given");
        if (!p) { c.fault("refused access"); return; }
        CHECK(p->isValid(), "dmi-stale", "getDMI returned a window that is already invalid (0x%lx)", (ul)a);
        CHECK(p->getLowEnd() == a / blk * blk && p->getRange() == blk, "dmi-window", "the DMI window for 0x%lx covers 0x%lx + %lu", (ul)a, (ul)p->getLowEnd(), (ul)p->getRange());
        for (auto & d : dmis) if (d.p == p) { CHECK(d.valid, "dmi-stale", "a window that was invalidated came back as valid"); return; }
        dmis.push_back({p, oi, a / blk * blk, true}); c.probe("DMI window");
    }
    void dacc(const Op & o) {
        if (dmis.empty()) return; Dmi & d = dmis[o.arg(0) % dmis.size()]; Obj & ob = *objs[d.o]; A n = (A)std::max<int64_t>(1, o.arg(2)); int k = (int)(o.arg(3) & 7); A a = o.arg(5) == 1 ? ~A(0) - 6 + (A)o.arg(1) % 6 : o.arg(5) == 2 ? d.base - (A)(o.arg(1) % 16) : d.base + (A)o.arg(1); Bytes b = rnd(o.arg(4), n), w = b;
        bool ok = d.valid && inwin(a, n, d.base, d.base + blk) ; c.log("d o%d k%d @%lx+%lu v%d", d.o, k, (ul)a, (ul)n, d.valid);
        CHECK(d.p->isValid() == d.valid, "dmi-valid", "a DMI window says valid=%d, expected %d", d.p->isValid(), d.valid);
        Bytes old; if (ok) for (A j = 0; j < n; ++j) old.push_back(ob.get(a + j));
        int r = access(d.p, k, a, b);
        CHECK(r == ok, ok ? "access-refused" : "access-allowed", "an access (kind %d) of %lu bytes at 0x%lx through a%s DMI window at 0x%lx (%lu bytes) was %s", k, (ul)n, (ul)a, d.valid ? "" : "n invalidated", (ul)d.base, (ul)blk, ok ? "refused" : "accepted");
        if (!ok) { c.fault(d.valid ? "refused access" : "access through an invalidated window"); CHECK(!istry(k) || !lastthrow, "try-threw", "a try access threw instead of returning false (DMI, kind %d)", k); if (inwin(a, 1, 0, ob.size)) check_near(ob, a); return; }
        c.nontrivial = true;
        if (isw(k)) store_model(d.o, a, w); else CHECK(b == old, "wrong-data", "reading 0x%lx+%lu through a DMI window gave %s, memory holds %s", (ul)a, (ul)n, hex(b).c_str(), hex(old).c_str());
        check_near(ob, a);
        Bytes v(n); ob.ifn->peek(a, n, v.data()); for (A j = 0; j < n; ++j) CHECK(v[j] == ob.get(a + j), "wrong-data", "a store through a DMI window is not visible in the memory (0x%lx)", (ul)(a + j));
    }
    // ---- cores
    uint8_t view(Core & k, A a) { for (auto i = k.q.rbegin(); i != k.q.rend(); ++i) if (a >= i->a && a - i->a < i->d.size()) return i->d[a - i->a]; const Map * m = find(a); return objs[m->o]->get(a - m->s + m->d); }
    bool allmapped(A a, A n) { for (A j = 0; j < n; ++j) if (!find(a + j)) return false; return true; }
    void cop(const Op & o) {
        if (cores.empty()) return; int ci = (int)(o.arg(0) % cores.size()); Core & k = *cores[ci]; CachedMemory<> & m = *k.m;
        if (o.k == "cacc") {
            A a = maddr(o, 1); A n = (A)std::max<int64_t>(1, o.arg(3)); int kind = (int)(o.arg(4) & 7); Bytes b = rnd(o.arg(5), n), w = b; c.log("c%d k%d @%lx+%lu", ci, kind, (ul)a, (ul)n);
            bool ok = inwin(a, n, 0, total) && (isdbg(kind) || !span(a, n)), hole = ok && !allmapped(a, n); if (hole) ok = false;
            bool full = !isdbg(kind) && isw(kind) && k.q.size() == wm; if (full) ok = false;
            if (isdbg(kind) && isw(kind)) { for (auto & s : k.q) if (s.a < a + n && a < s.a + s.d.size()) return; if (hole) return; for (auto & x : maps) for (auto & y : maps) if (&x != &y && x.o == y.o) return; }
            Bytes old; if (ok) for (A j = 0; j < n; ++j) old.push_back(view(k, a + j));
            int r = access(&m, kind, a, b);
            CHECK(r == ok, ok ? "access-refused" : "access-allowed", "core %d: an access (kind %d) of %lu bytes at 0x%lx with %zu outstanding stores was %s", ci, kind, (ul)n, (ul)a, k.q.size(), ok ? "refused" : "accepted");
            if (!ok) { c.fault(full ? "store buffer full" : hole ? "access to an unmapped address" : "refused access"); CHECK(!isw(kind) || m.getNumOutstandingWrites() == k.q.size(), "store-lost", "a refused store left a trace in the store list"); return; }
            c.nontrivial = true;
            if (isdbg(kind) && isw(kind)) { c.probe("poke through a core"); }
            else if (isw(kind)) { k.q.push_back({m.getLastOutstandingWrite().getWriteID(), a, w}); c.probe("speculative store"); auto & l = m.getLastOutstandingWrite(); CHECK(l.getPAddr() == a && l.getSize() == n && Bytes(l.getStoreDataPtr(), l.getStoreDataPtr() + n) == w, "store-record", "the record of a store does not describe it"); }
            else CHECK(b == old, "wrong-data", "core %d reading %lu bytes at 0x%lx (kind %d) saw %s, expected %s (%zu outstanding stores)", ci, (ul)n, (ul)a, kind, hex(b).c_str(), hex(old).c_str(), k.q.size());
            if (!isw(kind)) return;
            see(ci, a, n);
        } else if (o.k == "ccommit") {
            int mode = (int)o.arg(1); c.log("c%d commit %d q%zu", ci, mode, k.q.size());
            if (k.q.empty()) { CHECK(refused([&] { StoreData s(1, 0, 1, (const uint8_t *)"x", nullptr, nullptr); m.commitWrite(s); }), "store-accepted", "a commit with nothing outstanding was accepted"); return; }
            if (mode == 1 && k.q.size() > 1) { auto s = std::next(m.getOutstandingWrites().begin(), 1 + (o.arg(2) % (k.q.size() - 1)))->second; CHECK(refused([&] { m.commitWrite(s); }), "store-accepted", "a store was committed out of order"); c.fault("commit out of order"); return; }
            if (mode == 2) { StoreData s(~0ull, 0, 1, (const uint8_t *)"x", nullptr, nullptr); CHECK(refused([&] { m.commitWrite(s); }), "store-accepted", "an unknown store was committed"); CHECK(refused([&] { m.dropWrite(s); }), "store-accepted", "an unknown store was dropped"); c.fault("unknown store committed or dropped"); return; }
            St s = k.q.front(); auto w = m.getOutstandingWrites().begin()->second; CHECK(w.getWriteID() == s.id, "store-order", "the oldest outstanding store of core %d is not the oldest issued", ci);
            k.q.pop_front(); const Map * mm = find(s.a); objs[mm->o]->writes++; mwrites++; const Obj & ob = *objs[mm->o]; Bytes old; A oa = s.a - mm->s + mm->d; for (A j = 0; j < s.d.size(); ++j) old.push_back(ob.get(oa + j));
            CHECK(!refused([&] { m.commitWrite(w); }), "store-refused", "committing the oldest store was refused"); c.probe("store committed");
            obscheck(mm->o, ob.ow, 1, oa, s.d, old);
            CHECK(objs[mm->o]->get(oa) == s.d[0], "store-lost", "a committed store did not reach the memory underneath"); check_near(*objs[mm->o], oa);
            for (size_t i = 0; i < cores.size(); ++i) see((int)i, s.a, s.d.size());
        } else if (o.k == "cdrop") {
            if (k.q.empty()) return; size_t i = o.arg(1) % k.q.size(); c.log("c%d drop %zu of %zu", ci, i, k.q.size()); auto w = std::next(m.getOutstandingWrites().begin(), i)->second; auto gone = std::vector<St>(k.q.begin() + i, k.q.end());
            CHECK(!refused([&] { m.dropWrite(w); }), "store-refused", "dropping an outstanding store was refused"); k.q.resize(i); c.fault("speculative stores dropped");
            for (auto & s : gone) see(ci, s.a, s.d.size());
        }
        CHECK(m.getNumOutstandingWrites() == k.q.size() && m.getOutstandingWrites().size() == k.q.size(), "store-count", "core %d has %u outstanding stores, expected %zu", ci, m.getNumOutstandingWrites(), k.q.size());
        size_t i = 0; for (auto & x : m.getOutstandingWrites()) { CHECK(x.first == k.q[i].id && Bytes(x.second.getStoreDataPtr(), x.second.getStoreDataPtr() + x.second.getSize()) == k.q[i].d && k.q[i].a == x.second.getPAddr(), "store-record", "the list of outstanding stores is wrong at %zu", i); ++i; }
        if (!k.q.empty()) { A a = k.q[o.arg(2) % k.q.size()].a + 1; std::vector<uint64_t> ex; for (auto & s : k.q) if (a >= s.a && a < s.a + s.d.size()) ex.push_back(s.id); auto g = m.getOutstandingWritesForAddr(a); bool same = g.size() == ex.size(); for (size_t j = 0; same && j < ex.size(); ++j) same = g[j].getWriteID() == ex[j]; CHECK(same, "store-record", "getOutstandingWritesForAddr(0x%lx) lists %zu stores, expected %zu", (ul)a, g.size(), ex.size()); }
    }
    void see(int ci, A a, A n) { Core & k = *cores[ci]; A lo = a > 9 ? a - 9 : 0; for (A x = lo; x < a + n + 9; ++x) { if (!find(x) || !inwin(x, 1, 0, total)) continue; uint8_t v = 0; k.m->peek(x, 1, &v); CHECK(v == view(k, x), "wrong-data", "core %d sees 0x%02x at 0x%lx, expected 0x%02x (%zu outstanding stores)", ci, v, (ul)x, view(k, x), k.q.size()); } }
    void go() {
        blk = A(8) << plan.c("lb"); total = (A(1) << 34); wm = (unsigned)std::max<int64_t>(1, plan.c("wm", 4));
        rt.reset(new sparta::RootTreeNode("root"));
        for (int i = 0; i < plan.c("objs", 1); ++i) {
            auto & o = *objs.emplace_back(new Obj); int64_t s = plan.c(("s" + std::to_string(i)).c_str(), 4); o.size = s > 100 ? (A(1) << 36) : (A)s * blk; o.fsz = 1u << (plan.c("fs") & 3); o.fill = (uint64_t)plan.c("fill", 0xcc);
            if (o.fsz < 8) o.fill &= (uint64_t(1) << (8 * o.fsz)) - 1;
            o.node.reset(new sparta::TreeNode(rt.get(), "o" + std::to_string(i), "o")); o.mo.reset(new MemoryObject(o.node.get(), blk, o.size, o.fill, (uint16_t)o.fsz)); o.ifn.reset(new BlockingMemoryObjectIFNode(o.node.get(), "mem", "m", nullptr, *o.mo));
        }
        notes.resize(objs.size());
        map.reset(new SimpleMemoryMapNode(rt.get(), "map", "m", blk, total)); mgr.reset(new Mgr(this, blk, total));
        for (int i = 0; i < plan.c("cores"); ++i) { cores.emplace_back(new Core); cores.back()->m.reset(new CachedMemory<>("c" + std::to_string(i), (uint64_t)i, wm, blk, total, mgr.get())); }
        if (cores.size() > 1) c.probe("several cores");
        rt->enterConfiguring(); rt->enterFinalized();
        for (size_t i = 0; i < objs.size(); ++i) { ro.emplace_back(new RObs{this, (int)i}); wo.emplace_back(new WObs{this, (int)i}); }
        int64_t fuse = 0;
        for (auto & o : plan.ops) {
            if (o.k == "oacc") { oacc(o, fuse); fuse = 0; }
            else if (o.k == "fuse") fuse = o.arg(0);
            else if (o.k == "macc") macc(o);
            else if (o.k == "map") addmap(o);
            else if (o.k == "lookup") lookup(maddr(o, 0));
            else if (o.k == "dget") dget(o);
            else if (o.k == "dacc") dacc(o);
            else if (o.k == "dinval") { int i = (int)(o.arg(0) % objs.size()); c.log("inval o%d", i); objs[i]->ifn->invalidateAllDMI(); for (auto & d : dmis) if (d.o == i && d.valid) { d.valid = false; c.fault("DMI windows invalidated"); } }
            else if (o.k == "obs") { int i = (int)(o.arg(0) % objs.size()); Obj & ob = *objs[i]; c.log("obs o%d %ld", i, (long)o.arg(1));
                if (o.arg(1) & 1) { auto & s = ob.ifn->getReadNotificationSource(); RObs * x = ro[i].get(); if (ob.orr) s.deregisterForThis<RObs, &RObs::cb>(x); else s.registerForThis<RObs, &RObs::cb>(x); ob.orr = !ob.orr; }
                else { auto & s = ob.ifn->getPostWriteNotificationSource(); WObs * x = wo[i].get(); if (ob.ow) s.deregisterForThis<WObs, &WObs::cb>(x); else s.registerForThis<WObs, &WObs::cb>(x); ob.ow = !ob.ow; } }
            else if (o.k[0] == 'c') cop(o);
            for (size_t i = 0; i < objs.size(); ++i) { CHECK(objs[i]->ifn->ctr_reads_->get() == objs[i]->reads && objs[i]->ifn->ctr_writes_->get() == objs[i]->writes, "access-count", "object %zu counts %lu reads and %lu writes, %lu and %lu were attempted", i, (ul)objs[i]->ifn->ctr_reads_->get(), (ul)objs[i]->ifn->ctr_writes_->get(), (ul)objs[i]->reads, (ul)objs[i]->writes); }
        }
        CHECK(map->ctr_reads_->get() == mreads && map->ctr_writes_->get() == mwrites, "access-count", "the map counts %lu reads and %lu writes, %lu and %lu were attempted", (ul)map->ctr_reads_->get(), (ul)map->ctr_writes_->get(), (ul)mreads, (ul)mwrites);
        for (size_t i = 0; i < objs.size(); ++i) for (auto & b : objs[i]->bytes) { uint8_t v; objs[i]->mo->read(b.first, 1, &v); CHECK(v == b.second, "wrong-data", "at the end byte 0x%lx of object %zu holds 0x%02x, expected 0x%02x", (ul)b.first, i, v, b.second); }
    }
};
void gen(Rng & r, Plan & p, bool th) {
    int lb = (int)r.below(4); int64_t blk = 8 << lb; p.cfg["lb"] = lb; p.cfg["objs"] = r.range(1, 3); p.cfg["s0"] = r.range(1, 8); p.cfg["s1"] = r.p(50) ? r.range(1, 64) : 1000; p.cfg["s2"] = r.range(1, 8); p.cfg["fs"] = r.range(0, 3); p.cfg["fill"] = r.p(50) ? 0xcc : (int64_t)(r.next() >> 1);
    p.cfg["cores"] = r.p(40) ? 0 : r.range(1, 3); p.cfg["wm"] = r.p(70) ? r.range(2, 8) : r.range(1, 2); bool few = r.p(50), maps = r.p(75) || p.cfg["cores"], flt = r.p(20), bad = r.p(40);
    auto off = [&]() -> int64_t { return few ? r.range(0, blk - 1) : r.p(85) ? r.range(0, 2 * blk) : bad ? r.range(-9, 9) : r.range(0, 3 * blk); };
    auto sz = [&]() -> int64_t { return r.p(70) ? (int64_t(1) << r.below(4)) : r.p(80) ? r.range(1, blk) : r.range(1, 4 * blk); };
    auto sel = [&](int n) -> int64_t { return few ? (n == 8 ? 5 + 8 * r.range(0, 3) : 0) : n == 8 ? (r.p(80) ? r.range(5, 7) + 8 * r.range(0, 6) : bad ? r.range(0, 63) : r.range(5, 7)) : r.p(80) ? r.range(0, 2) : bad ? r.range(0, 5) : 0; };
    int n = (int)r.range(4, th ? 120 : 50);
    if (maps) for (int i = 0, k = (int)r.range(1, th ? 14 : 7); i < k; ++i) p.add("map", {r.range(0, 3), r.range(0, 40), r.range(1, 6), r.range(0, 2), r.range(0, 3), 0});
    for (int i = 0; i < n; ++i) { int x = (int)r.below(20);
        if (x < 4) { if (flt && r.p(30)) p.add("fuse", {r.range(1, 6)}); p.add("oacc", {r.range(0, 2), sel(6), off(), sz(), r.range(0, 7), r.range(0, 1 << 20)}); }
        else if (x < 7) p.add("macc", {sel(8), off(), sz(), r.range(0, 7), r.range(0, 1 << 20)});
        else if (x < 8) { if (maps) p.add("map", {r.range(0, 3), r.range(0, 40), r.range(1, 6), r.range(0, 2), r.range(0, 3), bad && r.p(30) ? r.range(1, 3) : 0}); }
        else if (x < 9) p.add("lookup", {r.range(0, 63), r.range(-3, 70)});
        else if (x < 10) p.add("dget", {r.range(0, 2), r.p(50) ? sel(8) : sel(6), off(), sz(), r.range(0, 1)});
        else if (x < 11) p.add("dacc", {r.range(0, 5), r.range(-2, blk), r.p(70) ? r.range(1, 8) : r.range(1, blk), r.range(0, 7), r.range(0, 1 << 20), bad && r.p(30) ? r.range(1, 2) : 0});
        else if (x < 12) p.add(r.p(40) ? "dinval" : "obs", {r.range(0, 2), r.range(0, 1)});
        else { int y = (int)r.below(10); int64_t core = r.range(0, 2); if (y < 6) p.add("cacc", {core, sel(8), off(), r.range(0, 3) ? (int64_t(1) << r.below(4)) : sz(), r.p(50) ? 1 : r.range(0, 7), r.range(0, 1 << 20)}); else if (y < 8) p.add("ccommit", {core, bad && r.p(20) ? r.range(1, 2) : 0, r.range(0, 9)}); else p.add("cdrop", {core, r.range(0, 7), r.range(0, 9)}); } }
}
dst::Register r18([] { Harness h; h.property = "C18"; h.technique = "deterministic simulation of interleaved cores, debug and DMI accesses to shared memories, with refused accesses, invalidations, dropped stores and failing allocations, against byte-array models";
    h.rule = "1-3 memory objects of 1 to 2^36 bytes, a memory map built step by step, 0-3 cores with cached memories, 4-50 operations (120 thorough) through every path; non-trivial: an access succeeded"; h.measure = "FNV hash of the run's complete event log";
    h.real = "MemoryObject, ArchData, BlockingMemoryIFNode, BlockingMemoryObjectIFNode, DMIBlockingMemoryIF, SimpleMemoryMap, SimpleMemoryMapNode, CachedMemory, NotificationSource, Counter"; h.stub = "global operator new (fuse); the coherence point between the cores and the map is the testbench's part and is simulated";
    h.assumptions = {"every store that reaches memory underneath a core is shown to the other cores with mergeWrite, as the coherence contract asks", "pokes through a core that overlap its own outstanding stores are left out", "zero-sized accesses are left out"};
    h.quick_runs = 30000; h.thorough_runs = 2000000; h.gen = gen; h.run = runWorld<MW>; return h; }());
} // namespace
