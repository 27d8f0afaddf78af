// C16, C17: checkpointing (in memory, to streams and files) against byte-map models, with failing allocations,
// failing and short writes, truncated and damaged streams.
#include "world_base.hpp"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/serialization/checkpoint/FastCheckpointer.hpp"
#include "sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp"
#include "sparta/serialization/checkpoint/Checkpointable.hpp"
#include "sparta/serialization/checkpoint/FILEStream.hpp"
#include "alloc_fault.hpp"
#include <streambuf>
#include <sstream>

namespace {
typedef sparta::serialization::checkpoint::PersistentFastCheckpointer Fcp;
typedef Fcp::chkpt_id_t Id;
typedef std::vector<uint8_t> Bytes;
typedef std::vector<Bytes> State;
using sparta::Register; using sparta::RegisterSet; using sparta::memory::MemoryObject; using sparta::memory::BlockingMemoryObjectIFNode;
const Id NOID = sparta::serialization::checkpoint::CheckpointBase::UNIDENTIFIED_CHECKPOINT;

const unsigned char INIT[512] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18};
Register::Definition DEFS[] = {
    {0, "r0", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "d", 1, {}, {}, nullptr, Register::INVALID_ID, 0, INIT, 0, 0},
    {1, "r1", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "d", 4, {}, {}, nullptr, Register::INVALID_ID, 0, nullptr, 0, 0},
    {2, "r2", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "d", 16, {}, {}, nullptr, Register::INVALID_ID, 0, INIT, 0, 0},
    {3, "r3", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "d", 8, {}, {}, nullptr, Register::INVALID_ID, 0, INIT, 0, 0},
    {4, "r4", Register::GROUP_NUM_NONE, "", Register::GROUP_IDX_NONE, "d", 512, {}, {}, nullptr, Register::INVALID_ID, 0, INIT, 0, 0},
    Register::DEFINITION_END};
struct Blob { uint8_t b[40]; };

// one checkpointed tree: 2 register sets, 2 memories, one directly checkpointable object, one flat ArchData
struct Tree {
    sparta::RootTreeNode root; sparta::TreeNode a, b; std::unique_ptr<RegisterSet> rs[2]; MemoryObject m0, m1; BlockingMemoryObjectIFNode i0, i1; sparta::serialization::checkpoint::Checkpointable cp; Blob * blob; sparta::ArchData flat;
    State fresh;
    static uint64_t fill1() { return 0xa1b2; }
    Tree() : root("ckroot"), a(&root, "a", "a"), b(&root, "b", "b"), m0(&a, 16, 128, 0xcc, 1), m1(&b, 64, 512, fill1(), 2), i0(&a, "mem", "m", nullptr, m0), i1(&b, "mem", "m", nullptr, m1), cp(&b), blob(nullptr), flat(&b, 32, 0x11223344, 4, false) {
        rs[0] = RegisterSet::create(&a, DEFS); rs[1] = RegisterSet::create(&b, DEFS); blob = &cp.allocateCheckpointable<Blob>(); memset(blob, 7, sizeof *blob); flat.layoutRange(128); root.enterConfiguring(); root.enterFinalized(); root.bindTreeEarly(); root.bindTreeLate(); fresh = get(); }
    ~Tree() { root.enterTeardown(); }
    enum { NREG = 5, NITEM = 2 * NREG + 4 };
    sparta::RegisterBase * reg(int i) { return rs[i / NREG]->getRegister(DEFS[i % NREG].name); }
    static uint32_t size(int i) { return i < 2 * NREG ? (uint32_t)DEFS[i % NREG].bytes : i == 2 * NREG ? 128 : i == 2 * NREG + 1 ? 512 : i == 2 * NREG + 2 ? sizeof(Blob) : 128; }
    static uint32_t block(int i) { return i < 2 * NREG ? 512 : i == 2 * NREG ? 16 : i == 2 * NREG + 1 ? 64 : i == 2 * NREG + 2 ? 64 : 32; }
    void put(int i, uint32_t off, uint32_t n, const uint8_t * p, int how) {
        if (i < 2 * NREG) { auto * r = reg(i); switch (how % 6) { case 0: r->write(p, n, off); break; case 1: r->poke(p, n, off); break; case 2: r->writeUnmasked(p, n, off); break; case 3: r->pokeUnmasked(p, n, off); break; case 4: for (uint32_t k = 0; k < n; ++k) r->dmiWrite<uint8_t>(p[k], off + k); break; case 5: if (off % 4 == 0 && n >= 4 && size(i) % 4 == 0) { uint32_t v; memcpy(&v, p, 4); r->dmiWrite<uint32_t>(v, off / 4); for (uint32_t k = 4; k < n; ++k) r->dmiWrite<uint8_t>(p[k], off + k); } else r->write(p, n, off); } }
        else if (i == 2 * NREG || i == 2 * NREG + 1) { auto & f = i == 2 * NREG ? i0 : i1; switch (how % 4) { case 0: f.write(off, n, p); break; case 1: f.poke(off, n, p); break; case 2: (i == 2 * NREG ? m0 : m1).write(off, n, p); break; case 3: { auto * d = f.getDMI(off, n); if (d) d->write(off, n, p); break; } } }
        else if (i == 2 * NREG + 2) memcpy(blob->b + off, p, n); else { auto & l = flat.getLine(off); l.write(off - l.getOffset(), n, p); }
    }
    Bytes one(int i) { Bytes r(size(i)); 
        if (i < 2 * NREG) reg(i)->peek(r.data(), r.size(), 0);
        else if (i == 2 * NREG + 2) memcpy(r.data(), blob->b, r.size());
        else if (i == 2 * NREG + 3) { for (uint32_t o = 0; o < 128; o += 32) { const auto * l = flat.tryGetLine(o); if (l) l->read(0, 32, &r[o]); else sparta::ArchData::fillValue(&r[o], 32, 0x11223344, 4); } }
        else for (uint32_t o = 0; o < r.size(); o += block(i)) (i == 2 * NREG ? i0 : i1).peek(o, block(i), &r[o]);
        return r; }
    State get() { State s; for (int i = 0; i < NITEM; ++i) s.push_back(one(i)); return s; }
    void reset(int i) { switch (i) { case 0: rs[0]->reset(); break; case 1: rs[1]->reset(); break; case 2: m0.reset(); break; case 3: m1.reset(); break; case 4: flat.reset(); break; } }
};

struct Disk { std::vector<Fcp::checkpoint_ptr> kept; void saveCheckpoints(Fcp::checkpoint_ptrs && v) { for (auto & p : v) kept.push_back(std::move(p)); } ~Disk() { drop(); } void drop() { for (auto & p : kept) if (!p->isFlaggedDeleted()) p->flagDeleted(); kept.clear(); } };
// an output stream that takes `cap` bytes and then fails; an input stream over a string
struct Sink : std::streambuf { std::string s; int64_t cap = -1; 
    int_type overflow(int_type ch) override { if (cap >= 0 && (int64_t)s.size() >= cap) return traits_type::eof(); s.push_back((char)ch); return traits_type::not_eof(ch); }
    std::streamsize xsputn(const char * p, std::streamsize n) override { std::streamsize k = cap < 0 ? n : std::min<std::streamsize>(n, cap - (int64_t)s.size()); s.append(p, (size_t)k); return k; } };

// a FILE* over a simulated device: reads are short, and writing fails from byte `cap` on (for `fails` attempts)
struct Dev { std::string s; size_t pos = 0; int64_t cap = -1, fails = -1; size_t chunk = 1 << 20; bool failed = false;
    static ssize_t wr(void * v, const char * b, size_t n) { Dev & d = *(Dev *)v; if (d.cap >= 0 && (int64_t)d.s.size() >= d.cap && d.fails != 0) { if (d.fails > 0) --d.fails; d.failed = true; errno = ENOSPC; return 0; }
        if (d.cap >= 0 && d.fails != 0 && (int64_t)(d.s.size() + n) > d.cap) { n = (size_t)(d.cap - (int64_t)d.s.size()); d.failed = true; if (d.fails > 0) --d.fails; } d.s.append(b, n); return (ssize_t)n; }
    static ssize_t rd(void * v, char * b, size_t n) { Dev & d = *(Dev *)v; n = std::min({n, d.chunk, d.s.size() - d.pos}); memcpy(b, d.s.data() + d.pos, n); d.pos += n; return (ssize_t)n; }
    FILE * open(const char * m, bool buffered) { cookie_io_functions_t io{}; io.read = rd; io.write = wr; FILE * fp = fopencookie(this, m, io); if (!buffered) setvbuf(fp, nullptr, _IONBF, 0); return fp; } };

struct World : PBase {
    using PBase::PBase;
    struct Ck { State st; Tick tick; Id prev; bool dead = false, snap = false; };
    std::unique_ptr<Tree> t, twin; std::unique_ptr<Fcp> f, tf; Disk disk; std::map<Id, Ck> ck; State st; bool known = true; Id cur = NOID, head = NOID; bool curdead = false; int64_t nv = 0; std::vector<std::pair<std::string, State>> blobs;
    const char * name(int i) { static std::string s; s = i < 2 * Tree::NREG ? "register " + std::to_string(i) : i == 2 * Tree::NREG ? "memory 0" : i == 2 * Tree::NREG + 1 ? "memory 1" : i == 2 * Tree::NREG + 2 ? "checkpointable object" : "flat ArchData"; return s.c_str(); }
    void same(const State & want, Tree & tr, const char * cls, const char * when) { for (int i = 0; i < Tree::NITEM; ++i) { Bytes g = tr.one(i); if (g != want[i]) { size_t k = 0; while (g[k] == want[i][k]) ++k; FAIL(cls, "%s: byte %zu of %s is %02x instead of %02x", when, k, name(i), g[k], want[i][k]); } } }
    std::vector<Id> live() { std::vector<Id> v; for (auto & p : ck) if (!p.second.dead) v.push_back(p.first); return v; }
    std::string show(const std::vector<Id> & v) { std::string s; for (auto i : v) s += (s.empty() ? "" : ",") + std::to_string(i); return s; }
    Id pick(int64_t k) { auto v = live(); return v.empty() ? NOID : v[(size_t)k % v.size()]; }
    // run f with an allocation failing; true if it failed (bad_alloc)
    template<class F> bool oom(int64_t fuse, F && f) { if (fuse <= 0) { f(); return false; } bool b = false; af::arm(fuse); try { f(); } catch (std::bad_alloc &) { b = true; } catch (...) { af::disarm(); throw; } af::disarm(); if (b) c.fault("failing allocation"); return b; }
    void born(Id id) { Ck k; k.st = st; k.snap = f->findCheckpoint(id)->isSnapshot(); k.tick = now(); k.prev = cur; ck[id] = k; cur = id; curdead = false; }
    void adopt() { if (head == NOID && f->getHead()) { head = f->getHeadID(); cur = NOID; born(head); } } // a head came into being
    void newer(Id got) { adopt(); for (Id id : f->getCheckpoints()) if (!ck.count(id)) { CHECK(got == NOID || id == got, "ids", "creating a checkpoint returned %lu but checkpoint %lu appeared", (ul)got, (ul)id); born(id); } if (got != NOID) CHECK(ck.count(got), "ids", "created checkpoint %lu is not listed", (ul)got); }
    void look(const char * when);
    void act(const Op & o); void go();
    std::string blobOf();
    // An existing test of the repository expects that a delta checkpoint does not hold what was written to a
    // checkpointable object since the last snapshot; that failure, and no other, is the listed finding.
    void blobCheck(Id id) { const int i = 2 * Tree::NREG + 2; Bytes g = t->one(i); if (g == ck[id].st[i]) return; Id s = id; while (s != NOID && !ck[s].snap) s = ck[s].prev;
        if (!ck[id].snap && s != NOID && g == ck[s].st[i]) { if (!plan.c("persist")) c.known("checkpointable-delta", "loading the delta checkpoint %lu restores the checkpointable object as of the snapshot %lu", (ul)id, (ul)s); ck[id].st[i] = g; } }
};
void World::look(const char * when) {
    if (known) same(st, *t, "content", when);
    auto v = live(); auto g = f->getCheckpoints(); std::sort(g.begin(), g.end()); CHECK(g == v, "listing", "%s: getCheckpoints() is {%s} instead of {%s}", when, show(g).c_str(), show(v).c_str());
    CHECK(f->getNumCheckpoints() == v.size(), "listing", "%s: getNumCheckpoints() is %u instead of %zu", when, f->getNumCheckpoints(), v.size());
    CHECK(f->getNumSnapshots() <= v.size() && f->getNumDeadCheckpoints() < 100000, "counts", "%s: %u snapshots of %zu, %u dead checkpoints", when, f->getNumSnapshots(), v.size(), f->getNumDeadCheckpoints());
    uint32_t snaps = 0; for (Id i : v) { auto * d = f->findCheckpoint(i); CHECK(d && d->getID() == i && d->getTick() == ck[i].tick, "listing", "%s: findCheckpoint(%lu) is wrong", when, (ul)i); snaps += d->isSnapshot(); CHECK(f->hasCheckpoint(i), "listing", "%s: hasCheckpoint(%lu) is false", when, (ul)i);
        auto at = f->getCheckpointsAt(ck[i].tick); CHECK(std::find(at.begin(), at.end(), i) != at.end(), "listing", "%s: getCheckpointsAt(%lu) misses %lu", when, (ul)ck[i].tick, (ul)i); for (Id x : at) CHECK(ck.count(x) && !ck[x].dead && ck[x].tick == ck[i].tick, "listing", "%s: getCheckpointsAt(%lu) lists %lu", when, (ul)ck[i].tick, (ul)x); }
    CHECK(snaps == f->getNumSnapshots(), "counts", "%s: getNumSnapshots() is %u instead of %u", when, f->getNumSnapshots(), snaps);
    for (auto & p : ck) if (p.second.dead) { CHECK(!f->hasCheckpoint(p.first) && !f->findCheckpoint(p.first), "deleted", "%s: the deleted checkpoint %lu is still said to exist", when, (ul)p.first); }
    if (!v.empty()) { Id id = v[(size_t)nv % v.size()]; std::vector<Id> chain, want; for (Id x : f->getCheckpointChain(id)) if (x != NOID) chain.push_back(x); for (Id x = id; x != NOID; x = ck[x].prev) if (!ck[x].dead) want.push_back(x); CHECK(chain == want, "chain", "%s: the chain of %lu is {%s} instead of {%s}", when, (ul)id, show(chain).c_str(), show(want).c_str());
        Tick tk = ck[id].tick - std::min<Tick>(ck[id].tick, (Tick)nv % 12); Id w = NOID; for (Id x = id; x != NOID && w == NOID; x = ck[x].prev) if (!ck[x].dead && ck[x].tick <= tk) w = x; auto * d = f->findLatestCheckpointAtOrBefore(tk, id); CHECK((d ? d->getID() : NOID) == w, "latest", "%s: the latest checkpoint at or before %lu going back from %lu is %ld instead of %ld", when, (ul)tk, (ul)id, d ? (long)d->getID() : -1L, w == NOID ? -1L : (long)w); }
    if (head != NOID) CHECK(f->getHeadID() == head, "head", "%s: the head is %lu instead of %lu", when, (ul)f->getHeadID(), (ul)head);
    if (cur != NOID && !curdead) CHECK(f->getCurrentID() == cur, "current", "%s: the current checkpoint is %lu instead of %lu", when, (ul)f->getCurrentID(), (ul)cur);
}
std::string World::blobOf() { Sink s; std::ostream os(&s); f->save(os); return s.s; }
void World::act(const Op & o) {
    c.nontrivial = true; if (c.trace) { std::string s; for (auto x : o.a) s += " " + std::to_string(x); printf("  @%lu %s%s\n", (ul)now(), o.k.c_str(), s.c_str()); } c.log("%s %ld %ld", o.k.c_str(), (long)o.arg(0), (long)o.arg(1));
    if (o.k == "w") { int i = (int)(o.arg(0) % Tree::NITEM); uint32_t sz = Tree::size(i), bl = Tree::block(i), off = (uint32_t)(o.arg(1) % sz), n = (uint32_t)(1 + o.arg(2) % 16); n = std::min({n, sz - off, bl - off % bl}); uint8_t b[16]; for (auto & x : b) x = (uint8_t)(++nv * 37 + 1); if (!known) return; t->put(i, off, n, b, (int)o.arg(3)); memcpy(&st[i][off], b, n); }
    else if (o.k == "reset") { if (!known) return; int i = (int)(o.arg(0) % 5); t->reset(i); if (i < 2) { for (int r = 0; r < Tree::NREG; ++r) if (DEFS[r].initial_value) st[i * Tree::NREG + r] = t->fresh[i * Tree::NREG + r]; } else { int k = i == 4 ? 2 * Tree::NREG + 3 : 2 * Tree::NREG + i - 2; st[k] = t->fresh[k]; } c.probe("reset"); }
    else if (o.k == "run") sched->run(1 + o.arg(0) % 9, true, false);
    else if (o.k == "create") { if (!known) return; if (head == NOID && o.arg(1) <= 0 && o.arg(2) % 2) { f->createHead(); adopt(); CHECK(refused([&] { f->createHead(); }), "head", "a second createHead() was accepted"); return; } Id id = NOID; bool b = oom(o.arg(1), [&] { id = f->createCheckpoint(o.arg(0) % 3 == 0); }); if (!b) newer(id); else { adopt(); auto g = f->getCheckpoints(); CHECK(g.size() == live().size(), "failed-create", "a checkpoint appeared although its creation failed"); } }
    else if (o.k == "load") { Id id = pick(o.arg(0)); if (id == NOID) return; f->loadCheckpoint(id); blobCheck(id); cur = id; curdead = false; st = ck[id].st; known = true; CHECK(now() == ck[id].tick, "tick", "after loading checkpoint %lu the scheduler is at %lu instead of %lu", (ul)id, (ul)now(), (ul)ck[id].tick); c.probe("loaded"); }
    else if (o.k == "bad") { Id id = NOID; for (auto & p : ck) if (p.second.dead && (id == NOID || (nv++ + o.arg(0)) % 2)) id = p.first; if (id == NOID) id = 1000000; switch (o.arg(0) % 3) { case 0: CHECK(refused([&] { f->loadCheckpoint(id); }), "deleted", "loading the missing checkpoint %lu was accepted", (ul)id); break; case 1: CHECK(refused([&] { f->deleteCheckpoint(id); }), "deleted", "deleting the missing checkpoint %lu was accepted", (ul)id); break; case 2: if (head != NOID) CHECK(refused([&] { f->getCheckpointChain(id); }), "deleted", "the chain of the missing checkpoint %lu was returned", (ul)id); } }
    else if (o.k == "del") { Id id = pick(o.arg(0)); if (id == NOID) return; if (id == head) { if (o.arg(1) % 4 == 0) CHECK(refused([&] { f->deleteCheckpoint(id); }), "head", "deleting the head was accepted"); return; } f->deleteCheckpoint(id); ck[id].dead = true; if (id == cur) { curdead = true; c.probe("current deleted"); } c.probe("deleted"); }
    else if (o.k == "forget") { f->forgetCurrent(); cur = head; curdead = false; if (head != NOID) c.probe("current forgotten"); }
    else if (o.k == "thresh") f->setSnapshotThreshold((uint32_t)(1 + o.arg(0) % 6));
    else if (o.k == "squash") { if (head == NOID || curdead || !known) return; if (f->getNumDeadCheckpoints()) return; bool force = o.arg(0) % 3 == 0; std::set<Id> keep, saved; 
        if (force) { for (Id x = cur; x != NOID; x = ck[x].prev) if (!ck[x].dead) saved.insert(x); } else { bool snap = false; for (Id x = cur; x != NOID; x = ck[x].prev) if (!ck[x].dead) { if (!snap) { keep.insert(x); snap = f->findCheckpoint(x)->isSnapshot(); if (snap) ck[x].prev == NOID ? (void)0 : (void)(head = x); } else saved.insert(x); } }
        size_t had = disk.kept.size(); f->squashCurrentBranch(disk, force); std::set<Id> got; for (size_t i = had; i < disk.kept.size(); ++i) got.insert(disk.kept[i]->getID()); CHECK(got == saved, "squash", "squashing handed %zu checkpoints to the disk instead of %zu", got.size(), saved.size());
        for (auto it = ck.begin(); it != ck.end();) { if (!keep.count(it->first)) it = ck.erase(it); else { if (it->first == head) it->second.prev = NOID; ++it; } } c.probe("squashed");
        if (force) { head = NOID; cur = NOID; adopt(); CHECK(head != NOID, "squash", "no head after squashing"); } else cur = f->getCurrentID(); if (o.arg(1) % 2) disk.drop(); }
    // ---- C17
    else if (o.k == "save") { if (!known) return; Sink s; std::ostream os(&s); if (o.arg(0) > 0) s.cap = o.arg(0); bool t_ = false; Id id = NOID; t_ = refused([&] { id = f->save(os); }); bool full = s.cap >= 0 && (int64_t)s.s.size() >= s.cap; if (t_) { CHECK(full, "save", "saving failed although the stream took everything"); c.fault("output stream full"); newer(NOID); } else { newer(id); CHECK(!full || (int64_t)blobOf().size() == s.cap, "lost-write", "save() reports success although the stream refused bytes"); if (full) newer(NOID); blobs.push_back({s.s, st}); } }
    else if (o.k == "fsave") { if (!known) return; Dev d; d.cap = o.arg(0) > 0 ? o.arg(0) : -1; d.chunk = (size_t)(1 + o.arg(1)); FILE * fp = d.open("w", false); Id id = NOID; bool t_;
        { ::FILEOstream fo(fp); t_ = refused([&] { id = f->save(fo.getStream()); }); } fclose(fp);
        if (t_) { CHECK(d.failed, "save", "saving failed although the device took everything"); c.fault("device full"); newer(NOID); } else { CHECK(!d.failed, "lost-write", "save() reports success although the device refused bytes"); newer(id); blobs.push_back({d.s, st}); } }
    else if (o.k == "frestore") { if (blobs.empty()) return; auto & b = blobs[(size_t)o.arg(0) % blobs.size()]; Dev d; d.s = b.first; d.chunk = (size_t)(1 + o.arg(1)); bool cut = o.arg(2) > 0; if (cut) { d.s.resize((size_t)o.arg(2) % d.s.size()); c.fault("truncated checkpoint"); } FILE * fp = d.open("r", o.arg(3) % 2); bool r;
        { ::FILEIstream fi(fp); r = refused([&] { f->restore(fi.getStream()); }); } fclose(fp); CHECK(r == cut, "restore", "restoring %s checkpoint from a FILE was %s", cut ? "a truncated" : "an intact", r ? "refused" : "accepted");
        if (r) { std::istringstream ok(b.first); f->restore(ok); } else { c.probe("restored from a FILE"); c.fault("short reads"); } same(b.second, *t, "restore-content", "after restoring from a FILE"); adopt(); st = b.second; }
    else if (o.k == "fout") { Dev d; d.chunk = (size_t)(1 + o.arg(0) % 50); d.cap = o.arg(1) > 0 ? o.arg(1) : -1; d.fails = o.arg(3) % 3 ? o.arg(3) % 3 : -1; Rng r((uint64_t)o.arg(2)); FILE * fp = d.open("w", false); std::string all;
        { ::FILEOstream fo(fp); auto & os = fo.getStream(); bool blk = false; for (int n = 0, m = (int)o.arg(4); n < m && os.good(); ++n) switch (r.w({60, 20, 10})) {
              case 0: { int k = r.p(5) ? 1030 : r.range(1, 20); for (int q = 0; q < k && os.good(); ++q) { char ch = (char)r.range(0, 255); os.put(ch); if (os.good()) all += ch; } break; }
              case 1: { std::string w; for (int q = r.range(0, 200); q-- > 0;) w += (char)r.range(0, 255); os.write(w.data(), w.size()); all += w; if (!os.good()) blk = true; break; } // how much of a block a failed stream took is unknown
              case 2: os.flush(); if (os.good()) CHECK(d.s == all, "file-write", "after a flush the device has %zu bytes which differ from the %zu written", d.s.size(), all.size()); break; }
          bool went_bad = !os.good(); os.flush(); CHECK(os.good() || d.failed, "file-write", "the stream failed although the device took everything"); if (d.failed) { c.fault("device full"); CHECK(!os.good() || went_bad, "lost-write", "the device refused bytes but the stream is good after a flush"); }
          if (!os.good()) { CHECK(d.s.size() <= all.size() && all.compare(0, d.s.size(), d.s) == 0, "file-write", "the device does not hold a prefix of what was written"); if (!blk) for (int k = 0; k < 4 && !os.good(); ++k) { os.clear(); os.flush(); } if (!blk && os.good()) { c.probe("flushed after a transient failure"); CHECK(d.s == all, "file-write", "after a retried flush the device has %zu bytes which differ from the %zu written", d.s.size(), all.size()); } }
          else CHECK(d.s == all, "file-write", "the device has %zu bytes which differ from the %zu written", d.s.size(), all.size()); c.probe("FILEOstream script"); }
        fclose(fp); }
    else if (o.k == "fin") { Dev d; d.chunk = (size_t)(1 + o.arg(0) % 50); Rng r((uint64_t)o.arg(2)); for (int64_t k = 0; k < o.arg(1); ++k) d.s += (char)(r.p(30) ? 255 : r.range(0, 255)); FILE * fp = d.open("r", o.arg(3) % 2); std::string got;
        { ::FILEIstream fi(fp); auto & is = fi.getStream(); for (int n = 0; n < 20000 && is.good(); ++n) switch (r.w({50, 30, 10})) {
              case 0: { int ch = is.get(); if (ch != EOF) got += (char)ch; break; } case 1: { char b[1500]; is.read(b, r.p(10) ? 1500 : r.range(1, 60)); got.append(b, (size_t)is.gcount()); break; } case 2: { int ch = is.peek(); CHECK(ch == (got.size() < d.s.size() ? (int)(unsigned char)d.s[got.size()] : EOF), "file-read", "peek() at byte %zu of %zu is %d", got.size(), d.s.size(), ch); } } 
          CHECK(got == d.s, "file-read", "%zu bytes were read which differ from the %zu of the file", got.size(), d.s.size()); CHECK(is.eof(), "file-read", "the stream is not at its end"); c.probe("FILEIstream script"); }
        fclose(fp); }
    else if (o.k == "restore") { if (blobs.empty()) return; auto & b = blobs[(size_t)o.arg(0) % blobs.size()]; std::string d = b.first; int how = (int)(o.arg(1) % 6); bool tw = o.arg(3) % 2; 
        if (how == 1 && d.size() > 1) { d.resize((size_t)o.arg(2) % d.size()); c.fault("truncated checkpoint"); } else if (how == 2 && !d.empty()) { d[0] = (o.arg(2) % 2) ? 'X' : '\0'; c.fault("damaged control character"); } else if (how == 3) d.back() = 'Q', c.fault("damaged control character"); else how = 0;
        std::istringstream is(d); Tree & tr = tw ? *twin : *t; Fcp & cf = tw ? *tf : *f; bool r = refused([&] { cf.restore(is); }); CHECK(r == (how != 0), "restore", "restoring %s checkpoint was %s", how == 0 ? "an intact" : how == 1 ? "a truncated" : "a damaged", r ? "refused" : "accepted");
        if (r) { std::istringstream ok(b.first); cf.restore(ok); c.probe("restored after a failed restore"); } else c.probe(tw ? "restored into another tree" : "restored"); same(b.second, tr, tw ? "restore-twin" : "restore-content", tw ? "after restoring into another tree" : "after restoring"); if (!tw) { adopt(); st = b.second; known = true; } }
}
void World::go() {
    sched.reset(new sparta::Scheduler()); cm.reset(new sparta::ClockManager(sched.get())); rtn.reset(new sparta::RootTreeNode("dstroot")); clks.push_back(cm->makeRoot(rtn.get())); cm->normalize(); rtn->setClock(clks[0].get());
    t.reset(new Tree()); twin.reset(new Tree()); f.reset(plan.c("roots") ? new Fcp(std::vector<sparta::TreeNode *>{&t->a, &t->b}, sched.get()) : new Fcp(t->root, sched.get())); tf.reset(plan.c("roots") ? new Fcp(std::vector<sparta::TreeNode *>{&twin->a, &twin->b}) : new Fcp(twin->root)); f->setSnapshotThreshold((uint32_t)plan.c("thresh", 3)); st = t->fresh;
    rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize();
    bool boom = false; std::string msg;
    try { sched->run(1, true, false); for (auto & o : plan.ops) { act(o); look("after an operation"); }
        for (Id i : live()) { f->loadCheckpoint(i); blobCheck(i); CHECK(now() == ck[i].tick, "tick", "checkpoint %lu restores tick %lu instead of %lu", (ul)i, (ul)now(), (ul)ck[i].tick); char b[60]; snprintf(b, sizeof b, "finally loading checkpoint %lu", (ul)i); same(ck[i].st, *t, "content", b); c.probe("final load"); }
    } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
    if (stored) throw *stored;
    CHECK(!boom, "exception", "unexpected exception: %.300s", msg.c_str());
    c.sim_time += now(); if (plan.c("diskfirst")) disk.drop(); f.reset(); tf.reset(); disk.drop();
}
void ops(Rng & r, Plan & p, bool th, bool persist) {
    p.cfg["thresh"] = r.range(1, 6); if (persist) p.cfg["persist"] = 1; p.cfg["roots"] = r.p(25); p.cfg["diskfirst"] = r.p(50); bool hasoom = r.p(30), reset = r.p(60), forget = r.p(30), squash = r.p(25), del = r.p(70); std::vector<int> hot; for (int i = 0, n = (int)r.range(1, 5); i < n; ++i) hot.push_back((int)r.range(0, Tree::NITEM - 1)); int rawp = r.p(40) ? 1 : 0;
    for (int i = 0, n = (int)r.range(4, th ? 80 : 40); i < n; ++i) switch (r.w({30, reset ? 6 : 0, 8, 18, 14, del ? 12 : 0, forget ? 4 : 0, 2, squash ? 5 : 0, 3, persist ? 14 : 0, persist ? 16 : 0, persist ? 5 : 0, persist ? 5 : 0, persist ? 3 : 0, persist ? 3 : 0})) {
        case 0: for (int k = (int)r.range(1, 3); k-- > 0;) p.add("w", {r.p(80) ? r.pick(hot) : r.range(0, Tree::NITEM - 1), r.range(0, 511), r.range(0, 15), rawp ? r.range(0, 11) : r.pick(std::vector<int>{0, 1, 2, 4, 5, 6, 8, 9, 10})}); break;
        case 1: p.add("reset", {r.range(0, 4)}); break; case 2: p.add("run", {r.range(0, 8)}); break;
        case 3: p.add("create", {r.range(0, 5), hasoom && r.p(30) ? r.range(1, 12) : 0, r.range(0, 3)}); break; case 4: p.add("load", {r.range(0, 50), 0}); break;
        case 5: p.add("del", {r.range(0, 50), r.range(0, 3)}); break; case 6: p.add("forget"); break; case 7: p.add("thresh", {r.range(0, 5)}); break; case 8: p.add("squash", {r.range(0, 2), r.range(0, 1)}); break; case 9: p.add("bad", {r.range(0, 2)}); break;
        case 10: p.add("save", {r.p(25) ? r.range(1, 2500) : 0}); break; case 11: p.add("restore", {r.range(0, 20), r.p(30) ? r.range(1, 3) : 0, r.range(0, 1 << 20), r.p(40)}); break;
        case 12: p.add("fsave", {r.p(25) ? r.range(1, 2500) : 0, r.p(50) ? r.range(0, 30) : 4000}); break; case 13: p.add("frestore", {r.range(0, 20), r.p(50) ? r.range(0, 30) : 4000, r.p(25) ? r.range(1, 1 << 20) : 0, r.range(0, 1)}); break;
        case 14: p.add("fout", {r.range(0, 49), r.p(50) ? r.range(1, 2500) : 0, r.range(0, 1 << 30), r.range(0, 2), r.range(1, 60)}); break; case 15: p.add("fin", {r.range(0, 49), r.range(0, 3000), r.range(0, 1 << 30), r.range(0, 1)}); break; }
}
dst::Register r16([] { Harness h; h.property = "C16"; h.technique = "deterministic simulation of checkpoint histories with failing allocations, against a byte-map model of every checkpointed object";
    h.rule = "4-40 operations (80 thorough) on a tree with register sets, memories, a checkpointable object and a flat ArchData: writes by every path, resets, time, checkpoints, loads, deletions, forgetting, squashing, failing allocations; non-trivial: an operation ran"; h.measure = "FNV hash of the run's complete event log"; h.real = "FastCheckpointer, DeltaCheckpoint, VectorStorage, ArchData, DataView, RegisterSet, MemoryObject, Checkpointable, Scheduler"; h.stub = "checkpointed device, squash target, operator new";
    h.assumptions = {"squashing only while no deleted checkpoint lingers", "which checkpoint becomes current when the current one is deleted is not judged"};
    h.quick_runs = 40000; h.thorough_runs = 3000000; h.gen = [](Rng & r, Plan & p, bool th) { ops(r, p, th, false); }; h.run = runWorld<World>; return h; }());
dst::Register r17([] { Harness h; h.property = "C17"; h.technique = "deterministic simulation of saved and restored checkpoint streams with failing writes, truncation and damage, against a byte-map model";
    h.rule = "as C16, with checkpoints written to streams that fail after n bytes and restored, intact or damaged, into the same or an identical tree; non-trivial: an operation ran"; h.measure = "FNV hash of the run's complete event log"; h.real = "PersistentFastCheckpointer, FastCheckpointer, ArchData, FILEStream"; h.stub = "checkpointed device, output stream, FILE*";
    h.assumptions = {"damage is judged only where the format has a control character or an end"};
    h.quick_runs = 40000; h.thorough_runs = 3000000; h.gen = [](Rng & r, Plan & p, bool th) { ops(r, p, th, true); }; h.run = runWorld<World>; return h; }());
} // namespace
