// C24: the pipeline database - collectables of every kind on several clocks, collected automatically, by hand, with delays and
// durations, while collection starts, stops and moves to other files - read back through the viewer's own reader and compared
// with a timeline per collectable.
#include "world_base.hpp"
#include "alloc_fault.hpp"
#include "iofault.hpp"
#include "sparta/collection/Collectable.hpp"
#include "sparta/collection/DelayedCollectable.hpp"
#include "sparta/collection/IterableCollector.hpp"
#include "sparta/collection/PipelineCollector.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "../helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp"
#include <iostream>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>

namespace pipew {
using sparta::SchedulingPhase;
std::string text(uint64_t v) { if (!v) return ""; if (v % 11 == 3) return "a longer value, with spaces\tand: colons\n#" + std::to_string(v); return "v" + std::to_string(v); }
struct Val { uint64_t v = 0; };
std::ostream & operator<<(std::ostream & o, const Val & x) { return o << text(x.v); }
enum class Kind : uint32_t { IDLE, BUSY, LOST };
std::ostream & operator<<(std::ostream & o, const Kind & k) { switch (k) { case Kind::IDLE: return o << "idle"; case Kind::BUSY: return o << "very busy"; default: return o << "lost"; } }
const char * kname(uint64_t k) { return k == 0 ? "idle" : k == 1 ? "very busy" : "lost"; }
// (the getters must be members of the class itself: those of a base class are ignored)
#define RAW uint64_t did = 0, num = 0; uint32_t adr = 0; uint16_t sm = 0; Kind kd = Kind::IDLE; std::string s;     uint64_t getDid() const { return did; } uint64_t getNum() const { return num; } uint32_t getAdr() const { return adr; } uint16_t getSm() const { return sm; } const Kind & getKd() const { return kd; } const std::string & getS() const { return s; }     void set(uint64_t v) { uint64_t h = dst::mix64(v); did = h % 9000; num = v % 5 ? v : h >> 1; adr = (uint32_t)(h >> 20); sm = (uint16_t)(h >> 7); kd = (Kind)(h % 3); s = v % 4 == 1 ? "" : "s:" + std::to_string(v % 6); }
class ADef; class BDef;
struct TA { using SpartaPairDefinitionType = ADef; RAW };
struct TB { using SpartaPairDefinitionType = BDef; RAW };
class ADef : public sparta::PairDefinition<TA> { public: typedef TA TypeAdded; ADef() : PairDefinition<TA>() { SPARTA_INVOKE_PAIRS(TA); }
    SPARTA_REGISTER_PAIRS(SPARTA_ADDPAIR("DID", &TA::getDid), SPARTA_ADDPAIR("num", &TA::getNum), SPARTA_ADDPAIR("adr", &TA::getAdr, std::ios::hex), SPARTA_ADDPAIR("kind", &TA::getKd), SPARTA_ADDPAIR("str", &TA::getS)) };
class BDef : public sparta::PairDefinition<TB> { public: typedef TB TypeAdded; BDef() : PairDefinition<TB>() { SPARTA_INVOKE_PAIRS(TB); }
    SPARTA_REGISTER_PAIRS(SPARTA_ADDPAIR("str", &TB::getS), SPARTA_ADDPAIR("sm", &TB::getSm, std::ios::oct), SPARTA_ADDPAIR("kd", &TB::getKd), SPARTA_ADDPAIR("num", &TB::getNum)) };
std::string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%lx", (unsigned long)v); return b; }
std::string oct(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0%lo", (unsigned long)v); return b; }
std::string key(const TA & t) { return "DID=" + std::to_string(t.did) + "|num=" + std::to_string(t.num) + "|adr=" + hex(t.adr) + "|kind=" + kname((uint64_t)t.kd) + "|str=" + t.s + "|"; }
std::string key(const TB & t) { return "str=" + t.s + "|sm=" + oct(t.sm) + "|kd=" + kname((uint64_t)t.kd) + "|num=" + std::to_string(t.num) + "|"; }
// a container with holes
struct Sparse { typedef size_t size_type; std::vector<std::pair<bool, Val>> v;
    struct iterator { typedef Val value_type; typedef std::forward_iterator_tag iterator_category; typedef std::ptrdiff_t difference_type; typedef const Val * pointer; typedef const Val & reference;
        const Sparse * s; size_t i; bool isValid() const { return s->v.at(i).first; } const Val & operator*() const { return s->v.at(i).second; } iterator & operator++() { ++i; return *this; } bool operator!=(const iterator & o) const { return i != o.i; } };
    iterator begin() const { return {this, 0}; } iterator end() const { return {this, v.size()}; } size_t size() const { return v.size(); } };
struct Rec { uint64_t id, start, end, disp; uint32_t loc; uint16_t flags; std::string key; };
struct CB : sparta::pipeViewer::PipelineDataCallback { std::vector<Rec> & r; CB(std::vector<Rec> & r_) : r(r_) {}
    void foundInstRecord(const instruction_t *) override { throw std::runtime_error("instruction record"); } void foundMemRecord(const memoryoperation_t *) override { throw std::runtime_error("memory record"); }
    void foundAnnotationRecord(const annotation_t * a) override { r.push_back({a->transaction_ID, a->time_Start, a->time_End, a->display_ID, a->location_ID, a->flags, a->annt}); }
    void foundPairRecord(const pair_t * p) override { std::string k; for (size_t i = 1; i < p->length; ++i) k += p->nameVector.at(i) + "=" + p->stringVector.at(i) + "|"; r.push_back({p->transaction_ID, p->time_Start, p->time_End, p->display_ID, p->location_ID, p->flags, k}); } };
}

namespace {
using namespace pipew; using iof::wf; using iof::WF;
namespace col = sparta::collection;
const int NPH = 7; // phases; 7: after PostTick
struct PipeWorld : PBase {
    using PBase::PBase;
    struct Seg { Tick s, e; std::string key; bool cont; uint64_t disp; };
    struct Track { sparta::TreeNode * n = nullptr; bool on = false, open = false; Tick start = 0; std::string key; uint64_t disp = 0x1000; std::vector<Seg> segs; int item; };
    std::vector<Track> tr;
    // 0 automatic value, 1 by hand, 2 delayed, 3 delayed with duration, 4 vector, 5 container with holes, 6 pairs by hand, 7 pairs automatic, 8 pairs by pointer
    struct Item { int kind, clk, ph = 4; std::unique_ptr<sparta::TreeNode> n; col::CollectableTreeNode * cn = nullptr; sparta::TreeNode * parent; int t0 = 0, nt = 1; Val v; std::vector<Val> vec; Sparse sp; TA ta; TB tb; std::shared_ptr<TA> pa; bool autoc = false, isauto = false; };
    std::deque<Item> its; std::deque<std::unique_ptr<sparta::TreeNode>> nodes; std::vector<Tick> per;
    std::unique_ptr<col::PipelineCollector> pc; std::string dir, file; int nfile = 0; Tick hbi = 0; bool active = false, destroyed = false, boomed = false; uint64_t vals = 0; size_t checked = 0;
    // the model: pending actions in the order in which the simulation will take them
    struct Act { int what; size_t a; uint64_t v, d; };
    std::map<std::tuple<Tick, int, uint64_t>, Act> pend; uint64_t seq = 0; std::set<std::tuple<Tick, int, int>> chains; std::set<Tick> hb;
    void at(Tick t, int ph, Act a) { pend[{t, ph, seq++}] = a; }
    void mclose(Track & t, Tick n, bool ending = false) { if (t.open && (t.start < n || ending)) t.segs.push_back({t.start, n + (ending ? 1 : 0), t.key, false, t.disp}); t.open = false; }
    void mcollect(Track & t, Tick n, const std::string & k, uint64_t disp = 0x1000) { if (!t.on) return; if (t.open && k == t.key) return; mclose(t, n); t.key = k; t.disp = disp; if (!k.empty()) { t.open = true; t.start = n; } }
    void msample(Item & it, Tick n) { if (it.kind == 7) mcollect(tr[(size_t)it.t0], n, key(it.tb)); else if (it.kind == 4 || it.kind == 5) { for (int i = 0; i < it.nt; ++i) { Track & t = tr[(size_t)(it.t0 + i)]; bool there = it.kind == 4 ? (size_t)i < it.vec.size() : it.sp.v[(size_t)i].first; if (there) mcollect(t, n, text(it.kind == 4 ? it.vec[(size_t)i].v : it.sp.v[(size_t)i].second.v)); else if (t.on) mclose(t, n); } } else mcollect(tr[(size_t)it.t0], n, text(it.v.v)); }
    void advance(Tick n, int ph) {
        while (!pend.empty()) { auto i = pend.begin(); Tick t = std::get<0>(i->first); int p = std::get<1>(i->first); if (t > n || (t == n && p >= ph)) break; Act a = i->second; pend.erase(i);
            if (a.what == 0) { chains.erase({t, p, (int)a.a}); bool any = false; for (auto & it : its) if (it.isauto && it.autoc && it.clk == (int)a.a && it.ph == p) { any = true; msample(it, t); } if (any) chain((int)a.a, p, t + per[a.a]); }
            else if (a.what == 1) { Item & it = its[a.a]; for (int k = 0; k < it.nt; ++k) if (tr[(size_t)(it.t0 + k)].on) mclose(tr[(size_t)(it.t0 + k)], t); }
            else if (a.what == 2) { Track & k = tr[(size_t)its[a.a].t0]; if (k.on && a.d) at(t + a.d * per[(size_t)its[a.a].clk], 0, {1, a.a, 0, 0}); mcollect(k, t, text(a.v)); }
            else if (hb.erase(t) && active) { split(t); mhb(t + hbi); c.probe("heartbeats"); } } }
    void split(Tick t) { for (auto & k : tr) if (k.on && k.open) { if (k.start < t) k.segs.push_back({k.start, t, k.key, true, k.disp}); k.start = t; } }
    void chain(int clk, int ph, Tick t) { if (chains.insert({t, ph, clk}).second) at(t, ph, {0, (size_t)clk, 0, 0}); }
    void mhb(Tick t) { if (hb.insert(t).second) at(t, NPH, {3, 0, 0, 0}); }
    bool below(sparta::TreeNode * n, sparta::TreeNode * r) { for (; n; n = n->getParent()) if (n == r) return true; return false; }
    void mstart(sparta::TreeNode * r, Tick n) {
        if (!active) { active = true; hb.clear(); mhb((n / hbi + 1) * hbi); for (auto & t : tr) t.segs.clear(); }
        for (auto & it : its) if (below(it.cn, r)) { for (int i = 0; i < it.nt; ++i) tr[(size_t)(it.t0 + i)].on = true; if (it.isauto) { it.autoc = true; chain(it.clk, it.ph, n + per[(size_t)it.clk]); } } }
    void mstop(sparta::TreeNode * r, Tick n) { for (auto & it : its) if (below(it.cn, r)) { for (int i = 0; i < it.nt; ++i) { Track & t = tr[(size_t)(it.t0 + i)]; if (t.on) mclose(t, n); t.on = false; } it.autoc = false; } }

    template<class T> T * mk(Item & it, T * t) { it.n.reset(t); it.cn = t; return t; }
    typedef col::Collectable<Val> CV; typedef col::Collectable<Val, SchedulingPhase::Trigger> CT; typedef col::Collectable<Val, SchedulingPhase::PortUpdate> CP; typedef col::DelayedCollectable<Val> DV; typedef col::IterableCollector<std::vector<Val>> IV; typedef col::IterableCollector<Sparse, SchedulingPhase::Collection, true> IS;
    typedef col::Collectable<TA> PA; typedef col::Collectable<TB> PB; typedef col::Collectable<std::shared_ptr<TA>> PP;
    sparta::TreeNode * place(uint64_t x) { return nodes[x % nodes.size()].get(); }
    void build(const Op & o) {
        uint64_t k = (uint64_t)o.arg(0), x = (uint64_t)o.arg(1);
        if (o.k == "n") { auto n = std::make_unique<sparta::TreeNode>("n" + std::to_string(nodes.size()), "node"); sparta::TreeNode * p = nodes.empty() || x % 3 == 0 ? (sparta::TreeNode *)rtn.get() : place(x); p->addChild(n.get()); n->setClock(clks[k % clks.size()].get()); nodes.push_back(std::move(n)); return; }
        its.emplace_back(); Item & it = its.back(); size_t id = its.size() - 1; it.kind = (int)(k % 9); it.parent = place(x); it.clk = 0; for (size_t i = 0; i < clks.size(); ++i) if (it.parent->getClock() == clks[i].get()) it.clk = (int)i; std::string nm = "c" + std::to_string(id) + "_"; it.t0 = (int)tr.size();
        switch (it.kind) {
        case 0: it.isauto = true; it.v.v = x % 3 ? ++vals : 0; switch ((x >> 4) % 3) { case 0: mk(it, new CV(it.parent, nm, &it.v)); break; case 1: it.ph = 0; mk(it, new CT(it.parent, nm, &it.v)); break; default: it.ph = 2; mk(it, new CP(it.parent, nm, &it.v)); } break;
        case 1: mk(it, new CV(it.parent, nm)); break;
        case 2: case 3: mk(it, new DV(it.parent, nm)); break;
        case 4: it.isauto = true; it.nt = (int)(1 + (x >> 8) % 4); mk(it, new IV(it.parent, nm, &it.vec, (size_t)it.nt)); break;
        case 5: it.isauto = true; it.nt = (int)(1 + (x >> 8) % 4); it.sp.v.resize((size_t)it.nt); mk(it, new IS(it.parent, nm, &it.sp, (size_t)it.nt)); break;
        case 6: mk(it, new PA(it.parent, nm)); break;
        case 7: it.isauto = true; it.tb.set(x); mk(it, new PB(it.parent, nm, &it.tb)); break;
        case 8: it.pa.reset(new TA); mk(it, new PP(it.parent, nm)); break;
        }
        if (it.kind == 4 || it.kind == 5) { for (int i = 0; i < it.nt; ++i) { tr.emplace_back(); tr.back().n = it.cn->getChild(nm + std::to_string(i)); tr.back().item = (int)id; } } else { tr.emplace_back(); tr.back().n = it.cn; tr.back().item = (int)id; }
    }
    // what a driver does, now, in phase ph
    void drive(uint64_t k, uint64_t x, uint64_t y, int ph) {
        Tick n = now(); if (wf.full) return; advance(n, ph); if (its.empty()) return; size_t id = x % its.size(); Item & it = its[id]; Track & t = tr[(size_t)it.t0];
        uint64_t v = y % 5 == 0 ? 0 : y % 5 == 1 && vals ? vals : ++vals; Tick p = per[(size_t)it.clk]; uint64_t d = (y >> 8) % 4 == 0 ? 0 : (y >> 10) % 60;
        switch (k % 8) {
        case 0: case 1: case 2: case 3: case 4: {
            c.log("%lu.%d item %zu k%d v%lu d%lu", (ul)n, ph, id, it.kind, (ul)v, (ul)d);
            switch (it.kind) {
            case 0: it.v.v = v; if (k == 4 && it.ph == 4) { dynamic_cast<CV *>(it.cn)->collect(); if (t.on) msample(it, n); } break;
            case 1: { CV * q = (CV *)it.cn; Val w; w.v = v; if (k <= 1) { q->collect(w); mcollect(t, n, text(v)); } else if (k <= 3) { q->collectWithDuration(w, d); if (t.on && d) at(n + d * p, 0, {1, id, 0, 0}); mcollect(t, n, text(v)); } else { q->closeRecord(); if (t.on) mclose(t, n); } } break;
            case 2: { DV * q = (DV *)it.cn; Val w; w.v = v; q->collect(w, d); if (t.on) { if (d) at(n + d * p, 4, {2, id, v, 0}); else mcollect(t, n, text(v)); } } break;
            case 3: { DV * q = (DV *)it.cn; Val w; w.v = v; uint64_t u = (y >> 20) % 40; q->collectWithDuration(w, d, u); if (t.on) { if (d) at(n + d * p, 4, {2, id, v, u}); else { if (u) at(n + u * p, 0, {1, id, 0, 0}); mcollect(t, n, text(v)); } } } break;
            case 4: if (k == 0 && it.vec.size() < 6) it.vec.push_back({v}); else if (k == 1 && !it.vec.empty()) it.vec.pop_back(); else if (k == 2 && !it.vec.empty()) it.vec.erase(it.vec.begin()); else if (k == 3 && !it.vec.empty()) it.vec[y % it.vec.size()].v = v; else { ((IV *)it.cn)->collectWithDuration(d); if (tr[(size_t)it.t0].on) { msample(it, n); if (d) at(n + d * p, 0, {1, id, 0, 0}); } } break;
            case 5: { auto & e = it.sp.v[y % it.sp.v.size()]; e.first = k != 0; e.second.v = v; } break;
            case 6: { PA * q = (PA *)it.cn; it.ta.set(v + 1); if (k <= 2) { q->collect(it.ta); mcollect(t, n, key(it.ta), it.ta.did & 0xfff); } else if (k == 3) { q->collectWithDuration(it.ta, d); if (t.on && d) at(n + d * p, 0, {1, id, 0, 0}); mcollect(t, n, key(it.ta), it.ta.did & 0xfff); } else { q->closeRecord(); if (t.on) mclose(t, n); } } break;
            case 7: it.tb.set(v + 1); break;
            case 8: { PP * q = (PP *)it.cn; if (k == 4) { std::shared_ptr<TA> none; q->collect(none); if (t.on) mclose(t, n); } else { it.pa->set(v + 1); q->collect(it.pa); mcollect(t, n, key(*it.pa), it.pa->did & 0xfff); } } break;
            } } break;
        case 5: case 6: start(x, y); break;
        case 7: stop(x, y); break;
        } }
    sparta::TreeNode * root(uint64_t x, uint64_t y) { if (y % 2) return rtn.get(); return y % 4 ? place(x) : (sparta::TreeNode *)its[x % its.size()].cn; }
    void start(uint64_t x, uint64_t y) {
        sparta::TreeNode * r = root(x, y); if (!active) { if (destroyed) { file = dir + "/p" + std::to_string(nfile++) + "_"; pc->reactivate(file); destroyed = false; c.probe("collection moved to another file"); } }
        bool was = active, any = false; for (auto & it : its) any |= below(it.cn, r); if (!any) return; if (was) c.probe("collection extended"); c.log("start %s", r->getLocation().c_str()); pc->startCollection(r); mstart(r, now()); CHECK(pc->isCollectionActive(), "active", "collection is not active after it was started"); }
    void stop(uint64_t x, uint64_t y) {
        if (!active) return; Tick n = now();
        if (y % 7 == 0) { c.log("stop all"); pc->stopCollection(); mstop(rtn.get(), n); c.probe("everything stopped"); return; }
        if (y % 7 == 1) { finish(); return; }
        sparta::TreeNode * r = root(x, y); c.log("stop %s", r->getLocation().c_str()); pc->stopCollection(r); mstop(r, n); bool any = false; for (auto & t : tr) any |= t.on; CHECK(pc->isCollectionActive() == any, "active", "collection is %sactive although %s is collected", any ? "not " : "", any ? "something" : "nothing"); if (!any) { active = false; c.probe("collection stopped everywhere"); finish(); } }
    // closes the database and reads it back
    void finish() { Tick n = now(); c.log("destroy"); bool was = active; if (was && hb.count(n)) { split(n); c.probe("ended on a heartbeat"); } if (was) for (auto & t : tr) { if (t.on) mclose(t, n, true); } for (auto & t : tr) t.on = false; for (auto & it : its) it.autoc = false; active = false; destroyed = true; pc->destroy(); c.probe("databases"); check(); }
    void check() {
        bool o = wf.on; wf.on = false; struct Back { bool o; ~Back() { wf.on = o; } } back{o};
        std::map<uint32_t, size_t> loc; size_t total = 0; for (size_t i = 0; i < tr.size(); ++i) { loc[(uint32_t)tr[i].n->getNodeUID()] = i; total += tr[i].segs.size(); }
        files(); struct stat st; CHECK(!stat((file + "record.bin").c_str(), &st), "files", "no record file"); if (!total) { CHECK(st.st_size == 0, "extra", "records were written although nothing was collected"); c.probe("empty database"); return; } CHECK(st.st_size > 0, "missing", "%zu records were due and none was written", total);
        // (the reader refuses a database without pairs, whose side files are empty: give it an entry that nothing refers to)
        for (auto q : {std::pair<const char *, const char *>{"map.dat", "4294967295:65535"}, {"data.dat", "65535:1:x:8:0"}, {"string_map.dat", "65535:0:0:x"}, {"display_format.dat", "65535:0"}}) { std::ifstream e(file + q.first); CHECK(e.is_open(), "files", "no file %s", q.first); if (e.peek() == EOF) { std::ofstream g(file + q.first); g << q.second << '\n'; c.probe("side files completed"); } }
        std::vector<Rec> rec; auto rd = sparta::pipeViewer::Reader::construct<CB>(file, rec); Tick last = 0; for (auto & t : tr) for (auto & s : t.segs) last = std::max(last, s.e);
        CHECK(rd.getChunkSize() == hbi, "interval", "the database has a heartbeat of %lu instead of %lu", (ul)rd.getChunkSize(), (ul)hbi); CHECK(rd.getCycleLast() == last - 1, "last", "the reader says the last cycle is %lu instead of %lu", (ul)rd.getCycleLast(), (ul)(last - 1));
        std::vector<size_t> pos(tr.size(), 0); uint64_t id = 0; size_t seen = 0;
        for (Tick k = 0; k * hbi < last; ++k) { rec.clear(); rd.getWindow(k * hbi, (k + 1) * hbi);
            for (auto & r : rec) { CHECK(loc.count(r.loc), "location", "a record is at an unknown location"); size_t ti = loc[r.loc]; Track & t = tr[ti]; const char * nm = t.n->getName().c_str();
                CHECK(r.id > id, "id", "transaction ids do not grow"); id = r.id; CHECK(pos[ti] < t.segs.size(), "extra", "%s: record [%lu, %lu) %.200s was not collected", nm, (ul)r.start, (ul)r.end, r.key.c_str()); Seg & s = t.segs[pos[ti]++]; ++seen; c.log("rec %zu %lu %lu %d", ti, (ul)r.start, (ul)r.end, (int)(r.flags & CONTINUE_FLAG));
                CHECK(r.start == s.s && r.end == s.e, "time", "%s: record %zu is [%lu, %lu) %.150s instead of [%lu, %lu) %.150s", nm, pos[ti], (ul)r.start, (ul)r.end, r.key.c_str(), (ul)s.s, (ul)s.e, s.key.c_str());
                CHECK(r.key == s.key, "value", "%s: record %zu [%lu, %lu) is %.250s instead of %.250s", nm, pos[ti], (ul)r.start, (ul)r.end, r.key.c_str(), s.key.c_str());
                CHECK(!!(r.flags & CONTINUE_FLAG) == s.cont, "continued", "%s: record [%lu, %lu) is %smarked as continued", nm, (ul)r.start, (ul)r.end, s.cont ? "not " : ""); CHECK(r.disp == s.disp, "display", "%s: record has display id %lx instead of %lx", nm, (ul)r.disp, (ul)s.disp);
                CHECK(r.start >= k * hbi && r.end <= (k + 1) * hbi, "chunk", "%s: record [%lu, %lu) is in chunk %lu", nm, (ul)r.start, (ul)r.end, (ul)k); if (s.cont) c.probe("continued records"); } }
        for (size_t i = 0; i < tr.size(); ++i) if (pos[i] < tr[i].segs.size()) { Seg & s = tr[i].segs[pos[i]]; FAIL("missing", "%s: record [%lu, %lu) %.200s is not in the database (%zu of %zu are)", tr[i].n->getName().c_str(), (ul)s.s, (ul)s.e, s.key.c_str(), pos[i], tr[i].segs.size()); }
        // any window shows what overlaps it
        for (int q = 0; q < 3; ++q) { Tick a = mix64(vals * 7 + (uint64_t)q) % last, b = a + 1 + mix64(a + total) % (2 * hbi); rec.clear(); rd.getWindow(a, b); std::multiset<std::tuple<size_t, Tick, Tick>> got; for (auto & r : rec) got.insert({loc[r.loc], r.start, r.end});
            for (size_t i = 0; i < tr.size(); ++i) for (auto & s : tr[i].segs) if (s.s < b && s.e > a) CHECK(got.count({i, s.s, s.e}) == 1, "window", "%s: record [%lu, %lu) is %zu times in the window [%lu, %lu)", tr[i].n->getName().c_str(), (ul)s.s, (ul)s.e, got.count({i, s.s, s.e}), (ul)a, (ul)b); }
        c.probe("records read back", seen); c.nontrivial = true; }
    void files() {
        std::ifstream f(file + "clock.dat"); std::string l; std::set<std::string> want; for (auto & k : clks) { std::ostringstream s; s << k->getNodeUID() << ',' << k->getName() << ',' << k->getPeriod() << ',' << k->getRatio().getNumerator() << ',' << k->getRatio().getDenominator(); want.insert(s.str()); }
        std::getline(f, l); std::getline(f, l); while (std::getline(f, l)) CHECK(want.erase(l), "clocks", "clock file has the line %.200s", l.c_str()); CHECK(want.empty(), "clocks", "clock file lacks %.200s", want.begin()->c_str());
        std::ifstream g(file + "location.dat"); std::map<std::string, std::set<std::string>> have; std::getline(g, l); while (std::getline(g, l)) { size_t a = l.find(','), b = l.rfind(','); have[l.substr(0, a)].insert(l.substr(a + 1)); (void)b; }
        for (auto & t : tr) if (!t.segs.empty()) { std::string w = t.n->getLocation() + "," + std::to_string(t.n->getClock()->getNodeUID()); CHECK(have[std::to_string(t.n->getNodeUID())].count(w), "locations", "location file lacks %.200s", w.c_str()); } }
    struct Drv { PipeWorld * w; int ph; void go(const int & i) { const Op & o = w->plan.ops[(size_t)i]; w->guard([&] { w->drive((uint64_t)o.arg(0), (uint64_t)o.arg(1), (uint64_t)o.arg(2), ph); }); } };
    template<class F> void guard(F && f) { if (stored) return; f(); }
    void full() { // the disk of the database is full
        if (!active) return; wf.full = true; c.log("full"); bool r = refused([&] { sched->run(hbi + 1, true, false); }); wf.full = false; c.fault("disk full"); CHECK(r, "silent", "the index could not be written and nobody was told (%lu writes refused)", (ul)wf.nfull); boomed = true; }
    void go() {
        std::streambuf * old = std::cout.rdbuf(nullptr); struct Cout { std::streambuf * o; ~Cout() { std::cout.rdbuf(o); std::cout.clear(); } } cout_{old};
        char d_[] = "/tmp/dstpXXXXXX"; CHECK(mkdtemp(d_), "setup", "mkdtemp"); dir = d_; struct Rm { PipeWorld & w; ~Rm() { wf = WF(); static const char * const F[] = {"record.bin", "index.bin", "map.dat", "data.dat", "string_map.dat", "display_format.dat", "location.dat", "clock.dat"}; for (int i = 0; i < w.nfile; ++i) for (auto f : F) unlink((w.dir + "/p" + std::to_string(i) + "_" + f).c_str()); rmdir(w.dir.c_str()); } } rm{*this};
        bool boom = false; std::string msg; wf = WF(); wf.fd = -2; wf.s = (uint64_t)plan.c("io"); wf.on = wf.s % 2;
        sched.reset(new sparta::Scheduler()); cm.reset(new sparta::ClockManager(sched.get())); rtn.reset(new sparta::RootTreeNode("top")); clks.push_back(cm->makeRoot(rtn.get(), "root_clk"));
        for (int i = 1; i <= 2; ++i) { std::string q = std::to_string(i); if (plan.c(("num" + q).c_str())) clks.push_back(cm->makeClock("clk" + q, clks[0], (uint32_t)plan.c(("num" + q).c_str()), (uint32_t)plan.c(("den" + q).c_str()))); } cm->normalize(); rtn->setClock(clks[0].get()); for (auto & k : clks) per.push_back(k->getPeriod());
        sparta::EventSet es(rtn.get()); Drv d1{this, 1}, d3{this, 3}, d5{this, 5};
        sparta::PayloadEvent<int, SchedulingPhase::Update> e1(&es, "d1", sparta::SpartaHandler::from_member_1<Drv, int, &Drv::go>(&d1, "d1")); sparta::PayloadEvent<int, SchedulingPhase::Flush> e3(&es, "d3", sparta::SpartaHandler::from_member_1<Drv, int, &Drv::go>(&d3, "d3")); sparta::PayloadEvent<int, SchedulingPhase::Tick> e5(&es, "d5", sparta::SpartaHandler::from_member_1<Drv, int, &Drv::go>(&d5, "d5"));
        try {
            nodes.clear(); build(Op{"n", {0, 0}}); for (auto & o : plan.ops) if (o.k == "n" || o.k == "i") build(o); if (its.empty()) build(Op{"i", {0, 0}});
            rtn->enterConfiguring(); rtn->enterFinalized(); file = dir + "/p0_"; nfile = 1; pc.reset(new col::PipelineCollector(file, (Tick)plan.c("hb"), clks[0].get(), rtn.get())); sched->finalize();
            hbi = (Tick)plan.c("hb"); if (!hbi) { Tick f = 0; for (size_t i = 1; i < per.size(); ++i) if (per[i] != 1 && (!f || per[i] < f)) f = per[i]; if (!f) f = per[0]; hbi = f * 200; hbi += 100 - hbi % 100; }
            for (size_t i = 0; i < plan.ops.size() && !boomed; ++i) { const Op & o = plan.ops[i];
                if (o.k == "d") { Tick r = (Tick)o.arg(3); switch (o.arg(4) % 4) { case 0: c.probe("done between runs"); drive((uint64_t)o.arg(0), (uint64_t)o.arg(1), (uint64_t)o.arg(2), -1); break; case 1: e1.preparePayload((int)i)->scheduleRelativeTick(r, sched.get()); break; case 2: e3.preparePayload((int)i)->scheduleRelativeTick(r, sched.get()); break; default: e5.preparePayload((int)i)->scheduleRelativeTick(r, sched.get()); } }
                else if (o.k == "r") { Tick n = now(); Tick r = o.arg(1) % 4 == 0 ? hbi - n % hbi : (Tick)o.arg(0); sched->run(r, true, false); CHECK(now() == n + r, "tick", "a run of %lu ticks went from %lu to %lu", (ul)r, (ul)n, (ul)now()); advance(now(), -1); c.sim_time += r; }
                else if (o.k == "f") full(); }
            if (!boomed) { int l = (int)plan.c("last"); if (l & 1) rtn->enterTeardown(); if (active && (l & 2)) { pc->stopCollection(rtn.get()); mstop(rtn.get(), now()); active = false; } if (!destroyed && (active || (l & 2))) { if (nfile && stat_(file)) finish(); else pc->destroy(); } }
        } catch (Violation &) { boom = true; msg = "violation"; } catch (std::exception & e) { boom = true; msg = e.what(); }
        wf.on = false; wf.full = false; bool bad = boom || boomed; if (rtn) rtn->enterTeardown();
        if (bad) { pc.release(); for (auto & i : its) i.n.release(); for (auto & n : nodes) n.release(); } // (a collector that failed cannot be torn down)
        else { try { if (pc) pc->destroy(); pc.reset(); } catch (std::exception & e) { boom = true; msg = e.what(); pc.release(); } }
        if (wf.n) c.fault("short or interrupted write", wf.n);
        if (stored) throw *stored; CHECK(!boom, "exception", "unexpected exception: %.500s", msg.c_str());
        for (auto & i : its) i.n.reset(); while (!nodes.empty()) nodes.pop_back();
    }
    bool stat_(const std::string & f) { struct stat st; return !stat((f + "record.bin").c_str(), &st); }
};
void gen(Rng & r, Plan & p, bool th) {
    p.cfg["io"] = r.range(1, 1 << 20); p.cfg["hb"] = r.p(10) ? 0 : 100 * r.range(1, 3); p.cfg["last"] = r.range(0, 3); for (auto q : {"1", "2"}) if (r.p(70)) { p.cfg[std::string("num") + q] = r.range(1, 5); p.cfg[std::string("den") + q] = r.p(40) ? r.range(1, 3) : 1; }
    for (int i = 0, n = (int)r.range(0, 3); i < n; ++i) p.add("n", {r.range(0, 99), r.range(0, 1 << 20)});
    for (int i = 0, n = (int)r.range(1, 6); i < n; ++i) p.add("i", {r.range(0, 8), r.range(0, 1 << 20)});
    std::vector<int> w; for (int i = 0; i < 8; ++i) w.push_back((int)r.range(2, 8)); w[5] = (int)r.range(1, 4); w[6] = 0; w[7] = (int)r.range(0, 2);
    if (r.p(80)) p.add("d", {5, r.range(0, 1 << 20), r.p(70) ? 1 : r.range(0, 99), 0, 0});
    for (int i = 0, n = (int)r.range(4, th ? 30 : 16); i < n; ++i) { for (int k = 0, m = (int)r.range(0, 8); k < m; ++k) p.add("d", {(int64_t)r.w(w), r.range(0, 1 << 20), r.range(0, 1 << 28), r.range(1, 200), r.range(0, 6)}); p.add("r", {r.range(1, 180), r.range(0, 11)}); }
    if (r.p(5)) p.add("f", {});
}
void run(const Plan & p, Ctx & c) { af::Lay lay(9 + (uint64_t)p.c("io")); runWorld<PipeWorld>(p, c); }
Register R([] {
    Harness h; h.property = "C24"; h.technique = "deterministic simulation: seeded histories of collecting, starting, stopping and moving the collection on several clocks, with short, interrupted and refused writes, read back through the viewer's reader and compared with a timeline model";
    h.rule = "plan = collectables of every kind under a tree with 1-3 clocks, changes of values and collection in three phases and between runs, heartbeats of 100 to 300 ticks; non-trivial: a database with records was read back";
    h.real = "collectables, pipeline collector, pair definitions, outputter, clock and location files, file streams of the C++ library, scheduler, the reader of the viewer"; h.stub = "write() and writev() of the database may be short, interrupted or refused"; h.measure = "hash of the event log";
    h.quick_runs = 6000; h.thorough_runs = 1500000; h.gen = gen; h.run = run; return h; }());
} // namespace
