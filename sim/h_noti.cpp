// C23: notifications and log taps - a growing forest of nodes and sources, observers and taps that come and go (also while a
// notification is being delivered), destinations shared by taps - against a model computed from the tree and the registrations.
#include "world_base.hpp"
#include "alloc_fault.hpp"
#include "iofault.hpp"
#include "sparta/log/NotificationSource.hpp"
#include "sparta/log/MessageSource.hpp"
#include "sparta/log/Tap.hpp"
#include "sparta/simulation/TreeNodePrivateAttorney.hpp"
#include <iostream>
#include <sstream>
#include <fstream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <cerrno>

using iof::wf; using iof::WF;
namespace {
namespace lg = sparta::log;
struct DA { uint64_t id; }; struct DB { uint64_t id; };
const char * const NAMES[] = {"a", "b", "ab", "abc", "warn", "a_b"};
const char * const PATS[] = {"", "a", "b", "ab", "abc", "warn", "a*", "*b", "a?", "a+", "a,b", "b , ab", "a_*,warn", "warn,a,b", "b*,*c"};
const int NN = 6, NP = 15;
bool glob(const char * p, const char * s) { if (!*p) return !*s; if (*p == '*' || *p == '+') { for (const char * t = s + (*p == '+' ? 1 : 0); t <= s + strlen(s); ++t) if (glob(p + 1, t)) return true; return false; } if (*p == '?') return glob(p + 1, s) || (*s && glob(p + 1, s + 1)); return *p == *s && glob(p + 1, s + 1); }
bool matches(const std::string & pats, const std::string & n) { if (pats.empty()) return true; size_t i = 0; while (i <= pats.size()) { size_t e = pats.find(',', i); if (e == std::string::npos) e = pats.size(); std::string t; for (size_t k = i; k < e; ++k) if (pats[k] != ' ') t += pats[k]; if (glob(t.c_str(), n.c_str())) return true; i = e + 1; } return false; }
struct NotiWorld : PBase {
    using PBase::PBase;
    enum { TA, TB, MSG };
    typedef sparta::NotificationSourceBase NSB; typedef NSB::ObservationStateChange OSC;
    struct Hook { std::unique_ptr<NSB::ObservationStateCallback> cb; int kind; uint64_t n = 0, want = 0; uint32_t arg = 0; };
    struct Ent { std::unique_ptr<sparta::TreeNode> own; sparta::TreeNode * n = nullptr; int parent = -1, lvl = 0; bool alive = true; int type = -1; std::string name; uint64_t posts = 0; std::deque<Hook> hooks; NSB * s() { return static_cast<NSB *>(n); } };
    std::deque<Ent> es; // 0 the tree under test, 1 the virtual global node, 2 another tree
    std::unique_ptr<sparta::RootTreeNode> other;
    struct Ob { NotiWorld * w; int id;
        void a0(const sparta::TreeNode & o, const sparta::TreeNode & p, const DA & d) { w->got(id, TA, 0, &o, &p, d.id); } void a1(const DA & d) { w->got(id, TA, 1, nullptr, nullptr, d.id); }
        void b0(const sparta::TreeNode & o, const sparta::TreeNode & p, const DB & d) { w->got(id, TB, 0, &o, &p, d.id); } void b1(const DB & d) { w->got(id, TB, 1, nullptr, nullptr, d.id); }
        void m0(const sparta::TreeNode & o, const sparta::TreeNode & p, const lg::Message & m) { w->gotm(id, 0, &o, &p, m); } void m1(const lg::Message & m) { w->gotm(id, 1, nullptr, nullptr, m); } };
    std::deque<Ob> obs;
    struct Reg { int ob, node, type, sig; std::string pat; bool priv, active = true; int tap = -1; };
    std::vector<Reg> regs;
    struct Dst { std::ostream * os = nullptr; lg::Destination * d = nullptr; int fd = -1; std::string file; int fmt = 0; size_t pos = 0; uint64_t rcv = 0, wrote = 0, r0 = 0, w0 = 0, d0 = 0; };
    std::deque<Dst> dst;
    struct TapM { std::unique_ptr<lg::Tap> t; int node = -1, reg = -1, dst = 0; std::string pat; uint64_t lo = 0, hi = 0; };
    std::deque<TapM> taps;
    struct Line { uint64_t id; std::string pre, suf; int must = 0, may = 0, n = 0; bool nested; };
    struct Frame { int src; uint64_t id; std::vector<int> r0, added; std::map<std::tuple<int, int, int>, int> n; std::string text; };
    std::vector<Frame> fr; std::vector<std::map<uint64_t, Line>> lines; uint64_t ids = 0, acts = 0; bool fin = false, restless = false; uint64_t script = 0; int secondgone = 0;
    Tick clock0 = 0;
    int root(int e) { while (es[(size_t)e].parent >= 0) e = es[(size_t)e].parent; return e; }
    bool anc(int n, int e) { for (; e >= 0; e = es[(size_t)e].parent) if (e == n) return true; return false; }
    bool eligible(const Reg & r, int s) { Ent & e = es[(size_t)s]; if (!r.active || !e.alive || r.type != e.type || !matches(r.pat, e.name)) return false; if (r.node != 1 && !anc(r.node, s)) return false; return r.priv || es[(size_t)(r.node == 1 ? root(s) : r.node)].lvl == e.lvl; }
    std::vector<int> wanted(int s) { std::vector<int> v; for (size_t i = 0; i < regs.size(); ++i) if (eligible(regs[i], s)) v.push_back((int)i); return v; }
    static std::tuple<int, int, int> key(const Reg & r) { return std::make_tuple(r.ob, r.sig, r.sig ? -1 : r.node); }
    const char * nm(int e) { static std::string s[4]; static int i = 0; std::string & t = s[i++ % 4]; t = e == 1 ? "<global>" : es[(size_t)e].n->getLocation(); return t.c_str(); }
    // ---- deliveries
    bool engine = false; // the scheduler logs too
    void settledst() { for (auto & d : dst) if (d.d) { d.pos = read(d).size(); d.rcv = d.d->getNumMessagesReceived(); d.wrote = d.d->getNumMessagesWritten(); } }
    void gotm(int ob, int sig, const sparta::TreeNode * o, const sparta::TreeNode * p, const lg::Message & m) { if (engine) return; try { CHECK(!fr.empty() && m.content == fr.back().text, "content", "observer %d was given the message '%.100s'", ob, m.content.c_str()); Ent & s = es[(size_t)fr.back().src]; CHECK(&m.info.origin == es[(size_t)s.parent].n && *m.info.category == s.name && m.info.sim_time == clk(s.parent), "message-info", "a message of %s says it is from %s, category %s, tick %lu", nm(fr.back().src), m.info.origin.getLocation().c_str(), m.info.category->c_str(), (ul)m.info.sim_time); got(ob, MSG, sig, o, p, fr.back().id); } catch (Violation &) {} /* thrown again after the post: messages are emitted by a destructor */ }
    uint64_t clk(int e) { return es[(size_t)e].n->getClock() ? now() : 0; }
    void got(int ob, int type, int sig, const sparta::TreeNode * o, const sparta::TreeNode * p, uint64_t id) {
        CHECK(!fr.empty() && id == fr.back().id, "data", "observer %d was given notification %lu, not %lu", ob, (ul)id, fr.empty() ? 0ul : (ul)fr.back().id); Frame & f = fr.back(); Ent & s = es[(size_t)f.src];
        int node = -1; if (!sig) { CHECK(o == s.n, "origin", "observer %d was told the origin is %s, not %s", ob, o->getLocation().c_str(), nm(f.src)); for (size_t i = 0; i < es.size(); ++i) if (es[i].alive && es[i].n == p) node = (int)i; CHECK(node >= 0, "observation-point", "observer %d was told an observation point that is not one of its nodes", ob); }
        auto k = std::make_tuple(ob, sig, node); int may = 0, live = 0; std::set<int> all(f.r0.begin(), f.r0.end()); all.insert(f.added.begin(), f.added.end()); for (int r : all) if (key(regs[(size_t)r]) == k && regs[(size_t)r].type == type) { ++may; live += regs[(size_t)r].active; }
        c.log("got %d n%d", ob, node); int n = ++f.n[k]; c.nontrivial = true;
        CHECK(may, "stray", "observer %d was given a notification of %s (%s) that it does not observe%s%s", ob, nm(f.src), s.name.c_str(), node >= 0 ? " at " : "", node >= 0 ? nm(node) : "");
        CHECK(live, "after-removal", "observer %d was given a notification of %s (%s) after it had been removed", ob, nm(f.src), s.name.c_str());
        CHECK(n <= may, "duplicate", "observer %d was given notification %lu of %s (%s) %d times instead of %d", ob, (ul)id, nm(f.src), s.name.c_str(), n, may);
        if (restless && fr.size() < 3 && acts < 14) { script = mix64(script); uint64_t x = script; script = mix64(script); uint64_t y = script; if (x % 2 == 0) { ++acts; inside((x >> 4) % 9, x >> 8, y, f); } } }
    void inside(uint64_t k, uint64_t x, uint64_t y, Frame & f) {
        if (k < 4) { std::vector<int> v; for (int r : f.r0) if (regs[(size_t)r].active && regs[(size_t)r].tap < 0) v.push_back(r); if (v.empty()) return; c.probe("observer removed while a notification is delivered"); c.fault("observer removed during delivery"); dereg(v[x % v.size()]); }
        else if (k < 6) { c.fault("observer added during delivery"); newreg(x, y, true); }
        else if (k == 6) { if (!taps.empty() && es[(size_t)f.src].type == MSG) { c.fault("tap moved during delivery"); tapop(x, y); } }
        else { int s = pick(x, true); if (s < 0 || (es[(size_t)s].type == MSG && (y >> 9) % 4)) return; for (auto & g : fr) if (g.src == s && (y >> 20) % 4) return; c.fault("notification posted during delivery"); post(s, y); } }
    int pick(uint64_t x, bool src) { std::vector<int> v; for (size_t i = 0; i < es.size(); ++i) if (es[i].alive && (!src || es[i].type >= 0)) v.push_back((int)i); return v.empty() ? -1 : v[x % v.size()]; }
    void added(int r) { for (auto & f : fr) if (eligible(regs[(size_t)r], f.src)) f.added.push_back(r); }
    // ---- sources' hooks are told of every registration that concerns them
    void change(int r, bool reg) { for (size_t i = 0; i < es.size(); ++i) if (eligible(regs[(size_t)r], (int)i)) { int n = (int)wanted((int)i).size(); for (auto & h : es[i].hooks) if (h.kind == (reg ? 2 : 3) || (h.kind == (reg ? 0 : 1) && n == 1)) { ++h.want; } } }
    void hooked(size_t e, Hook * h, const NSB & ns, uint32_t n) { CHECK(&ns == es[e].s(), "state-callback", "an observation state callback was given another source"); ++h->n; h->arg = n; CHECK(n == ns.getNumObservers(), "state-callback", "an observation state callback was told %u observers, there are %u", n, ns.getNumObservers()); c.log("hook %d", h->kind); }
    template<class F> bool call(Reg & r, F && f) { return refused([&] { f(); }); (void)r; }
    void raw(Reg & r, bool on, bool ensure) {
        sparta::TreeNode * n = es[(size_t)r.node].n; Ob * o = &obs[(size_t)r.ob]; typedef sparta::TreeNodePrivateAttorney PA;
#define ONE(t, D, f) if (r.type == t) { if (on) { if (r.priv) PA::registerForNotification<D, Ob, &Ob::f>(n, o, r.pat, ensure); else n->registerForNotification<D, Ob, &Ob::f>(o, r.pat, ensure); } else { if (r.priv) PA::deregisterForNotification<D, Ob, &Ob::f>(n, o, r.pat); else n->deregisterForNotification<D, Ob, &Ob::f>(o, r.pat); } return; }
        if (r.sig == 0) { ONE(TA, DA, a0) ONE(TB, DB, b0) ONE(MSG, lg::Message, m0) } else { ONE(TA, DA, a1) ONE(TB, DB, b1) ONE(MSG, lg::Message, m1) } }
    bool possible(const Reg & r) { for (size_t i = 0; i < es.size(); ++i) if (es[i].alive && es[i].type == r.type && anc(r.node, (int)i) && es[i].lvl == es[(size_t)r.node].lvl && matches(r.pat, es[i].name)) return true; return false; }
    // half of the registrations are aimed at a source that exists
    bool aim(uint64_t x, int & n, std::string & pat, int & type, int only) { x = mix64(x); if (x % 4 == 0) return false; std::vector<int> v; for (size_t i = 0; i < es.size(); ++i) if (es[i].alive && es[i].type >= 0 && (only < 0 || es[i].type == only)) v.push_back((int)i); if (v.empty()) return false; int s = v[(x >> 3) % v.size()]; type = es[(size_t)s].type; for (n = s; es[(size_t)n].parent >= 0 && (x >> 20) % 3; x = mix64(x)) n = es[(size_t)n].parent; if ((x >> 33) % 5 == 0) n = 1; for (int i = 0; i < 40; ++i) { x = mix64(x); pat = PATS[x % NP]; if (matches(pat, es[(size_t)s].name)) break; } return true; }
    void newreg(uint64_t x, uint64_t y, bool in) {
        int n = pick(x, false); if ((y >> 3) % 6 == 0) n = 1; if (!es[(size_t)n].alive || regs.size() > 40) return; Reg r; r.node = n; r.type = (int)((y >> 6) % 3); r.sig = (int)((y >> 9) % 2); r.pat = PATS[(y >> 10) % NP]; r.priv = (y >> 15) % 4 == 0; aim(x * 31 + y, r.node, r.pat, r.type, -1); n = r.node;
        if (obs.empty() || (x >> 8) % 3 == 0) obs.push_back(Ob{this, (int)obs.size()}); r.ob = (int)((x >> 12) % obs.size()); if (!in && (y >> 19) % 40 == 0) { r.pat = (y >> 25) % 2 ? "a b" : "ab, b a"; Reg q = r; CHECK(refused([&] { raw(q, true, false); }), "malformed", "a registration for '%s' was accepted", r.pat.c_str()); c.probe("malformed list refused"); return; } bool ensure = (y >> 17) % 3 == 0 && n != 1, dup = false; for (auto & q : regs) dup |= q.active && q.tap < 0 && q.ob == r.ob && q.node == r.node && q.type == r.type && q.sig == r.sig && q.pat == r.pat;
        bool ok = !dup && (!ensure || possible(r)); if (!ok && (in || (y >> 22) % 3)) return; c.log("reg ob%d %s t%d '%s'%s%s", r.ob, nm(n), r.type, r.pat.c_str(), r.priv ? " priv" : "", ok ? "" : " refused");
        if (!ok) { c.probe(dup ? "second identical registration refused" : "impossible registration refused"); Reg q = r; bool no = refused([&] { raw(q, true, ensure); }); CHECK(no, dup ? "twice" : "impossible", "a registration at %s for type %d '%s' was accepted although it is %s", nm(n), r.type, r.pat.c_str(), dup ? "already there" : "impossible"); return; }
        regs.push_back(r); change((int)regs.size() - 1, true); added((int)regs.size() - 1); raw(r, true, ensure); c.probe(r.pat.find(',') != std::string::npos ? "observer of a list of names" : r.pat.empty() ? "observer of any name" : "observer of a name"); }
    void dereg(int i) { c.log("dereg %d", i); change(i, false); Reg r = regs[(size_t)i]; regs[(size_t)i].active = false; raw(r, false, false); }
    // ---- posting
    void post(int s, uint64_t y) {
        Ent & e = es[(size_t)s]; Frame f; f.src = s; f.id = ++ids; f.r0 = wanted(s); int mode = e.type == MSG ? (int)((y >> 3) % 7) : 0; c.log("post %lu by %s %s mode %d to %zu", (ul)f.id, nm(s), e.name.c_str(), mode, f.r0.size());
        if (e.type == MSG) { f.text = "#" + std::to_string(f.id) + " " + std::string((y >> 6) % 30, 'x') + ((y >> 11) % 5 == 0 ? "\nq\n" : ""); } if (e.type == MSG && mode == 6) { lg::MessageSource::LogObject lo(*static_cast<lg::MessageSource *>(e.n)); lo << f.text; lo.cancel(); return; }
        ++e.posts; bool top = fr.empty(); if (top) { lines.assign(dst.size(), {}); acts = 0; for (auto & t : taps) t.lo = t.hi = t.t ? t.t->getNumMessages() : 0; }
        if (e.type == MSG) { std::string flat; for (char ch : f.text) if (ch != '\n') flat += ch; sparta::TreeNode * on = es[(size_t)e.parent].n; char b[64]; const sparta::Clock * k = on->getClock(); std::string loc = on->getLocation(), cy; if (k) { snprintf(b, sizeof b, "%08lu", (ul)k->currentCycle()); cy = b; } else cy = "--------";
            for (size_t d = 0; d < dst.size(); ++d) { Line l; l.id = f.id; l.nested = !top; if (dst[d].fmt == 0) { snprintf(b, sizeof b, "{%010lu ", (ul)clk(e.parent)); l.pre = b + cy + " " + loc + " " + e.name + "} " + flat; } else if (dst[d].fmt == 1) l.pre = loc + ": " + e.name + ": " + flat; else if (dst[d].fmt == 2) l.pre = flat; else { snprintf(b, sizeof b, "{%08lu ", (ul)clk(e.parent)); l.pre = b + cy + " "; l.suf = " " + loc + " " + e.name + "} " + flat; } lines[d][f.id] = l; } }
        fr.push_back(f); { DA a{f.id}; DB b{f.id};
            if (e.type == TA) static_cast<sparta::NotificationSource<DA> *>(e.n)->postNotification(a); else if (e.type == TB) static_cast<sparta::NotificationSource<DB> *>(e.n)->postNotification(b);
            else { auto & m = *static_cast<lg::MessageSource *>(e.n); const std::string & t = f.text; size_t h = t.size() / 2; switch (mode) { case 0: case 5: m << t; break; case 1: m.emit(t); break; case 2: m << t.substr(0, h) << t.substr(h); break; case 3: { lg::MessageSource::LogObject a(m, t.substr(0, h)); a << t.substr(h); break; } default: { lg::MessageSource::LogObject a(m, t.substr(0, h)); lg::MessageSource::LogObject b(std::move(a)); b << t.substr(h); c.probe("message object moved"); } } } }
        if (stored) throw *stored;
        f = fr.back(); fr.pop_back(); std::map<std::tuple<int, int, int>, int> need; std::set<int> all(f.r0.begin(), f.r0.end()); all.insert(f.added.begin(), f.added.end());
        for (int r : all) { Reg & g = regs[(size_t)r]; bool first = std::find(f.r0.begin(), f.r0.end(), r) != f.r0.end(); bool must = first && g.active; if (g.tap >= 0) { TapM & t = taps[(size_t)g.tap]; if (must) ++t.lo; ++t.hi; Line & l = lines[(size_t)t.dst][f.id]; l.must += must; ++l.may; } else if (must) ++need[key(g)]; }
        for (auto & n : need) CHECK(f.n[n.first] >= n.second, "missed", "observer %d was given notification %lu of %s (%s) %d times instead of %d", std::get<0>(n.first), (ul)f.id, nm(s), e.name.c_str(), f.n[n.first], n.second);
        if (top) output(); }
    std::string read(Dst & d) { std::string all; if (d.os) all = static_cast<std::ostringstream *>(d.os)->str(); else { struct stat st; fstat(d.fd, &st); all.resize((size_t)st.st_size); size_t k = 0; while (k < all.size()) { ssize_t n = pread(d.fd, &all[k], all.size() - k, (off_t)k); if (n <= 0) break; k += (size_t)n; } } return all; }
    void output() {
        std::vector<uint64_t> lo(dst.size()), hi(dst.size());
        for (size_t i = 0; i < taps.size(); ++i) { TapM & t = taps[i]; if (t.t) { uint64_t n = t.t->getNumMessages(); CHECK(n >= t.lo && n <= t.hi, "tap-count", "tap %zu counts %lu messages instead of %lu", i, (ul)n, (ul)t.lo); } }
        for (size_t di = 0; di < dst.size(); ++di) { Dst & d = dst[di]; std::string all = read(d), add = all.substr(std::min(d.pos, all.size())); CHECK(all.size() >= d.pos, "output", "destination %zu lost what was written to it", di); d.pos = all.size(); uint64_t must = 0, may = 0, wrote = 0, last = 0; bool flatrun = true;
            size_t i = 0; while (i < add.size()) { size_t e = add.find('\n', i); CHECK(e != std::string::npos, "output", "destination %zu ends with the partial line '%.80s'", di, add.c_str() + i); std::string l = add.substr(i, e - i); i = e + 1; size_t h = l.find('#'); CHECK(h != std::string::npos, "output", "destination %zu holds the line '%.100s'", di, l.c_str()); uint64_t id = strtoull(l.c_str() + h + 1, nullptr, 10); ++wrote;
                auto it = lines[di].find(id); CHECK(it != lines[di].end() && it->second.may, "output", "destination %zu was written message %lu, which no tap of it observes", di, (ul)id); Line & x = it->second; ++x.n; CHECK(x.n == 1, "output", "destination %zu was written message %lu twice", di, (ul)id);
                bool same = x.suf.empty() ? l == x.pre : l.compare(0, x.pre.size(), x.pre) == 0 && l.size() >= x.pre.size() + x.suf.size() && l.compare(l.size() - x.suf.size(), std::string::npos, x.suf) == 0; CHECK(same, "format", "destination %zu (format %d) holds '%.160s' instead of '%.120s..%.100s'", di, d.fmt, l.c_str(), x.pre.c_str(), x.suf.c_str()); (void)last; (void)flatrun; }
            for (auto & p : lines[di]) { must += p.second.must; may += p.second.may; if (p.second.must && !p.second.n) { bool inner = false; for (auto & q : lines[di]) inner |= q.first > p.first && q.second.n; if (inner) c.known("message-after-nested", "message %lu was not written to destination %zu because a message its observers emitted was written there first", (ul)p.first, di); else FAIL("output", "destination %zu was not written message %lu", di, (ul)p.first); } if (p.second.n) c.probe(p.second.may > 1 ? "message through several taps to one destination" : "message to a destination"); }
            d.wrote += wrote; d.r0 = d.d->getNumMessagesReceived(); if (must == may) { d.rcv += must; CHECK(d.d->getNumMessagesReceived() == d.rcv, "destination-count", "destination %zu counts %lu messages received instead of %lu", di, (ul)d.d->getNumMessagesReceived(), (ul)d.rcv); } else d.rcv = d.d->getNumMessagesReceived(); CHECK(d.d->getNumMessagesWritten() == d.wrote && d.d->getNumMessageDuplicates() == d.d->getNumMessagesReceived() - d.wrote, "destination-count", "destination %zu counts %lu messages written, %lu duplicates; %lu were written of %lu", di, (ul)d.d->getNumMessagesWritten(), (ul)d.d->getNumMessageDuplicates(), (ul)d.wrote, (ul)d.d->getNumMessagesReceived());
            if (d.os) CHECK(d.os->fill() == ' ' && d.os->flags() == std::ios::fmtflags(std::ios::skipws | std::ios::dec), "stream-state", "writing a message changed the formatting of stream %zu", di); } }
    // ---- taps
    void attach(TapM & t, int n) { Reg r; r.ob = -1; r.node = n; r.type = MSG; r.sig = 2; r.pat = t.pat; r.priv = true; r.tap = (int)(&t - &taps[0]); for (size_t i = 0; i < taps.size(); ++i) if (&taps[i] == &t) r.tap = (int)i; regs.push_back(r); t.reg = (int)regs.size() - 1; t.node = n; change(t.reg, true); added(t.reg); }
    void detachm(TapM & t) { if (t.reg >= 0 && regs[(size_t)t.reg].active) { change(t.reg, false); regs[(size_t)t.reg].active = false; } t.reg = -1; t.node = -1; }
    void newtap(uint64_t x, uint64_t y) {
        if (taps.size() > 8 || regs.size() > 60) return; taps.emplace_back(); TapM & t = taps.back(); size_t di = (y >> 3) % (dst.size() + (dst.size() < 4)); if (di == dst.size()) opendst(y >> 7); t.dst = (int)di; Dst & d = dst[di]; t.pat = PATS[(y >> 11) % NP]; int n = pick(x, false); if ((y >> 16) % 4 == 0) n = 1; int ty; aim(x * 37 + y, n, t.pat, ty, MSG); bool later = (y >> 19) % 5 == 0; if (!fr.empty()) t.lo = t.hi = 0;
        c.log("tap '%s' at %s%s dst %zu", t.pat.c_str(), nm(n), later ? " later" : "", di); if (!later) attach(t, n);
        if (d.os) { if (later) t.t.reset(new lg::Tap(t.pat, *d.os)); else t.t.reset(new lg::Tap(es[(size_t)n].n, t.pat, *d.os)); } else { if (later) t.t.reset(new lg::Tap(t.pat, d.file)); else t.t.reset(new lg::Tap(es[(size_t)n].n, t.pat, d.file)); }
        if (!d.d) { d.d = t.t->getDestination(); } CHECK(t.t->getDestination() == d.d, "destination", "two taps of one destination got different ones"); CHECK(t.t->getCategoryName() == t.pat, "tap", "getCategoryName"); }
    void opendst(uint64_t y) {
        dst.emplace_back(); Dst & d = dst.back(); lines.resize(dst.size()); static int serial = 0;
        if (y % 2) { d.os = new std::ostringstream; /* destinations live as long as the process */ c.log("stream"); return; }
        static const char * const EXT[] = {".log", ".log.basic", ".log.raw", ".log.verbose", ".log.raw.log.raw", ".log.basic.txt"}; static const int FMT[] = {0, 1, 2, 3, 2, 0}; size_t k = (y >> 1) % 6; d.fmt = FMT[k];
        char dir[] = "/tmp/dstnXXXXXX"; if (!mkdtemp(dir)) FAIL("setup", "mkdtemp"); d.file = std::string(dir) + "/f" + std::to_string(serial++) + EXT[k]; int pre = open(d.file.c_str(), O_CREAT | O_RDWR, 0600); int nul = open("/dev/null", O_RDONLY); close(nul);
        { lg::Tap t("x", d.file); d.d = t.getDestination(); } d.fd = pre; wf.fd = nul; wf.s = y; wf.on = (y >> 5) % 2; d.pos = read(d).size(); unlink(d.file.c_str()); rmdir(dir); c.log("file %zu", k); c.probe("log file"); struct stat a, b; fstat(pre, &a); CHECK(!fstat(nul, &b) && a.st_ino == b.st_ino, "setup", "the log file has another descriptor"); }
    void tapop(uint64_t x, uint64_t y) {
        TapM & t = taps[x % taps.size()]; if (!t.t) return; uint64_t k = y % 8; int n = pick(y >> 3, false); if ((y >> 13) % 4 == 0) n = 1; std::string pt; int ty; aim(x * 41 + y, n, pt, ty, MSG); c.log("tap %zu op %lu", (size_t)(x % taps.size()), (ul)k);
        if (k < 4) { bool was = t.node >= 0; detachm(t); attach(t, n); t.t->reset(es[(size_t)n].n); c.probe(was ? "tap moved" : "tap attached"); } else if (k == 4) { detachm(t); t.t->reset(nullptr); } else if (k == 5) { detachm(t); t.t->detach(); c.probe("tap detached"); } else if (k == 6 || fr.empty()) { detachm(t); t.t.reset(); c.probe("tap destroyed"); } }
    // ---- the tree
    void addnode(uint64_t x, uint64_t y) {
        if (es.size() > 30) return; int p = -1; if (y % 5) { std::vector<int> v; for (size_t i = 0; i < es.size(); ++i) if (es[i].alive && es[i].type < 0 && i != 1 && !(fin && root((int)i) == 0)) v.push_back((int)i); if (!v.empty()) p = v[x % v.size()]; }
        es.emplace_back(); Ent & e = es.back(); std::string s = "n" + std::to_string(es.size()); e.parent = p; e.own.reset(p < 0 ? new sparta::TreeNode(s, "n") : new sparta::TreeNode(es[(size_t)p].n, s, "n")); e.n = e.own.get(); e.lvl = p < 0 ? 0 : es[(size_t)p].lvl; if ((y >> 4) % 5 == 0) { e.n->makeSubtreePrivate(); ++e.lvl; c.probe("private subtree"); } c.log("node %s", nm((int)es.size() - 1)); }
    void addsrc(uint64_t x, uint64_t y) {
        if (es.size() > 30) return; std::vector<int> v; for (size_t i = 0; i < es.size(); ++i) if (es[i].alive && es[i].type < 0 && !(fin && root((int)i) == 0)) v.push_back((int)i); int p = v[x % v.size()]; if (p == 1 && (x >> 9) % 2) return;
        es.emplace_back(); Ent & e = es.back(); e.parent = p; e.lvl = es[(size_t)p].lvl; e.type = (int)(std::min<uint64_t>(y % 4, 2)); e.name = NAMES[(y >> 3) % NN]; std::string s = "s" + std::to_string(es.size()) + (p == 1 ? "_" + std::to_string(nglobal++) : ""); sparta::TreeNode * pn = es[(size_t)p].n;
        if (e.type == TA) e.own.reset(new sparta::NotificationSource<DA>(pn, s, "s", e.name)); else if (e.type == TB) e.own.reset(new sparta::NotificationSource<DB>(pn, s, "s", e.name)); else e.own.reset(new lg::MessageSource(pn, e.name, "s"));
        e.n = e.own.get(); c.log("source %s t%d", e.name.c_str(), e.type); if (!regs.empty()) c.probe("source added after observers"); if (p == 1) c.probe("source at the global node"); }
    static int nglobal;
    void join(uint64_t x, uint64_t y) { // a detached subtree becomes part of another
        std::vector<int> v, q; for (size_t i = 3; i < es.size(); ++i) if (es[i].alive && es[i].parent < 0) v.push_back((int)i); if (v.empty()) return; int ch = v[x % v.size()]; for (size_t i = 0; i < es.size(); ++i) if (es[i].alive && es[i].type < 0 && i != 1 && !(fin && root((int)i) == 0) && !anc(ch, (int)i)) q.push_back((int)i); if (q.empty()) return; int p = q[y % q.size()];
        c.log("join %s to %s", nm(ch), nm(p)); int l = es[(size_t)p].lvl; for (size_t i = 0; i < es.size(); ++i) if (anc(ch, (int)i)) es[i].lvl += l; es[(size_t)p].n->addChild(es[(size_t)ch].n); es[(size_t)ch].parent = p; c.probe("subtree joined"); }
    void hook(uint64_t x, uint64_t y) { int s = pick(x, true); if (s < 0 || es[(size_t)s].hooks.size() > 4) return; Ent & e = es[(size_t)s]; if (y % 5 == 0) { if (!e.hooks.empty()) { e.hooks.front().cb.reset(); e.hooks.pop_front(); } return; } e.hooks.emplace_back(); Hook * h = &e.hooks.back(); h->kind = (int)((y >> 3) % 4); static const OSC K[] = {OSC::SOLE_OBSERVER_REGISTERING, OSC::SOLE_OBSERVER_DEREGISTERING, OSC::OBSERVER_REGISTERING, OSC::OBSERVER_DEREGISTERING}; size_t si = (size_t)s;
        h->cb.reset(new NSB::ObservationStateCallback(*e.s(), K[h->kind], [this, si, h](const NSB & ns, uint32_t n) { hooked(si, h, ns, n); })); c.log("hook"); }
    void fell(int r) { // a whole tree, or a detached subtree, is destroyed
        c.log("fell %d", r); c.fault("tree destroyed under its observers"); if (r == 2) other->enterTeardown(); for (size_t i = es.size(); i-- > 0;) if (es[i].alive && anc(r, (int)i)) { for (auto & g : regs) if (g.active && g.node == (int)i) g.active = false; }
        for (size_t i = es.size(); i-- > 0;) if (es[i].alive && anc(r, (int)i)) { es[i].alive = false; if (es[i].hooks.size() % 2) es[i].hooks.clear(); if (es[i].own) es[i].own.reset(); else other.reset(); } for (size_t i = 0; i < es.size(); ++i) if (!es[i].alive) es[i].n = nullptr;
        for (auto & t : taps) if (t.t && t.reg >= 0 && !regs[(size_t)t.reg].active) { CHECK(t.t->isObservedNodeExpired(), "tap", "a tap says its node is there after it was destroyed"); t.reg = -1; t.node = -1; c.probe("tap of a destroyed node"); } }
    void verify(const char * w) {
        for (size_t i = 0; i < es.size(); ++i) if (es[i].alive && es[i].type >= 0) { Ent & e = es[i]; auto v = wanted((int)i); NSB * s = e.s(); CHECK(s->getNumObservers() == v.size() && s->observed() == !v.empty(), "observers", "%s: %s (%s) counts %u observers instead of %zu (%sobserved)", w, nm((int)i), e.name.c_str(), s->getNumObservers(), v.size(), s->observed() ? "" : "not "); CHECK(s->getNumPosts() == e.posts, "posts", "%s: %s counts %lu posts instead of %lu", w, nm((int)i), (ul)s->getNumPosts(), (ul)e.posts);
            std::set<sparta::TreeNode *> a, b(s->getObservationPoints().begin(), s->getObservationPoints().end()); for (int r : v) a.insert(es[(size_t)regs[(size_t)r].node].n); CHECK(a == b && b.size() == s->getNumObservationPoints(), "observation-points", "%s: %s (%s) has %u observation points instead of %zu", w, nm((int)i), e.name.c_str(), s->getNumObservationPoints(), a.size());
            for (auto & h : e.hooks) CHECK(h.n == h.want, "state-callback", "%s: a callback of kind %d of %s was called %lu times instead of %lu", w, h.kind, nm((int)i), (ul)h.n, (ul)h.want); }
        for (auto & t : taps) if (t.t && t.node >= 0) CHECK(t.t->getObservedNode() == es[(size_t)t.node].n && !t.t->isObservedNodeExpired(), "tap", "%s: a tap at %s says it observes another node", w, nm(t.node)); }
    void doop(const Op & o) {
        uint64_t k = (uint64_t)o.arg(0), x = (uint64_t)o.arg(1), y = (uint64_t)o.arg(2);
        switch (k) {
        case 0: addnode(x, y); break; case 1: addsrc(x, y); break; case 2: join(x, y); break; case 3: newreg(x, y, false); break;
        case 4: { std::vector<int> v; for (size_t i = 0; i < regs.size(); ++i) if (regs[i].active && regs[i].tap < 0) v.push_back((int)i); if (!v.empty()) dereg(v[x % v.size()]); break; }
        case 5: { int s = pick(x, true); if (s >= 0) { script = mix64(y * 31 + x); post(s, y); } break; }
        case 6: newtap(x, y); break; case 7: if (!taps.empty()) tapop(x, y); break; case 8: hook(x, y); break;
        case 9: if (y % 3 == 0 && es[2].alive) fell(2); else { std::vector<int> v; for (size_t i = 3; i < es.size(); ++i) if (es[i].alive && es[i].parent < 0) v.push_back((int)i); if (!v.empty()) fell(v[x % v.size()]); } break;
        case 10: engine = true; if (!fin) { fin = true; rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize(); c.log("finalized"); } else { sched->run(1 + x % 50, true, false); c.log("run"); } engine = false; settledst(); break;
        case 11: if (!regs.empty() && y % 8 == 0) { Reg r = regs[x % regs.size()]; if (r.active || r.tap >= 0 || !es[(size_t)r.node].alive) break; for (auto & q : regs) if (q.active && q.ob == r.ob && q.node == r.node && q.type == r.type && q.sig == r.sig && q.pat == r.pat) return; CHECK(refused([&] { raw(r, false, false); }), "twice", "an observer that is not registered was deregistered"); c.probe("removal of an absent observer refused"); } break; } }
    // the virtual global node outlives a world
    void tidy() { for (auto & r : regs) { if (r.active && r.node == 1 && r.tap < 0) { r.active = false; Reg q = r; raw(q, false, false); } r.active = false; } }
    struct Tidy { NotiWorld & w; ~Tidy() { try { w.tidy(); } catch (...) {} } };
    void go() {
        nglobal = 0; Tidy td{*this};
        bool boom = false; std::string msg; restless = plan.c("restless") != 0;
        sched.reset(new sparta::Scheduler()); cm.reset(new sparta::ClockManager(sched.get())); rtn.reset(new sparta::RootTreeNode("dstroot")); clks.push_back(cm->makeRoot(rtn.get())); if (plan.c("clock2") > 1) clks.push_back(cm->makeClock("c1", clks[0], (uint32_t)plan.c("clock2"))); cm->normalize(); rtn->setClock(clks.back().get()); other.reset(new sparta::RootTreeNode("second"));
        es.resize(3); es[0].n = rtn.get(); es[1].n = sparta::TreeNode::getVirtualGlobalNode(); es[2].n = other.get();
        try {
            for (auto & o : plan.ops) { doop(o); verify("op"); c.probe("operations"); }
            if (fin) c.sim_time += now();
            int last = (int)plan.c("last"); if (last & 1) for (auto & t : taps) { detachm(t); t.t.reset(); } if (last & 2) for (size_t i = 0; i < regs.size(); ++i) if (regs[i].active && regs[i].tap < 0) dereg((int)i); verify("end");
            engine = true; rtn->enterTeardown(); if (other) other->enterTeardown(); for (auto & r : regs) if (r.active && r.node != 1) r.active = false; tidy(); for (size_t i = es.size(); i-- > 0;) { if (last & 4) es[i].hooks.clear(); es[i].own.reset(); } for (auto & e : es) e.hooks.clear(); other.reset(); taps.clear();
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (stored) throw *stored;
        if (wf.n) c.fault("short or interrupted write of a log file", wf.n); wf = WF();
        for (auto & d : dst) { if (d.fd >= 0) close(d.fd); }
        CHECK(!boom, "exception", "unexpected exception: %.400s", msg.c_str());
    }
};
int NotiWorld::nglobal = 0;
void gen(Rng & r, Plan & p, bool th) {
    p.cfg["restless"] = r.p(50); p.cfg["clock2"] = r.range(1, 4); p.cfg["last"] = r.range(0, 7); p.cfg["lay"] = r.range(0, 1000);
    std::vector<int> w; for (int i = 0; i < 12; ++i) w.push_back(r.p(20) ? 0 : (int)r.range(1, 6)); w[0] += 2; w[1] += 3; w[3] += 4; w[5] += 6; if (w[9] > 1) w[9] = 1; if (r.p(50)) w[10] = 0; else if (w[10] > 2) w[10] = 1;
    for (int i = 0, n = (int)r.range(15, th ? 160 : 90); i < n; ++i) p.add("o", {(int64_t)r.w(w), r.range(0, 1 << 28), r.range(0, 1 << 28)});
}
void run(const Plan & p, Ctx & c) { af::Lay lay(9 + (uint64_t)p.c("lay")); runWorld<NotiWorld>(p, c); }
Register R([] {
    Harness h; h.property = "C23"; h.technique = "deterministic simulation: seeded histories of tree growth, sources, observers, taps and posts, with observers and taps changed while a notification is delivered and with short and interrupted writes of log files, against a model of who observes what";
    h.rule = "plan = nodes and sources added to two trees and detached subtrees, registrations for names, lists and patterns, posts, taps on shared streams and files, destruction of trees; callbacks register, remove and post; non-trivial: a notification was delivered";
    h.real = "tree nodes, notification and message sources, taps, destinations, formatters, file streams of the C++ library, clocks, scheduler"; h.stub = "write() and writev() of log files may be short or interrupted"; h.measure = "hash of the event log";
    h.quick_runs = 12000; h.thorough_runs = 2000000; h.gen = gen; h.run = run; return h; }());
} // namespace
