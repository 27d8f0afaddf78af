// C25: report files of a whole simulation (sparta::app::Simulation) - started, stopped and updated by triggers, on several
// clocks - against a model that knows which counts fall between which of the report's events.
#include "world_base.hpp"
#include "alloc_fault.hpp"
#include "iofault.hpp"
#include "sparta/app/Simulation.hpp"
#include "sparta/app/SimulationConfiguration.hpp"
#include "sparta/app/ReportDescriptor.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/StartupEvent.hpp"
#include "sparta/kernel/SleeperThread.hpp"
#include "sparta/log/NotificationSource.hpp"
#include "sparta/report/Report.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unistd.h>

namespace repw {
const Tick NEVER = ~(Tick)0;
struct World;
struct Node {
    World * w; int id; std::unique_ptr<sparta::TreeNode> n; std::unique_ptr<sparta::StatisticSet> ss; std::unique_ptr<sparta::Counter> a, b, l; std::unique_ptr<sparta::StatisticDef> d; std::unique_ptr<sparta::NotificationSource<uint64_t>> ch;
    std::unique_ptr<sparta::EventSet> es; std::unique_ptr<sparta::UniqueEvent<SchedulingPhase::Tick>> ev; std::unique_ptr<sparta::StartupEvent> st; sparta::Clock * clk = nullptr; std::multimap<uint64_t, uint32_t> todo; // by cycle
    void tick(); void first();
};
struct Sim : sparta::app::Simulation {
    World * w; Sim(World * w_, sparta::Scheduler * s) : Simulation("sim", s), w(w_) {} ~Sim() { getRoot()->enterTeardown(); }
    void buildTree_() override; void configureTree_() override {} void bindTree_() override {} };
// (declared before the simulation: its nodes go after their events and triggers)
struct World : PBase {
    using PBase::PBase;
    std::vector<std::unique_ptr<Node>> nodes; std::vector<sparta::Clock::Handle> ck; std::unique_ptr<sparta::app::SimulationConfiguration> cfg; std::unique_ptr<Sim> sim; std::string dir; std::set<std::string> made;
    struct V { uint64_t a = 0, b = 0, l = 0; uint64_t get(int k) const { return k == 0 ? a : k == 1 ? b : l; } }; std::vector<V> cur; std::vector<std::vector<V>> snaps; // the counts, and copies of them
    struct Cond { bool notif = false; int ref = -1, what = 0; int node = 0, ctr = 0; uint64_t v = 0; bool met = false; };
    struct Event { bool on = false, all = true, fired = false; std::vector<Cond> c; };
    struct St { bool started = false, stopped = false; size_t base = 0, fin = 0; Tick st = 0; std::vector<std::pair<size_t, size_t>> rows; uint64_t target = 0; Tick due = NEVER; bool operator<(const St & o) const { return std::tie(started, stopped, base, fin, st, rows, target, due) < std::tie(o.started, o.stopped, o.base, o.fin, o.st, o.rows, o.target, o.due); } };
    struct Rep { int node; std::string file; };
    struct Desc { int id, loc; std::string fmt, dest; bool cumul = false, rows = false, tag = false, wild = false, cap = false; Event start, stop; int upd = 0; Cond uc; uint64_t n = 0; bool align = true; Tick per = 1; std::set<St> st; std::vector<Rep> reps; std::vector<std::string> names; };
    std::deque<Desc> ds; bool up = false, finished = false; std::vector<Op> ops;
    struct Watch { World * w; std::unique_ptr<sparta::UniqueEvent<SchedulingPhase::Update>> ev; std::unique_ptr<sparta::StartupEvent> st; void tick() { w->triggers(); ev->getScheduleable().scheduleRelativeTick(1, w->sched.get()); } } watch;
    size_t snap() { snaps.push_back(cur); return snaps.size() - 1; }
    Tick per(int n) { return (Tick)nodes[(size_t)n]->clk->getPeriod(); }
    // the effects on a report
    void start(Desc & d, St s, std::set<St> & out) { s.started = true; s.base = snap(); s.st = sched->getElapsedTicks(); arm(d, s, out); }
    void arm(Desc & d, St s, std::set<St> & out) {
        Tick t = now(); s.due = NEVER;
        if (d.upd == 1) { s.due = t + d.per * d.n; if (t % d.per) { out.insert(s); s.due = t / d.per * d.per + d.per * d.n; } }
        else if (d.upd == 2) { uint64_t v = cur[(size_t)d.uc.node].get(d.uc.ctr); s.target = d.align ? (v / d.n + 1) * d.n : v + d.n; }
        else if (d.upd == 3) s.due = t + d.n;
        out.insert(s); }
    void row(Desc & d, St & s) { if (s.stopped || !d.rows) return; size_t k = snap(); s.rows.push_back({s.base, k}); if (!d.cumul) s.base = k; }
    enum { START, STOP, UPDATE };
    void apply(Desc & d, const St & s0, int what, std::set<St> & out) {
        St s = s0;
        if (what == START) { if (!s.started) start(d, s, out); else out.insert(s); return; }
        if (!s.started) { std::set<St> o; start(d, s, o); for (auto & x : o) apply(d, x, what, out); return; }
        if (what == STOP) { if (!s.stopped) { row(d, s); s.fin = snap(); s.stopped = true; } out.insert(s); return; }
        row(d, s); if (d.upd == 1 || d.upd == 3) { arm(d, s, out); return; }
        if (d.upd == 2) { uint64_t v = cur[(size_t)d.uc.node].get(d.uc.ctr); while (s.target <= v) s.target += d.n; }
        out.insert(s); }
    bool due(Desc & d, const St & s) { return s.started && ((d.upd == 1 || d.upd == 3) ? s.due == now() : d.upd == 2 && now() % per(d.uc.node) == 0 && s.target <= cur[(size_t)d.uc.node].get(d.uc.ctr)); }
    // everything that happens to a report at one moment, in any order
    void happen(Desc & d, const std::vector<int> & ev, bool timed) {
        std::set<St> out; for (auto & s : d.st) { std::vector<int> e = ev; if (timed && due(d, s)) e.push_back(UPDATE); std::sort(e.begin(), e.end()); if (e.empty()) { out.insert(s); continue; } if (e.size() > 1) c.probe("several events of a report at once");
            do { std::set<St> x{s}; for (int k : e) { std::set<St> y; for (auto & q : x) apply(d, q, k, y); x.swap(y); } out.insert(x.begin(), x.end()); } while (std::next_permutation(e.begin(), e.end())); }
        d.st.swap(out); if (d.st.size() > 64) FAIL("model", "%zu states", d.st.size()); }
    bool fires(Event & e) { if (!e.on || e.fired) return false; bool all = true, any = false; for (auto & k : e.c) { all = all && k.met; any = any || k.met; } if (e.all ? all : any) { e.fired = true; return true; } return false; }
    bool check(Event & e, bool notif, int node, uint64_t v) { if (!e.on || e.fired) return false; for (auto & k : e.c) if (k.ref < 0 && k.notif == notif && !k.met) { if (notif ? k.node == node && k.v == v : now() % per(k.node) == 0 && cur[(size_t)k.node].get(k.ctr) >= k.v) k.met = true; } return fires(e); }
    void note(const Desc & d, int e) { static const char * n[] = {"report started by a trigger", "report stopped by a trigger", "report updated by a posting"}; c.log("t%lu d%d %d", (ul)now(), d.id, e); c.probe(n[e]); }
    // what fires now; a reference fires along with the event it refers to
    std::vector<std::vector<int>> firing(bool notif, int node, uint64_t v) {
        std::vector<std::vector<int>> e(ds.size()); for (auto & d : ds) { if (check(d.start, notif, node, v)) e[(size_t)d.id].push_back(START); if (check(d.stop, notif, node, v)) e[(size_t)d.id].push_back(STOP); }
        for (bool more = true; more;) { more = false; for (auto & d : ds) for (int q = 0; q < 2; ++q) { Event & x = q ? d.stop : d.start; if (!x.on || x.fired) continue; for (auto & k : x.c) if (k.ref >= 0 && !k.met) { Desc & o = ds[(size_t)k.ref]; if ((k.what ? o.stop : o.start).fired) { k.met = true; c.probe("reference met"); } } if (fires(x)) { e[(size_t)d.id].push_back(q ? STOP : START); more = true; } } }
        for (auto & d : ds) for (int k : e[(size_t)d.id]) note(d, k); return e; }
    void triggers() { auto e = firing(false, 0, 0); for (auto & d : ds) happen(d, e[(size_t)d.id], true); }
    void posted(int node, uint64_t v) { std::vector<bool> was; for (auto & d : ds) { bool q = false; for (auto & s : d.st) q |= s.started; was.push_back(q); } auto e = firing(true, node, v); for (auto & d : ds) { auto x = e[(size_t)d.id]; if (d.upd == 4 && was[(size_t)d.id] && d.uc.node == node && d.uc.v == v) { x.push_back(UPDATE); note(d, UPDATE); } happen(d, x, false); } }
    void doop(uint32_t i) {
        const Op & o = ops[i]; int n = (int)((uint64_t)o.arg(0) % nodes.size()); Node & k = *nodes[(size_t)n]; uint64_t x = (uint64_t)o.arg(3); V & v = cur[(size_t)n];
        switch (o.arg(2)) { case 0: *k.a += x % 5; v.a += x % 5; break; case 1: *k.b += x % 3; v.b += x % 3; break; case 2: k.l->set(x % 50); v.l = x % 50; break; case 3: { uint64_t p = x % 3; c.log("t%lu post %d %lu", (ul)now(), n, (ul)p); posted(n, p); k.ch->postNotification(p); break; } } }
    std::string loc(int n) { return "top.core" + std::to_string(n); }
    std::string cond(const Cond & k, const Desc & d, bool one = true) { static const char * cn[] = {"a", "b", "l"}; if (k.ref >= 0) return "tag" + std::to_string(k.ref) + (k.what ? ".stop" : ".start"); if (k.notif) return "notif.chan" + std::to_string(k.node) + " == " + std::to_string(k.v); return cpath(k, d, cn, one) + " >= " + std::to_string(k.v); }
    std::string cpath(const Cond & k, const Desc & d, const char ** cn, bool one = true) { std::string s = std::string("stats.") + cn[k.ctr]; bool rel = one && (d.id + k.v) % 2; if (d.loc >= 0 && d.loc == k.node && rel) return s; if (d.loc == -1 && rel) return "core" + std::to_string(k.node) + "." + s; return loc(k.node) + "." + s; }
    std::string text(const Event & e, const Desc & d) { std::string s; for (auto & k : e.c) { if (!s.empty()) s += e.all ? " && " : " || "; s += cond(k, d, e.c.size() == 1); } return s; }
    Event event(Rng & r, int n, bool always) { Event e; if (!always && r.p(45)) return e; e.on = true; int m = r.p(70) ? 1 : (int)r.range(2, 3); e.all = r.p(50); for (int i = 0; i < m; ++i) { Cond k; k.notif = r.p(25); k.node = (int)r.range(0, n - 1); k.ctr = (int)r.range(0, 1); k.v = k.notif ? (uint64_t)r.range(0, 2) : (uint64_t)r.range(1, 40); if (ds.size() > 1 && r.p(25)) { size_t o = (size_t)r.range(0, (int64_t)ds.size() - 2); bool st = r.p(60); Event & x = st ? ds[o].start : ds[o].stop; bool dup = false; for (auto & z : e.c) dup |= z.ref == (int)o && z.what == !st; if (ds[o].tag && x.on && !dup) { k.ref = (int)o; k.what = !st; } } e.c.push_back(k); } return e; }
    // a filter, and which of a, b, l and d it leaves
    std::string filter(Rng & r, int & m, int depth) {
        if (depth < 3 && r.p(depth ? 35 : 55)) { int x, z; std::string p = filter(r, x, depth + 1); if (r.p(25)) { m = 15 & ~x; return (r.p(50) ? "!(" : "not (") + p + ")"; } std::string q = filter(r, z, depth + 1); switch (r.below(3)) { case 0: m = x & z; return "(" + p + ") && (" + q + ")"; case 1: m = x | z; return "(" + p + ") || (" + q + ")"; default: m = x ^ z; return "(" + p + ") ^^ (" + q + ")"; } }
        static const struct { const char * t; int m; } F[] = {{"==vis:summary", 1}, {"!=vis:normal", 5}, {">=vis:normal", 11}, {">vis:normal", 1}, {"<vis:normal", 4}, {"<=vis:normal", 14}, {"==vis:1000000", 4}, {">vis:1000000", 11}, {"type:counter", 7}, {"!=type:counter", 8}, {"type:stat", 8}, {"==type:statistic", 8}, {"name:'a'", 1}, {"==name:'b'", 2}, {"!=name: 'l'", 11}, {"regex name:'[ab]'", 3}, {"regex name:'[bdl]'", 14}, {"true", 15}, {"false", 0}}; auto & e = F[r.below(sizeof F / sizeof *F)]; m = e.m; return e.t; }
    void yaml(const std::string & f, int node, bool top, bool sub, int nest, int wild, Desc & d, int shape, int64_t autop) {
        std::ofstream y(f); made.insert(f); auto one = [&](const std::string & ind, int n, const std::string & pre) { y << ind << "stats:\n"; static const char * cn[] = {"a", "b", "l", "d"}; for (int q = 0; q < 4; ++q) if ((shape >> q) & 1 || q == 0) { std::string nm = "N" + std::to_string(n) + cn[q]; y << ind << "  " << cn[q] << ": " << nm << "\n"; d.names.push_back(pre + nm); } };
        std::string ind; d.names.clear();
        if (autop && d.rows) { // all that can be counted below the place, or what a filter leaves of it
            Rng r((uint64_t)autop); int m = 15; std::string f; if (r.p(65)) { f = filter(r, m, 0); if (!m) { m = 15; f = ""; } } int deep = r.p(60) ? -1 : (int)r.range(0, 3); bool own = r.p(40) || (deep >= 0 && deep < (top ? 2 : 1)), last = r.p(50); d.wild = true; c.probe("everything below is reported"); if (!f.empty()) c.probe("statistics chosen by a filter"); if (c.trace) printf("  d%d filter %s, depth %d\n", d.id, f.c_str(), deep);
            auto all = [&] { if (deep < 0 && r.p(50)) y << "  autopopulate: \"" << f << "\"\n"; else { y << "  autopopulate:\n    attributes: \"" << f << "\"\n"; if (deep >= 0) y << "    max_recursion_depth: " << deep << "\n"; } }; auto mine = [&] { if (!own) return; if (top) for (size_t n = 0; n < nodes_n; ++n) { y << "  core" << n << ":\n"; one("    ", (int)n, ""); } else one("  ", node, ""); };
            y << "content:\n"; if (last) mine(); all(); if (!last) mine(); if (deep >= 0 && deep < (top ? 2 : 1)) c.probe("nothing is within the depth"); else for (size_t n = 0; n < (top ? nodes_n : 1); ++n) for (int q = 0; q < 4; ++q) if (m >> q & 1) d.names.push_back((top ? loc((int)n) + "." : "") + "abld"[q]); }
        else if (top && sub && nest) { // sections within sections, some with no statistics of their own
            y << "content:\n"; for (size_t n = 0; n < nodes_n; ++n) { std::string N = std::to_string(n), ind = "    "; y << "  core" << n << ":\n"; int deep = 1 + ((nest >> n) & 1) + ((nest >> (n + 2)) & 1); bool any = false; for (int k = 0; k < deep; ++k) { std::string nm = std::string(1, (char)('G' + k)) + N; y << ind << "subreport:\n" << ind << "  name: " << nm << "\n" << ind << "  content:\n"; ind += "    "; bool own = (k + 1 == deep && !any) || (nest >> (4 + (n * 3 + (size_t)k) % 8)) & 1; any |= own; if (own) one(ind, (int)n, nm + "."); else c.probe(k + 1 == deep ? "an empty section" : "a section with nothing but sections"); if (k + 1 == deep && !own) y << ind << "stats:\n"; } } }
        else if (wild && !(top && sub)) { // names made of what the wildcards stood for, the most recent first
            d.wild = true; y << "content:\n"; std::string ind = "  ", W = "\"?\"", num = wild & 8 && (!top || (wild & 6) == 0) ? "%-1" : "%2"; bool two = wild & 1; c.probe("statistics named after wildcards");
            if (top) { static const char * P[] = {"core*", "c?re*", "c*e+", "*re*"}; int q = wild >> 1 & 3; std::string key = P[q]; if (wild & 16) { y << "  \"" << key << ".stats.?\": N" << num << "%1\n"; two = true; c.probe("several wildcards in one path"); } else { y << "  \"" << key << "\":\n    stats:\n"; ind = "      "; } if (q) c.probe("several wildcards in one step");
                if (!(wild & 16)) { if (two) y << ind << W << ": N" << num << "%1\n"; else y << ind << "a: N%1a\n"; } for (size_t n = 0; n < nodes_n; ++n) for (const char * q2 : {"a", "b", "l", "d"}) if (two || *q2 == 'a') d.names.push_back("N" + std::to_string(n) + q2); }
            else { y << "  stats:\n"; d.cap = d.loc == -2 && (wild & 2); y << "    " << W << ": N" << (d.cap ? num : std::to_string(node)) << "%1\n"; for (const char * q2 : {"a", "b", "l", "d"}) d.names.push_back("N" + std::to_string(node) + q2); } }
        else if (top) { if (sub) { y << "content:\n"; for (size_t n = 0; n < nodes_n; ++n) { std::string s = "S" + std::to_string(n); y << "  core" << n << ":\n    subreport:\n      name: " << s << "\n      style:\n        decimal_places: 2\n      content:\n"; one("        ", (int)n, s + "."); } } else { y << "content:\n"; for (size_t n = 0; n < nodes_n; ++n) { y << "  core" << n << ":\n"; one("    ", (int)n, ""); } } }
        else { y << "content:\n"; one("  ", node, ""); } }
    size_t nodes_n = 1;
    void descriptor(const Op & o, sparta::app::ReportDescVec & v) {
        ds.emplace_back(); Desc & d = ds.back(); d.id = (int)ds.size() - 1; Rng r((uint64_t)o.arg(1)); int nn = (int)nodes_n; d.loc = o.arg(0) % 4 == 0 ? -2 : o.arg(0) % 4 == 1 ? -1 : (int)r.range(0, nn - 1); // -2: every core, -1: the top
        static const char * F[] = {"csv", "csv_cumulative", "txt", "json", "json_reduced", "html", "python", "js_json"}; d.fmt = F[r.p(50) ? 0 : r.range(1, 7)]; d.rows = d.fmt.substr(0, 3) == "csv"; d.cumul = d.fmt == "csv_cumulative";
        d.tag = r.p(50); d.start = event(r, nn, false); d.stop = event(r, nn, false); d.upd = r.p(25) ? 0 : (int)r.range(1, 4); d.align = r.p(60); d.uc.node = (int)r.range(0, nn - 1); d.uc.ctr = (int)r.range(0, 1); d.uc.notif = true; d.n = (uint64_t)(d.upd == 3 ? r.range(3, 60) : r.range(1, 15)); if (d.upd == 4) d.uc.v = (uint64_t)r.range(0, 2);
        std::string id = std::to_string(d.id), y = dir + "/d" + id + ".yaml"; d.dest = dir + "/o" + id + (d.loc == -2 ? "_%l" : "") + ".rep"; int shape = (int)r.range(0, 15); bool sub = r.p(40); int nest = r.p(60) ? (int)r.range(1, 4095) : 0, wild = r.p(35) ? (int)r.range(1, 63) : 0; int64_t autop = r.p(30) ? r.range(1, 1 << 20) : 0;
        yaml(y, d.loc < 0 ? 0 : d.loc, d.loc == -1, sub, nest, wild, d, shape, autop);
        if (d.loc == -2) for (int n = 0; n < nn; ++n) d.reps.push_back({n, dir + "/o" + id + "_" + loc(n) + ".rep"}); else d.reps.push_back({d.loc, d.dest}); for (auto & q : d.reps) made.insert(q.file);
        v.emplace_back(d.loc == -2 ? "top.core*" : d.loc == -1 ? "top" : loc(d.loc), y, d.dest, d.fmt); std::unordered_map<std::string, std::string> kv; if (d.start.on) kv["start"] = text(d.start, d); if (d.stop.on) kv["stop"] = text(d.stop, d); static const char * cn[] = {"a", "b"};
        if (d.upd == 1) kv["update-cycles"] = std::to_string(d.n); if (d.upd == 2) { Cond k = d.uc; k.v = d.n; kv["update-count"] = cpath(k, d, cn) + " " + std::to_string(d.n) + (d.align ? d.n % 2 ? "" : " align" : " noalign"); } if (d.upd == 3) { char b[40]; snprintf(b, sizeof b, d.n % 2 ? "%lu ps" : "%lu.0 ps", (ul)d.n); kv["update-time"] = b; } if (d.upd == 4) kv["update-whenever"] = cond(d.uc, d);
        if (d.tag) kv["tag"] = "tag" + id; if (!kv.empty()) v.back().extensions_["trigger"] = kv; if (c.trace) for (auto & q : kv) printf("  d%d %s %s %s: %s\n", d.id, v.back().loc_pattern.c_str(), d.fmt.c_str(), q.first.c_str(), q.second.c_str()); }
    double value(int n, int q, const std::vector<V> & a, const std::vector<V> & b) { const V & x = a[(size_t)n], & y = b[(size_t)n]; return q == 0 ? (double)(y.a - x.a) : q == 1 ? (double)(y.b - x.b) : q == 2 ? (double)y.l : (double)(y.a - x.a) + 2 * (double)(y.b - x.b); }
    double stat(const Rep & r, const std::string & name, const std::pair<size_t, size_t> & k) { size_t p = name.rfind('N'); int n = r.node >= 0 ? r.node : p != std::string::npos ? name[p + 1] - '0' : name[name.find("core") + 4] - '0'; char q = name.back(); return value(n, q == 'a' ? 0 : q == 'b' ? 1 : q == 'l' ? 2 : 3, snaps[k.first], snaps[k.second]); }
    std::string num(double v) { return std::to_string((uint64_t)v); }
    void verify(Desc & d) {
        for (size_t ri = 0; ri < d.reps.size(); ++ri) { Rep & r = d.reps[ri]; std::ifstream f(r.file); CHECK(f.is_open(), "file", "report %d: there is no file", d.id); std::string l, all; std::vector<std::string> head, rows; std::vector<std::string> meta; while (std::getline(f, l)) { all += l + "\n"; if (!l.empty() && l[0] == '#') { meta.push_back(l); continue; } if (head.empty()) { std::stringstream s(l); std::string x; while (std::getline(s, x, ',')) head.push_back(x); } else rows.push_back(l); }
            auto names = d.names; if (d.cap) for (auto & x : d.names) x[1] = (char)('0' + r.node); if (d.wild && d.rows) { auto a = head, b = d.names; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a == b) d.names = head; } // in which order the nodes match is not specified
            std::string why; bool ok = false; for (auto & s : d.st) { std::string w = d.rows ? table(d, r, s, meta, head, rows) : values(d, r, s, all); if (w.empty()) { ok = true; break; } if (why.empty()) why = w; }
            if (d.rows) for (auto & q : rows) c.log("%s", q.c_str()); CHECK(ok, d.rows ? "rows" : "values", "report %d (%s%s%s%s): %.500s", d.id, d.fmt.c_str(), d.start.on ? ", start" : "", d.stop.on ? ", stop" : "", d.upd ? ", update" : "", why.c_str()); c.nontrivial = true; if (d.rows) c.probe("rows checked", rows.size()); else c.probe((d.fmt + " report checked").c_str()); d.names = names; } }
    std::string table(Desc & d, Rep & r, const St & s, std::vector<std::string> & meta, std::vector<std::string> & head, std::vector<std::string> & rows) {
        if (head != d.names) { std::string h; for (auto & x : head) h += x + ","; return "the header is " + h; }
        if (meta.empty() || meta[0].find(",start=" + std::to_string(s.st) + ",") == std::string::npos) return "started at " + std::to_string(s.st) + " and the header says " + (meta.empty() ? "" : meta[0]);
        for (size_t i = 0; i < std::max(rows.size(), s.rows.size()); ++i) { std::string w; if (i < s.rows.size()) for (auto & n : d.names) w += (w.empty() ? "" : ",") + num(stat(r, n, s.rows[i])); std::string g = i < rows.size() ? rows[i] : "(missing)"; if (i >= s.rows.size()) w = "(nothing)"; if (w != g) return "row " + std::to_string(i) + " of " + std::to_string(rows.size()) + " is " + g + " instead of " + w; }
        return ""; }
    std::string values(Desc & d, Rep & r, const St & s, const std::string & all) {
        std::pair<size_t, size_t> k{s.base, s.fin}; if (!s.stopped) k.second = s.fin;
        for (auto & nm : d.names) { std::string n = nm.substr(nm.rfind('N')); size_t p = 0, found = 0; std::string got; bool right = false; double want = stat(r, n, k);
            while ((p = all.find(n, p)) != std::string::npos) { p += n.size(); if (isalnum((unsigned char)all[p])) continue; ++found; size_t q = p; if (d.fmt == "json") { q = all.find("\"val\"", p); if (q == std::string::npos) break; q += 5; } while (q < all.size() && !isdigit((unsigned char)all[q]) && all.compare(q, 3, "nan")) { if (d.fmt == "html" && all[q] == '<') { q = all.find('>', q); if (q == std::string::npos) break; } ++q; } if (q >= all.size()) break; size_t e = q; while (e < all.size() && (isalnum((unsigned char)all[e]) || all[e] == '.')) ++e; got = all.substr(q, e - q); if (atof(got.c_str()) == want && got != "nan") right = true; if (d.fmt == "json" || right) break; }
            if (!found) return n + " is not in the file"; if (!right) return n + " is " + got + " instead of " + num(want); }
        return ""; }
    void go() {
        std::ostringstream sink; struct Quiet { std::streambuf * a, * b; Quiet(std::streambuf * s) { a = std::cout.rdbuf(s); b = std::cerr.rdbuf(s); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } } quiet(sink.rdbuf());
        char d_[] = "/tmp/dstrXXXXXX"; CHECK(mkdtemp(d_), "setup", "mkdtemp"); dir = d_; struct Rm { World & w; ~Rm() { iof::wf = iof::WF(); w.sim.reset(); for (auto & f : w.made) unlink(f.c_str()); rmdir(w.dir.c_str()); } } rm{*this};
        bool boom = false, full = false; std::string msg; iof::wf = iof::WF(); iof::wf.fd = -2; iof::wf.s = (uint64_t)plan.c("io"); watch.w = this;
        static const bool asleep = (sparta::SleeperThread::disableForever(), true); (void)asleep; sched.reset(new sparta::Scheduler()); cfg.reset(new sparta::app::SimulationConfiguration()); cfg->scheduler_exacting_run = true; cfg->scheduler_measure_run_time = false; cfg->auto_summary_state = sparta::app::SimulationConfiguration::AutoSummaryState::AUTO_SUMMARY_OFF;
        nodes_n = (size_t)plan.c("n", 1); sparta::app::ReportDescVec v; for (auto & o : plan.ops) if (o.k == "d") descriptor(o, v); cfg->reports = v; sim.reset(new Sim(this, sched.get())); ops = plan.ops; cur.resize(nodes_n);
        try {
            sim->configure(0, nullptr, cfg.get()); sim->buildTree(); sim->configureTree(); sim->finalizeTree();
            for (size_t i = 0; i < ops.size(); ++i) if (ops[i].k == "o") nodes[(size_t)((uint64_t)ops[i].arg(0) % nodes_n)]->todo.insert({(uint64_t)ops[i].arg(1), (uint32_t)i});
            iof::wf.on = iof::wf.s % 2; sim->finalizeFramework();
            for (auto & d : ds) { d.per = d.loc >= 0 ? per(d.loc) : d.loc == -1 ? (Tick)sim->getRoot()->getClock()->getPeriod() : (Tick)sim->getRootClock()->getPeriod(); if (!d.start.on) { St s; std::set<St> o; start(d, s, o); d.st.swap(o); } else d.st.insert(St()); }
            for (auto & o : plan.ops) if (o.k == "r") { Tick n = now(); sim->runRaw((uint64_t)o.arg(0)); CHECK(now() == n + (Tick)o.arg(0), "tick", "a run of %lu ticks went from %lu to %lu", (ul)o.arg(0), (ul)n, (ul)now()); c.sim_time += (uint64_t)o.arg(0); }
            if (plan.c("full")) { iof::wf.full = true; full = true; c.fault("disk full"); }
            sim->run((uint64_t)plan.c("last", 1));
        } catch (Violation &) { boom = true; msg = "violation"; } catch (std::exception & e) { boom = true; msg = e.what(); }
        iof::wf.on = false; iof::wf.full = false; if (iof::wf.n) c.fault("short or interrupted write", iof::wf.n); if (stored) throw *stored;
        if (full && boom) { c.probe("full disk noticed"); c.nontrivial = true; return; }
        CHECK(!boom, "exception", "unexpected exception: %.500s", msg.c_str());
        for (auto & d : ds) { std::set<St> out; for (auto s : d.st) { std::set<St> o; if (!s.started) { start(d, s, o); c.probe("report never started"); } else o.insert(s); for (auto x : o) { row(d, x); if (!x.stopped) x.fin = snap(); out.insert(x); } } d.st.swap(out); }
        for (auto & d : ds) verify(d);
    }
};
void Node::first() { ev->schedule(1); }
void Node::tick() { uint64_t cy = clk->currentCycle(); for (auto it = todo.begin(); it != todo.end() && it->first <= cy; it = todo.erase(it)) w->doop(it->second); ev->schedule(1); }
void Sim::buildTree_() {
    for (size_t i = 0; i < w->nodes_n; ++i) { w->nodes.emplace_back(new Node); Node & n = *w->nodes.back(); n.w = w; n.id = (int)i; std::string q = std::to_string(i); w->ck.push_back(getClockManager().makeClock("ck" + q, getClockManager().getRoot(), (uint32_t)w->plan.c(("num" + q).c_str(), 1), (uint32_t)w->plan.c(("den" + q).c_str(), 1))); n.clk = w->ck.back().get();
        n.n.reset(new sparta::TreeNode(getRoot(), "core" + q, "core", i, "a core")); n.n->setClock(n.clk); n.ss.reset(new sparta::StatisticSet(n.n.get())); auto N = sparta::Counter::COUNT_NORMAL; n.a.reset(new sparta::Counter(n.ss.get(), "a", "a", N, sparta::InstrumentationNode::VIS_SUMMARY)); n.b.reset(new sparta::Counter(n.ss.get(), "b", "b", N)); n.l.reset(new sparta::Counter(n.ss.get(), "l", "l", sparta::Counter::COUNT_LATEST, sparta::InstrumentationNode::VIS_SUPPORT)); n.d.reset(new sparta::StatisticDef(n.ss.get(), "d", "d", n.ss.get(), "a+2*b"));
        n.ch.reset(new sparta::NotificationSource<uint64_t>(n.n.get(), "chan" + q, "a channel", "chan" + q)); n.es.reset(new sparta::EventSet(n.n.get())); Node * np = &n; n.ev.reset(new sparta::UniqueEvent<SchedulingPhase::Tick>(n.es.get(), "ev", CREATE_SPARTA_HANDLER_WITH_OBJ(Node, np, tick))); n.st.reset(new sparta::StartupEvent(n.es.get(), CREATE_SPARTA_HANDLER_WITH_OBJ(Node, np, first))); }
    World::Watch * wp = &w->watch; w->watch.ev.reset(new sparta::UniqueEvent<SchedulingPhase::Update>(w->nodes[0]->es.get(), "watch", CREATE_SPARTA_HANDLER_WITH_OBJ(World::Watch, wp, tick)));
    w->watch.st.reset(new sparta::StartupEvent(w->nodes[0]->es.get(), CREATE_SPARTA_HANDLER_WITH_OBJ(World::Watch, wp, tick)));
}
void gen(Rng & r, Plan & p, bool th) {
    int n = (int)r.range(1, 3); p.cfg["n"] = n; p.cfg["io"] = r.range(1, 1 << 20); for (int i = 0; i < n; ++i) { std::string q = std::to_string(i); p.cfg["num" + q] = r.p(30) ? 1 : r.range(1, 5); p.cfg["den" + q] = r.p(60) ? 1 : r.range(1, 3); } if (r.p(4)) p.cfg["full"] = 1; p.cfg["last"] = r.range(1, 40);
    for (int i = 0, m = (int)r.range(1, th ? 5 : 3); i < m; ++i) p.add("d", {r.range(0, 7), r.range(1, 1 << 28)});
    int T = 0; for (int i = 0, m = (int)r.range(0, 4); i < m; ++i) { int k = (int)r.range(1, 80); T += k; p.add("r", {k}); } T += (int)p.c("last");
    std::vector<int> w{(int)r.range(2, 8), (int)r.range(1, 8), (int)r.range(0, 4), (int)r.range(0, 4)}; for (int i = 0, m = (int)r.range(4, th ? 120 : 60); i < m; ++i) p.add("o", {r.range(0, n - 1), r.range(0, T), (int64_t)r.w(w), r.range(0, 1 << 20)});
}
void run(const Plan & p, Ctx & c) { af::Lay lay(11 + (uint64_t)p.c("io")); runWorld<World>(p, c); }
Register R([] {
    Harness h; h.property = "C25"; h.technique = "deterministic simulation: seeded simulations with reports that are started, stopped and updated by counters, cycles, times and postings on several clocks, with short, interrupted and refused writes, the files compared with a model of the counts between the report's events";
    h.rule = "plan = 1-3 cores on clocks of their own, 1-5 reports of any format at a core, at every core or at the top, a history of counts and postings over several runs; non-trivial: a report file was compared, or a full disk was noticed";
    h.real = "sparta::app::Simulation, report repository, descriptors, definitions, formatters and triggers, statistic instances, scheduler, clocks, file streams of the C++ library"; h.stub = "write() and writev() may be short, interrupted or refused; the watchdog thread is disabled"; h.measure = "hash of the event log";
    h.quick_runs = 10000; h.thorough_runs = 1000000; h.gen = gen; h.run = run; return h; }());
} // namespace
