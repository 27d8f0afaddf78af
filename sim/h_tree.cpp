// C28: the device tree. Seeded histories of constructing, attaching, orphaning and destroying nodes, of moving the tree through its
// phases with hooks that refuse, throw and grow the tree, and of looking nodes up, against a model of the tree.
#include "world_base.hpp"
#include "sparta/simulation/TreeNode.hpp"
#include "sparta/simulation/TreeNodePrivateAttorney.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/simulation/GlobalTreeNode.hpp"
#include "sparta/simulation/Resource.hpp"
#include "sparta/simulation/Clock.hpp"
#include "sparta/log/NotificationSource.hpp"
#include "sparta/log/MessageSource.hpp"
#include <iostream>
#include <sstream>

namespace treew {
typedef sparta::TreeNode TN;
const uint32_t NOIDX = (uint32_t)-1;
enum { BUILD, CONF, FINING, FIN, TEAR };
struct World;
struct Tn;
struct Res : sparta::Resource { World * w; int id; Res(TN * n, World * w_, int i) : sparta::Resource(n), w(w_), id(i) {}
    void simulationTerminating_() override; void validatePostRun_(const sparta::PostRunValidationInfo &) const override; void dumpDebugContent_(std::ostream & o) const override; void onStartingTeardown_() override; void onBindTreeEarly_() override; void onBindTreeLate_() override; };
struct Tn : TN { World * w; int id; std::unique_ptr<Res> res;
    Tn(World * w_, int id_, TN * p, const std::string & n, const std::string & g, uint32_t i, const std::string & d, bool bad) : TN(p, n, g, i, d), w(w_), id(id_) { if (bad) throw sparta::SpartaException("constructor of a derived node refuses"); }
    ~Tn() { res.reset(); }
    void onAddingChild_(TN * c) override; void onSettingParent_(const TN * p) const override; void onAddedAsChild_() noexcept override; void onDescendentSubtreeAdded_(TN * d) noexcept override; void onDestroyingParent_() noexcept override; void onDestroyingChild_(TN * c) noexcept override;
    void onConfiguring_() override; void onBindTreeEarly_() override; void onBindTreeLate_() override; void onEnteringTeardown_() noexcept override; void createResource_() override; void validateNode_() const override; };
enum Ev { SP, AC, AAC, DSA, DP, DC, CF, BE, BL, ET, CR, VN, RST, RVP, RDD, RET, RBE, RBL, NOTI };
const char * const evn[] = {"onSettingParent_", "onAddingChild_", "onAddedAsChild_", "onDescendentSubtreeAdded_", "onDestroyingParent_", "onDestroyingChild_", "onConfiguring_", "onBindTreeEarly_", "onBindTreeLate_", "onEnteringTeardown_", "createResource_", "validateNode_", "Resource::simulationTerminating_", "Resource::validatePostRun_", "Resource::dumpDebugContent_", "Resource::onStartingTeardown_", "Resource::onBindTreeEarly_", "Resource::onBindTreeLate_", "descendant_attached"};
struct E { int k, a, b; bool operator==(const E & o) const { return k == o.k && a == o.a && b == o.b; } };
const char * const names[] = {"a", "b", "c", "ab", "abc", "core0", "core1", "ba"}; const char * const groups[] = {"core", "a", "grp"}; const char * const tags[] = {"t0", "t1", "t2"};
const char * const badnames[] = {"9x", "a b", "__a", "a__", "a__b", "a__b__"};
struct World : PBase {
    using PBase::PBase;
    struct N { std::unique_ptr<Tn> own; TN * p = nullptr; bool alive = true, foreign = false; std::string name, group; uint32_t idx = NOIDX; std::vector<std::string> aliases, tags; int parent = -1; std::vector<int> kids; int phase = BUILD, clk = -1, work = -1; uint32_t priv = 0; bool attached = false; const std::string * dummy = nullptr; std::string ploc; bool hasloc = false, res = false; std::weak_ptr<TN> weak;
        int grow = 0, growto = 0, thr = -1; }; // grow: what createResource_ adds; thr: the hook that throws
    std::deque<N> ns; std::vector<E> exp, got; std::map<const TN *, int> ids; int pending = -1; bool busy = false; size_t base = 0; std::vector<std::pair<int, std::string>> tagged; // in the order of tagging
    struct Grow { int host, kind, id, to; }; std::deque<Grow> grows;
    int idof(const TN * t) { auto i = ids.find(t); return i == ids.end() ? pending : i->second; }
    void ev(int k, int a, int b = -9) { got.push_back(E{k, a, b}); c.log("%s %d %d", evn[k], a, b); }
    bool thrower(int k, int id) { return id >= 0 && id < (int)ns.size() && ns[(size_t)id].thr == k; }
    void boom(int k, int id) { if (thrower(k, id)) { c.fault("hook threw"); throw sparta::SpartaException("a hook of the model refuses"); } }
    void attached(const TN & t) { ev(NOTI, 0, idof(&t)); }
    // ---- the model
    std::string loc(int n) { N & x = ns[(size_t)n]; if (x.parent >= 0) return loc(x.parent) + "." + x.name; if (x.hasloc) return x.ploc + "." + x.name; return (x.attached ? "" : "~") + x.name; }
    std::vector<std::string> idents(const N & x) { std::vector<std::string> r; if (!x.name.empty()) r.push_back(x.name); for (auto & a : x.aliases) r.push_back(a); return r; }
    std::vector<std::string> keys(const N & x) { auto r = idents(x); if (!x.group.empty()) r.push_back(x.group + std::to_string(x.idx)); return r; }
    template<class F> void pre(int n, F && f) { f(n); for (size_t i = 0; i < ns[(size_t)n].kids.size(); ++i) pre(ns[(size_t)n].kids[i], f); }
    bool under(int n, int a, int depth = -1) { for (; n >= 0; n = ns[(size_t)n].parent) { if (n == a) return true; if (depth == 0) return false; --depth; } return false; }
    // why attaching is refused (an empty string if it is not)
    std::string no(int p, const N & ch, int cid) {
        N & P = ns[(size_t)p]; if (P.phase == FIN) return "finalized"; if (p == cid) return "itself"; if (cid >= 0 && under(p, cid)) return "cycle"; if (cid >= 0 && ch.parent >= 0) return ch.parent == p ? "already a child" : "has a parent"; if (ch.phase > P.phase) return "phase";
        for (int k : P.kids) { N & x = ns[(size_t)k]; if (x.group == ch.group && x.idx != NOIDX && x.idx == ch.idx) return "index taken"; for (auto & e : keys(x)) for (auto & i : idents(ch)) if (e == i) return "name taken"; } return ""; }
    void mattach(int p, int n, bool inherit, bool ctor) {
        N & P = ns[(size_t)p], & x = ns[(size_t)n]; if (!ctor) { exp.push_back({SP, n, p}); if (thrower(SP, n)) return; } if (!P.foreign) { exp.push_back({AC, p, n}); if (thrower(AC, p)) return; }
        P.kids.push_back(n); pre(n, [&](int k) { ns[(size_t)k].priv += P.priv; }); if (inherit) x.phase = P.phase; x.parent = p;
        pre(n, [&](int k) { if (!(ctor && k == n)) exp.push_back({AAC, k, -9}); for (int q = k; q >= 0; q = ns[(size_t)q].parent) if (ns[(size_t)q].attached) { ns[(size_t)k].attached = true; break; } });
        for (int q = p; q >= 0; q = ns[(size_t)q].parent) { if (q == 0) pre(n, [&](int k) { exp.push_back({NOTI, 0, k}); }); else exp.push_back({DSA, q, n}); } }
    bool mfin(int n) { // false: a hook threw
        if (ns[(size_t)n].phase < FINING) pre(n, [&](int k) { ns[(size_t)k].phase = FINING; });
        { N & x = ns[(size_t)n]; x.work = -1; for (int q = n; q >= 0; q = ns[(size_t)q].parent) if (ns[(size_t)q].clk >= 0) { x.work = ns[(size_t)q].clk; break; } }
        if (!ns[(size_t)n].foreign) { exp.push_back({CR, n, -9}); if (thrower(CR, n)) return false; int g = ns[(size_t)n].grow; if (g & 1) ns[(size_t)n].res = true;
            int to = n; for (int h = ns[(size_t)n].growto; h > 0 && ns[(size_t)to].parent >= 0; --h) to = ns[(size_t)to].parent; if (thrower(AC, to)) g = 0;
            for (int q = 0, e = g >> 1 & 3; q < e; ++q) { int id = (int)ns.size(); if (id > 60) break; N x; x.name = "g" + std::to_string(id); x.grow = g >> 3; x.growto = q; ns.push_back(std::move(x)); grows.push_back({n, 0, id, to}); mattach(to, id, true, true); }
            if (g & 64) for (int d = 1; d < (int)ns.size(); ++d) { N & x = ns[(size_t)d]; if (x.alive && !x.foreign && x.parent < 0 && x.thr < 0 && !x.attached && x.phase == BUILD && no(to, x, d).empty() && !ns[(size_t)to].foreign && ns[(size_t)to].thr < 0) { grows.push_back({n, 1, d, to}); mattach(to, d, true, false); break; } } }
        for (size_t i = 0; i < ns[(size_t)n].kids.size(); ++i) if (!mfin(ns[(size_t)n].kids[i])) return false; return true; }
    bool walk(int n, int nodehook, int reshook) { // hooks of the node, then of its resource, then of the children; false: one threw
        N & x = ns[(size_t)n]; if (!x.foreign) { if (nodehook >= 0) { exp.push_back({nodehook, n, -9}); if (thrower(nodehook, n)) return false; } if (x.res && reshook >= 0) { exp.push_back({reshook, n, -9}); if (thrower(reshook, n)) return false; } }
        for (int k : x.kids) if (!walk(k, nodehook, reshook)) return false; return true; }
    int clkof(int n) { if (ns[(size_t)n].phase == FIN) return ns[(size_t)n].work; for (; n >= 0; n = ns[(size_t)n].parent) if (ns[(size_t)n].clk >= 0) return ns[(size_t)n].clk; return -1; }
    // ---- what hooks of real nodes do
    void growReal(int host) { while (!grows.empty() && grows.front().host == host) { Grow g = grows.front(); grows.pop_front(); TN * to = ns[(size_t)g.to].p; if (g.kind == 0) make(g.id, to, false); else to->addChild(ns[(size_t)g.id].p); c.probe(g.kind ? "subtree attached during finalization" : "node constructed during finalization"); } }
    void make(int id, TN * parent, bool bad) {
        N & x = ns[(size_t)id]; int op = pending; pending = id; struct P { World * w; int o; ~P() { w->pending = o; } } g{this, op};
        x.own.reset(new Tn(this, id, parent, x.name, x.group, x.idx, "node", bad)); x.p = x.own.get(); ids[x.p] = id; x.weak = x.p->getWeakPtr(); }
    void events(const char * what) {
        size_t n = std::min(exp.size(), got.size()); for (size_t i = 0; i < n; ++i) if (!(exp[i] == got[i])) FAIL("hooks", "%s: hook %zu was %s(node %d, %d) instead of %s(node %d, %d)", what, i, evn[got[i].k], got[i].a, got[i].b, evn[exp[i].k], exp[i].a, exp[i].b);
        if (exp.size() > n) FAIL("hooks", "%s: %s(node %d, %d) was never called", what, evn[exp[n].k], exp[n].a, exp[n].b); if (got.size() > n) FAIL("hooks", "%s: %s(node %d, %d) was called though it should not be", what, evn[got[n].k], got[n].a, got[n].b); exp.clear(); got.clear(); }
    // ---- checks
    std::vector<int> visible(int n) { std::vector<int> r; for (int k : ns[(size_t)n].kids) if (ns[(size_t)k].priv == ns[(size_t)n].priv) r.push_back(k); return r; }
    void look() {
        size_t live = 0; for (size_t i = 0; i < ns.size(); ++i) { N & x = ns[i]; if (!x.alive) { if (!x.foreign && x.p) CHECK(x.weak.expired(), "weak", "a weak pointer to the destroyed node %zu is still alive", i); continue; } ++live; int n = (int)i; const char * nm = x.name.c_str(); CHECK(x.foreign || x.weak.lock().get() == x.p, "weak", "the weak pointer to node %zu expired", i); CHECK(TN::isNodeConstructed(x.p), "known", "node %zu is not among the constructed nodes", i);
            CHECK(x.p->getName() == x.name && x.p->getGroup() == x.group && x.p->getGroupIdx() == x.idx, "identity", "node %zu has a different name, group or index", i); CHECK((x.parent < 0 ? x.p->getParent() == nullptr : x.p->getParent() == ns[(size_t)x.parent].p), "parent", "node %zu (%s) has the wrong parent", i, nm);
            auto & all = sparta::TreeNodePrivateAttorney::getAllChildren(x.p); CHECK(all.size() == x.kids.size(), "children", "node %zu (%s) has %zu children instead of %zu", i, nm, all.size(), x.kids.size()); for (size_t k = 0; k < all.size(); ++k) CHECK(all[k] == ns[(size_t)x.kids[k]].p, "children", "child %zu of node %zu (%s) is a different one", k, i, nm);
            auto v = visible(n); auto r = x.p->getChildren(); CHECK(r.size() == v.size() && x.p->getNumChildren() == v.size(), "children", "node %zu (%s) shows %zu children instead of %zu", i, nm, r.size(), v.size()); for (size_t k = 0; k < r.size(); ++k) CHECK(r[k] == ns[(size_t)v[k]].p && x.p->getChildAt((uint32_t)k) == r[k], "children", "visible child %zu of node %zu (%s) is a different one", k, i, nm);
            CHECK((int)x.p->getPhase() == x.phase, "phase", "node %zu (%s) is in phase %d instead of %d", i, nm, (int)x.p->getPhase(), x.phase); std::string l = loc(n), gl = x.p->getLocation(); if (!rtn && gl[0] == '~' && l[0] != '~') gl.erase(0, 1); /* what the root is called while it is destroyed is not specified */ CHECK(gl == l, "location", "node %zu says it is at '%s' instead of '%s'", i, x.p->getLocation().c_str(), l.c_str());
            int root = n; uint32_t lev = 0; while (ns[(size_t)root].parent >= 0) { root = ns[(size_t)root].parent; ++lev; } CHECK(x.p->getRoot() == ns[(size_t)root].p && x.p->getLevel() == lev, "root", "node %zu (%s) has the wrong root or level", i, nm); CHECK(x.p->isAttached() == x.attached, "attached", "node %zu (%s): isAttached is wrong", i, nm);
            int k = clkof(n); const sparta::Clock * e = k < 0 ? nullptr : clks[(size_t)k].get(); CHECK(x.p->getClock() == e, "clock", "node %zu (%s) has the clock %s instead of %s", i, nm, x.p->getClock() ? x.p->getClock()->getName().c_str() : "none", e ? e->getName().c_str() : "none");
            std::vector<std::string> id, ei; x.p->getChildrenIdentifiers(id, false); for (int q : x.kids) for (auto & s : keys(ns[(size_t)q])) ei.push_back(s); std::sort(id.begin(), id.end()); std::sort(ei.begin(), ei.end()); CHECK(id == ei, "identifiers", "node %zu (%s) knows %zu identifiers of children instead of %zu, or different ones", i, nm, id.size(), ei.size()); }
        CHECK(TN::getAllNodes().size() == base + live - nforeign, "known", "%zu nodes are known instead of %zu", TN::getAllNodes().size(), base + live - nforeign); }
    size_t nforeign = 0;
    static std::vector<std::string> toks(const std::string & s) { std::vector<std::string> r; size_t a = 0; if (s.empty()) return r; for (;;) { size_t d = s.find('.', a); r.push_back(s.substr(a, d == std::string::npos ? d : d - a)); if (d == std::string::npos) break; a = d + 1; if (a == s.size()) break; } return r; }
    int byIdent(int n, const std::string & s) { // the first child inserted with that identity
        for (int k : ns[(size_t)n].kids) for (auto & e : keys(ns[(size_t)k])) if (e == s) return k; return -1; }
    int mget(int n, const std::string & path) { int q = n; for (auto & t : toks(path)) { q = t.empty() ? ns[(size_t)q].parent : byIdent(q, t); if (q < 0) return -1; } return ns[(size_t)q].priv == ns[(size_t)n].priv ? q : -1; }
    static bool glob(const char * p, const char * s) { if (!*p) return !*s; if (*p == '*' || *p == '+') { for (const char * e = s + (*p == '+'); ; ++e) { if (*p == '+' && e > s + strlen(s)) return false; if (glob(p + 1, e)) return true; if (!*e) return false; } } if (*p == '?') return glob(p + 1, s) || (*s && glob(p + 1, s + 1)); return *p == *s && glob(p + 1, s + 1); }
    void mfind(int n, const std::vector<std::string> & t, size_t i, std::vector<int> & out) {
        if (i == t.size()) { out.push_back(n); return; } if (t[i].empty()) { if (ns[(size_t)n].parent >= 0) mfind(ns[(size_t)n].parent, t, i + 1, out); return; }
        for (int k : ns[(size_t)n].kids) { if (ns[(size_t)k].priv != ns[(size_t)n].priv) continue; for (auto & e : keys(ns[(size_t)k])) if (glob(t[i].c_str(), e.c_str())) { mfind(k, t, i + 1, out); break; } } }
    // does replacing the wildcards of the pattern, in order, lead to that node?
    bool leads(int n, const std::vector<std::string> & t, size_t i, const std::vector<std::string> & rep, size_t r, int to) {
        if (i == t.size()) return r == rep.size() && n == to; if (t[i].empty()) return ns[(size_t)n].parent >= 0 && leads(ns[(size_t)n].parent, t, i + 1, rep, r, to);
        std::string s; for (char ch : t[i]) { if (ch == '*' || ch == '+' || ch == '?') { if (r >= rep.size()) return false; if ((ch == '+' && rep[r].empty()) || (ch == '?' && rep[r].size() > 1)) return false; s += rep[r++]; } else s += ch; }
        for (int k : ns[(size_t)n].kids) for (auto & e : keys(ns[(size_t)k])) if (e == s && leads(k, t, i + 1, rep, r, to)) return true; return false; }
    std::string path(uint64_t x, bool wild, int from) {
        std::string s; int q = from; for (int i = 0, m = 1 + (int)(x % 4); i < m; ++i) { x = mix64(x); if (i) s += "."; if (x % 8 == 0) { if (!i) s = "."; if (i) { } q = q >= 0 ? ns[(size_t)q].parent : -1; if (i == 0) { s = ""; if (m == 1) s = "."; } continue; }
            std::string t; if (q >= 0 && !ns[(size_t)q].kids.empty() && x % 8 < 7) { int k = ns[(size_t)q].kids[(x >> 8) % ns[(size_t)q].kids.size()]; auto ks = keys(ns[(size_t)k]); t = ks[(x >> 16) % ks.size()]; q = k; } else { t = names[(x >> 8) % 8]; q = q >= 0 ? byIdent(q, t) : -1; }
            if (wild && x >> 24 & 3) { size_t a = (x >> 26) % (t.size() + 1), b = a + (x >> 32) % (t.size() + 1 - a); char w = "*+?*"[x >> 40 & 3]; t = t.substr(0, a) + w + t.substr(b); if (x >> 42 & 1) t.insert((x >> 44) % (t.size() + 1), 1, "*+?*"[x >> 50 & 3]); } s += t; }
        return s; }
    void query(int n, uint64_t x) {
        N & X = ns[(size_t)n]; std::string pa = path(x, false, n); int e = mget(n, pa);
        TN * g = X.p->getChild(pa, false); CHECK(g == (e < 0 ? nullptr : ns[(size_t)e].p), "get-child", "getChild(\"%s\") on node %d (%s) gave node %d instead of %d", pa.c_str(), n, loc(n).c_str(), g ? idof(g) : -1, e); CHECK(static_cast<const TN *>(X.p)->getChild(pa, false) == g, "get-child", "the const getChild(\"%s\") on node %d differs", pa.c_str(), n);
        CHECK(X.p->hasChild(pa) == (e >= 0), "get-child", "hasChild(\"%s\") on node %d is wrong", pa.c_str(), n); bool r = refused([&] { X.p->getChild(pa); }); CHECK(r == (e < 0), "get-child", "getChild(\"%s\") on node %d was %s", pa.c_str(), n, r ? "refused" : "answered"); if (e < 0) c.probe("lookup of a node that is not there"); else c.probe("node found by path");
        std::string w = path(mix64(x), true, n); auto t = toks(w); std::vector<int> out; mfind(n, t, 0, out); std::vector<TN *> res; std::vector<std::vector<std::string>> rep; uint32_t cnt = X.p->findChildren(w, res, rep); std::vector<int> gi; for (TN * q : res) gi.push_back(idof(q));
        CHECK(cnt == res.size() && rep.size() == res.size(), "find", "findChildren(\"%s\") on node %d counts %u nodes, gives %zu and %zu lists of replacements", w.c_str(), n, cnt, res.size(), rep.size()); for (size_t i = 0; i < gi.size(); ++i) if (!leads(n, t, 0, rep[i], 0, gi[i])) { std::string s; for (auto & q : rep[i]) s += " '" + q + "'"; bool rightNode = std::count(out.begin(), out.end(), gi[i]) > 0; FAIL(rightNode ? "replacements" : "find", "findChildren(\"%s\") on node %d (%s) gave node %d (%s) with the replacements%s, which do not lead there", w.c_str(), n, loc(n).c_str(), gi[i], loc(gi[i]).c_str(), s.c_str()); }
        std::sort(out.begin(), out.end()); std::sort(gi.begin(), gi.end()); if (gi != out) FAIL("find", "findChildren(\"%s\") on node %d (%s) found %zu nodes instead of %zu, or different ones", w.c_str(), n, loc(n).c_str(), gi.size(), out.size()); if (out.size() > 1) c.probe("pattern matched several nodes"); if (t.size() > 2 && !out.empty()) c.probe("pattern of three steps matched");
        // tags
        std::string tg = tags[x % 3]; int dep = (x >> 4 & 1) ? -1 : (int)(x >> 5 & 3); std::vector<int> et; for (auto & p : tagged) if (p.second == tg && ns[(size_t)p.first].alive && under(p.first, n, dep) && (X.phase != FIN || ns[(size_t)p.first].priv == X.priv)) et.push_back(p.first); res.clear(); cnt = X.p->findChildrenByTag(tg, res, dep); gi.clear(); for (TN * q : res) gi.push_back(idof(q)); CHECK(cnt == gi.size(), "tags", "findChildrenByTag counts %u of %zu", cnt, gi.size()); std::sort(gi.begin(), gi.end()); std::sort(et.begin(), et.end()); CHECK(gi == et, "tags", "findChildrenByTag(\"%s\", %d) on node %d found %zu nodes instead of %zu, or different ones", tg.c_str(), dep, n, gi.size(), et.size());
        // groups
        for (int q = 0; q < 4; ++q) { std::string gr = q < 3 ? groups[q] : ""; std::vector<int> eg; uint32_t mx = NOIDX; for (int k : visible(n)) if (ns[(size_t)k].group == gr) { eg.push_back(k); uint32_t id = ns[(size_t)k].idx; if (mx == NOIDX || id > mx) mx = id; } res.clear(); cnt = X.p->getGroup(gr, res); gi.clear(); for (TN * z : res) gi.push_back(idof(z)); CHECK(gi == eg && cnt == eg.size() && X.p->getGroupSize(gr) == eg.size() && (gr.empty() || X.p->getGroupIndexMax(gr) == mx), "group", "group \"%s\" of node %d has %zu nodes instead of %zu, or different ones, or a different largest index", gr.c_str(), n, gi.size(), eg.size()); }
        // ancestry
        size_t o = (size_t)((x >> 20) % ns.size()); if (ns[o].alive) { int d = (x >> 8 & 1) ? -1 : (int)(x >> 9 & 3); CHECK(X.p->isDescendantOf(ns[o].p, d) == under(n, (int)o, d), "descendant", "isDescendantOf(node %zu, %d) of node %d is wrong", o, d, n); CHECK(ns[o].p->hasImmediateChild(X.p) == (X.parent == (int)o), "descendant", "hasImmediateChild is wrong");
            // does the location match the pattern, seen from that node?
            if (X.p != ns[o].p && !X.name.empty()) { std::string lp; int q = n; bool ok = true, wild = false; uint64_t y = mix64(x ^ 77); int steps = 0; for (; q >= 0 && q != (int)o; q = ns[(size_t)q].parent) { auto is = idents(ns[(size_t)q]); if (is.empty()) { ok = false; break; } std::string s = is[y % is.size()]; y = mix64(y); if (y % 3 == 0) { size_t a = (y >> 8) % (s.size() + 1); s = s.substr(0, a) + "*"; wild = true; } if (y % 11 == 0) s = "b+"; lp = lp.empty() ? s : s + "." + lp; ++steps; } if (ok && q == (int)o && y % 5) {
                auto tk = toks(lp); bool em = true; q = n; for (size_t k = tk.size(); k-- > 0 && em; q = ns[(size_t)q].parent) { bool one = false; for (auto & s : idents(ns[(size_t)q])) one |= glob(tk[k].c_str(), s.c_str()); em = one; } CHECK(X.p->locationMatchesPattern(lp, ns[o].p) == em, "matches", "locationMatchesPattern(\"%s\", node %zu) of node %d (%s) is %s", lp.c_str(), o, n, loc(n).c_str(), em ? "false" : "true"); if (em && wild && steps > 1) c.probe("location matched a pattern of several steps"); } } }
        uint32_t rc = 0; pre(n, [&](int k) { rc += !ns[(size_t)k].foreign; }); CHECK(X.p->getRecursiveNodeCount<Tn>() == rc, "count", "getRecursiveNodeCount of node %d is %u instead of %u", n, X.p->getRecursiveNodeCount<Tn>(), rc);
        if (n == 0) { auto * sc = rtn->getSearchScope(); std::string p2 = "top." + path(x ^ 5, false, 0); if (p2.find("..") == std::string::npos && p2.back() != '.') { int e2 = mget(0, p2.substr(4)); TN * g2 = sc->getChild(p2, false); CHECK(g2 == (e2 < 0 ? nullptr : ns[(size_t)e2].p), "get-child", "getChild(\"%s\") on the search scope gave node %d instead of %d", p2.c_str(), g2 ? idof(g2) : -1, e2); } } }
    // ----
    void kill(int n) {
        N & x = ns[(size_t)n]; std::string l = loc(n); if (x.parent >= 0) { N & P = ns[(size_t)x.parent]; if (!P.foreign) exp.push_back({DC, x.parent, n}); P.kids.erase(std::find(P.kids.begin(), P.kids.end(), n)); }
        for (int k : x.kids) { exp.push_back({DP, k, -9}); N & K = ns[(size_t)k]; K.parent = -1; K.ploc = l; K.hasloc = true; } x.kids.clear(); x.parent = -1; x.alive = false; tagged.erase(std::remove_if(tagged.begin(), tagged.end(), [&](auto & t) { return t.first == n; }), tagged.end());
        dying = n; x.own.reset(); ids.erase(x.p); dying = -1; events("destroying a node"); }
    int dying = -1;
    int pick(int64_t v, bool any = true) { std::vector<int> l; for (size_t i = 0; i < ns.size(); ++i) if (ns[i].alive && (!ns[i].foreign || (any && i == 0))) l.push_back((int)i); return l.empty() ? -1 : l[(size_t)v % l.size()]; }
    void op(const Op & o) {
        int64_t k = o.arg(0), i = o.arg(1), j = o.arg(2); uint64_t x = (uint64_t)o.arg(3); c.log("op %d %d %d %d", (int)k, (int)i, (int)j, (int)(x % 1000));
        switch (k) {
        case 0: case 1: case 2: { // a node, with or without a parent
            if (ns.size() > 50) return; int p = k == 0 ? -1 : pick(i); if (p >= 0 && ns[(size_t)p].foreign && p) p = 0; N n; n.name = names[x % 8]; if (x >> 4 & 1) { n.group = groups[(x >> 5) % 3]; n.idx = (uint32_t)(x >> 8) % 3; if ((x >> 10) % 4 == 0) n.name = ""; } else if ((x >> 12) % 10 == 0) n.group = TN::GROUP_NAME_BUILTIN; int bad = (x >> 16) % 12 == 0 ? 1 + (int)((x >> 20) % 5) : 0; std::string desc = "node"; if (bad == 1) n.name = badnames[(x >> 24) % 6]; if (bad == 2) { n.group = ""; n.idx = 3; } if (bad == 3) { n.group = "grp"; n.idx = NOIDX; } if (bad == 4) { n.name = ""; n.group = ""; n.idx = NOIDX; } bool late = bad == 5; if (late) bad = 0;
            n.grow = (int)(x >> 28) & 511; if ((x >> 37) % 3) n.grow &= 1 | 64; n.growto = (int)(x >> 40) % 3; n.thr = (x >> 43) % 14 == 0 ? (int)((x >> 47) % 3 == 0 ? CR : std::vector<int>{SP, AC, BE, BL, VN, RST, RVP, RDD, RET, RBE, RBL}[(x >> 49) % 11]) : -1; if (n.thr == CR && (x >> 53) % 2) n.thr = -1;
            int id = (int)ns.size(); std::string why = bad ? "bad" : p < 0 ? "" : no(p, n, -1); bool hook = why.empty() && p >= 0 && thrower(AC, p); ns.push_back(std::move(n)); if (why.empty() && p >= 0) mattach(p, id, true, true);
            if (late && why.empty() && !hook) { if (p >= 0) { N & P = ns[(size_t)p]; if (!P.foreign) exp.push_back({DC, p, id}); P.kids.pop_back(); } ns[(size_t)id].parent = -1; c.fault("derived constructor threw after the node was attached"); }
            bool r = refused([&] { make(id, p < 0 ? nullptr : ns[(size_t)p].p, late); }); bool er = !why.empty() || hook || late; CHECK(r == er, "construct", "constructing node %d ('%s', group '%s') under node %d was %s%s%s", id, ns[(size_t)id].name.c_str(), ns[(size_t)id].group.c_str(), p, r ? "refused" : "accepted", why.empty() ? "" : ": ", why.c_str()); if (er) { c.fault("constructor refused a node"); ns[(size_t)id].alive = false; ns[(size_t)id].parent = -1; ns[(size_t)id].kids.clear(); } else { c.nontrivial = true; } events("constructing a node"); break; }
        case 3: case 4: case 5: { // attach
            int n = pick(i, false), p = pick(j); if (n < 0 || p < 0) return; if (x % 4) for (size_t q = 0; q < ns.size(); ++q) { size_t z = (q + (size_t)i) % ns.size(); if (ns[z].alive && !ns[z].foreign && ns[z].parent < 0) { n = (int)z; break; } } N & X = ns[(size_t)n]; if (X.priv && X.parent < 0) return; std::string why = no(p, X, n); bool inh = x % 7 != 0, hook = false; if (why.empty()) { hook = thrower(SP, n) || (!ns[(size_t)p].foreign && thrower(AC, p)); if (X.hasloc) c.probe("orphan attached again"); mattach(p, n, inh, false); }
            bool r = refused([&] { if (inh && x % 2) ns[(size_t)p].p->addChild(*X.p); else ns[(size_t)p].p->addChild(X.p, inh); }); CHECK(r == (!why.empty() || hook), "attach", "attaching node %d (%s) to node %d (%s) was %s%s%s", n, loc(n).c_str(), p, loc(p).c_str(), r ? "refused" : "accepted", why.empty() ? "" : ": ", why.c_str()); if (!why.empty()) { c.fault("attachment refused"); c.probe(("refused: " + why).c_str()); } if (hook) c.fault("attachment refused by a hook"); events("attaching a node"); break; }
        case 6: { int n = pick(i, false); if (n < 0) return; N & X = ns[(size_t)n]; std::string a = names[x % 8]; bool dup = std::count(X.aliases.begin(), X.aliases.end(), a) > 0; bool er = X.parent >= 0 || X.phase > BUILD || dup; bool r = refused([&] { X.p->addAlias(a); }); CHECK(r == er, "alias", "the alias %s of node %d was %s", a.c_str(), n, r ? "refused" : "accepted"); if (r) c.fault("alias refused"); else X.aliases.push_back(a); break; }
        case 7: { int n = pick(i, false); if (n < 0) return; N & X = ns[(size_t)n]; std::string a = tags[x % 3]; bool dup = std::count(X.tags.begin(), X.tags.end(), a) > 0; bool er = X.phase >= FIN || dup; bool r = refused([&] { X.p->addTag(a); }); CHECK(r == er, "tag", "the tag %s of node %d was %s", a.c_str(), n, r ? "refused" : "accepted"); if (r) c.fault("tag refused"); else { X.tags.push_back(a); tagged.push_back({n, a}); } CHECK(X.p->hasTag(a) == (!r || dup), "tag", "hasTag(%s) of node %d is wrong", a.c_str(), n); break; }
        case 8: { int n = pick(i); if (n < 0) return; N & X = ns[(size_t)n]; int q = (int)(x % clks.size()); bool er = X.phase == FINING || X.phase == FIN || X.clk >= 0; bool r = refused([&] { X.p->setClock(clks[(size_t)q].get()); }); CHECK(r == er, "clock", "a clock for node %d was %s", n, r ? "refused" : "accepted"); if (r) c.fault("clock refused"); else X.clk = q; break; }
        case 9: { int n = pick(i, false); if (n < 0 || x % 3) return; pre(n, [&](int q) { ++ns[(size_t)q].priv; }); ns[(size_t)n].p->makeSubtreePrivate(); c.probe("subtree made private"); break; }
        case 10: case 11: { int n = pick(i, false); if (n < 0) return; if (!ns[(size_t)n].kids.empty()) c.probe("node destroyed before its children"); c.fault("node destroyed"); if (x % 4 == 0) { std::vector<int> l; pre(n, [&](int q) { l.push_back(q); }); if (x >> 4 & 1) std::reverse(l.begin(), l.end()); for (int q : l) kill(q); } else kill(n); break; }
        case 12: { bool er = ns[0].phase != BUILD; if (!er) { pre(0, [&](int q) { ns[(size_t)q].phase = CONF; }); walk(0, CF, -1); } bool r = refused([&] { rtn->enterConfiguring(); }); CHECK(r == er, "phase", "enterConfiguring was %s", r ? "refused" : "accepted"); if (r) c.fault("phase change refused"); events("enterConfiguring"); break; }
        case 13: { bool er = ns[0].phase != CONF, t = false; if (!er) { pre(0, [&](int q) { ns[(size_t)q].phase = FINING; }); t = !mfin(0); if (!t) pre(0, [&](int q) { ns[(size_t)q].phase = FIN; }); } bool r = refused([&] { rtn->enterFinalized(); }); CHECK(r == (er || t), "phase", "enterFinalized was %s", r ? "refused" : "accepted"); if (t) c.fault("finalization failed half-way"); else if (r) c.fault("phase change refused"); else c.probe("tree finalized"); events("enterFinalized"); grows.clear(); break; }
        case 14: hooks("bindTreeEarly", ns[0].phase != FIN, BE, RBE, [&] { rtn->bindTreeEarly(); }); break;
        case 15: hooks("bindTreeLate", ns[0].phase != FIN, BL, RBL, [&] { rtn->bindTreeLate(); }); break;
        case 16: hooks("validatePreRun", ns[0].phase != FIN, VN, -1, [&] { rtn->validatePreRun(); }); break;
        case 17: hooks("simulationTerminating", ns[0].phase == TEAR, -1, RST, [&] { rtn->simulationTerminating(); }); break;
        case 18: hooks("validatePostRun", ns[0].phase == TEAR, -1, RVP, [&] { rtn->validatePostRun(); }); break;
        case 19: { std::string e; std::vector<int> l; pre(0, [&](int q) { if (!ns[(size_t)q].foreign && ns[(size_t)q].res) { exp.push_back({RDD, q, -9}); l.push_back(q); } }); std::stringstream s; rtn->dumpDebugContent(s); std::string d = s.str(); size_t at = 0; for (int q : l) { std::string t = "content of " + std::to_string(q) + ";"; at = d.find(loc(q) + "\n", at); CHECK(at != std::string::npos, "dump", "the debug dump does not name node %d, or not in order", q); at = d.find(t, at); CHECK(at != std::string::npos, "dump", "the debug dump lacks the content of node %d", q); if (thrower(RDD, q)) CHECK(d.find("ERROR", at) != std::string::npos, "dump", "the debug dump does not say that node %d failed", q); } events("dumpDebugContent"); break; }
        case 20: { if (x % 4) return; std::function<void(int)> tear = [&](int q) { N & X = ns[(size_t)q]; if (X.phase != TEAR && !X.foreign) { exp.push_back({ET, q, -9}); if (X.res) exp.push_back({RET, q, -9}); } X.phase = TEAR; for (int z : X.kids) tear(z); }; tear(0); rtn->enterTeardown(); c.probe("teardown"); events("enterTeardown"); break; }
        default: { int n = pick(i); if (n < 0) return; query(n, x); break; } }
    }
    template<class F> void hooks(const char * what, bool er, int a, int b, F && f) {
        bool t = false, deep = false; if (!er) pre(0, [&](int q) { if (ns[(size_t)q].phase == TEAR) deep = true; }); (void)deep; if (!er) t = !walk(0, a, b); bool r = refused(f); CHECK(r == (er || t), "phase", "%s was %s", what, r ? "refused" : "accepted"); if (r) c.fault(t ? "hook threw while walking the tree" : "walk refused in this phase"); else c.probe("tree walked"); events(what); }
    static void quiet(bool on) { static std::streambuf * old = nullptr; if (on) { static std::stringbuf nul; nul.str(""); old = std::cerr.rdbuf(&nul); } else if (old) { std::cerr.rdbuf(old); old = nullptr; } }
    void import(TN * t, int parent) { int id = (int)ns.size(); N x; x.foreign = true; x.p = t; x.name = t->getName(); x.group = t->getGroup(); x.idx = t->getGroupIdx(); for (auto & a : t->getAliases()) x.aliases.push_back(a); x.parent = parent; x.attached = true; ids[t] = id; ns.push_back(std::move(x)); if (parent >= 0) ns[(size_t)parent].kids.push_back(id); ++nforeign; for (TN * k : sparta::TreeNodePrivateAttorney::getAllChildren(t)) import(k, id); }
    void go() {
        sched.reset(new sparta::Scheduler("sched")); cm.reset(new sparta::ClockManager(sched.get())); auto root = cm->makeRoot(nullptr, "root"); auto k1 = cm->makeClock("k1", root, 2, 1), k2 = cm->makeClock("k2", root, 3, 1); cm->normalize(); clks = {root, k1, k2}; rtn.reset(new sparta::RootTreeNode("top")); TN::getVirtualGlobalNode(); sparta::log::MessageSource::getGlobalWarn(); sparta::log::MessageSource::getGlobalDebug(); quiet(true); struct Q { ~Q() { quiet(false); } } qq;
        import(rtn.get(), -1); base = TN::getAllNodes().size(); rtn->getNodeAttachedNotification().registerForThis<World, &World::attached>(this); if (plan.c("rootclk")) { rtn->setClock(root.get()); ns[0].clk = 0; }
        look(); for (auto & o : plan.ops) { op(o); if (stored) throw *stored; look(); }
        // everything goes, in a seeded order; the root somewhere in between
        uint64_t x = (uint64_t)plan.c("end"); if (x % 3) { rtn->enterTeardown(); exp.clear(); got.clear(); pre(0, [&](int q) { ns[(size_t)q].phase = TEAR; }); look(); c.probe("destroyed after teardown"); } int early = (int)((x >> 2) % 20);
        for (int q = 0; ; ++q) { x = mix64(x); int n = pick((int64_t)(x >> 1), false); if (n < 0) break; if (q == early) { rtn->getNodeAttachedNotification().deregisterForThis<World, &World::attached>(this); c.probe("root destroyed before some of its nodes"); std::string l = "top"; for (int z : ns[0].kids) if (!ns[(size_t)z].foreign) { N & K = ns[(size_t)z]; K.parent = -1; K.ploc = l; K.hasloc = true; exp.push_back({DP, z, -9}); } for (auto & m : ns) if (m.foreign && m.alive) { m.alive = false; m.p = nullptr; } ns[0].kids.clear(); rtn.reset(); base -= nforeign + 1; nforeign = 0; events("destroying the root"); continue; } kill(n); look(); }
        if (rtn) { rtn->getNodeAttachedNotification().deregisterForThis<World, &World::attached>(this); }
        if (rtn) { rtn->enterTeardown(); rtn.reset(); base -= nforeign + 1; } CHECK(TN::getAllNodes().size() == base, "known", "%zu nodes are known at the end instead of %zu", TN::getAllNodes().size(), base); clks.clear();
    }
    ~World() { if (std::uncaught_exceptions()) { for (auto & x : ns) x.own.release(); rtn.release(); cm.release(); } }
};
// hooks of a node that is being destroyed or constructed on a broken tree may run after the world has failed
void Tn::onAddingChild_(TN * ch) { w->ev(AC, id, w->idof(ch)); w->boom(AC, id); } void Tn::onSettingParent_(const TN * p) const { w->ev(SP, id, w->idof(p)); w->boom(SP, id); } void Tn::onAddedAsChild_() noexcept { w->ev(AAC, id); } void Tn::onDescendentSubtreeAdded_(TN * d) noexcept { w->ev(DSA, id, w->idof(d)); } void Tn::onDestroyingParent_() noexcept { w->ev(DP, id); } void Tn::onDestroyingChild_(TN * ch) noexcept { w->ev(DC, id, w->idof(ch)); }
void Tn::onConfiguring_() { w->ev(CF, id); } void Tn::onBindTreeEarly_() { w->ev(BE, id); w->boom(BE, id); } void Tn::onBindTreeLate_() { w->ev(BL, id); w->boom(BL, id); } void Tn::onEnteringTeardown_() noexcept { w->ev(ET, id); } void Tn::validateNode_() const { w->ev(VN, id); w->boom(VN, id); }
void Tn::createResource_() { w->ev(CR, id); w->boom(CR, id); if (w->ns[(size_t)id].grow & 1) res.reset(new Res(this, w, id)); w->growReal(id); }
void Res::simulationTerminating_() { w->ev(RST, id); w->boom(RST, id); } void Res::validatePostRun_(const sparta::PostRunValidationInfo &) const { w->ev(RVP, id); w->boom(RVP, id); } void Res::dumpDebugContent_(std::ostream & o) const { w->ev(RDD, id); o << "content of " << id << ";"; w->boom(RDD, id); } void Res::onStartingTeardown_() { w->ev(RET, id); w->boom(RET, id); } void Res::onBindTreeEarly_() { w->ev(RBE, id); w->boom(RBE, id); } void Res::onBindTreeLate_() { w->ev(RBL, id); w->boom(RBL, id); }

void gen(Rng & r, Plan & p, bool th) {
    p.cfg["lay"] = r.range(0, 1000); p.cfg["rootclk"] = r.p(60); p.cfg["end"] = r.range(0, 1 << 30); std::vector<int> w(26, 0); for (int k = 0; k < 12; ++k) w[(size_t)k] = (int)r.range(0, 5); w[0] += 2; w[1] += 7; w[2] += 3; w[4] /= 2; w[5] = 0; w[9] = (int)r.range(0, 2); w[10] = (int)r.range(0, 3); w[11] = 0; for (int k = 21; k < 26; ++k) w[(size_t)k] = 3;
    int n = (int)r.range(6, th ? 70 : 36); int phases = r.p(75); int at1 = (int)r.range(2, n), at2 = at1 + (int)r.range(1, 8);
    for (int i = 0; i < n; ++i) { if (phases && i == at1) { p.add("o", {12, 0, 0, 0}); w[0] /= 2; w[1] /= 2; } if (phases && i == at2) { p.add("o", {13, 0, 0, 0}); for (int k = 14; k < 21; ++k) w[(size_t)k] = (int)r.range(0, 3); w[20] = 1; } p.add("o", {(int64_t)(r.p(2) ? r.range(12, 20) : (int64_t)r.w(w)), r.range(0, 40), r.range(0, 40), (int64_t)(r.next() >> 1)}); }
}
Register R28([] {
    Harness h; h.property = "C28"; h.technique = "deterministic simulation: seeded histories of building, attaching, orphaning, destroying and looking up tree nodes and of the tree's phases, with hooks that refuse, throw and grow the tree, constructors that fail half-way and nodes destroyed in every order, against a reference model of the tree";
    h.rule = "plan = operations on one device tree and on nodes outside it, in order; which hooks throw and what createResource_ grows is part of the plan; non-trivial: a node was constructed"; h.measure = "hash of the event log";
    h.real = "TreeNode, RootTreeNode, GlobalTreeNode, PhasedObject, ResourceContainer, Resource, StringManager, NotificationSource"; h.stub = "global operator new (placement and fill); the nodes' hooks are the harness's";
    h.quick_runs = 12000; h.thorough_runs = 1500000; h.gen = gen; h.run = runWorld<World>; return h; }());
} // namespace treew
