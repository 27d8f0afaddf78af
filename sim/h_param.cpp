// C30: a simulation is configured with exactly what it was given - parameter files with includes, patterns and comments, an
// architecture and single parameters in any order - against a model in which the last assignment that matches a parameter
// wins; and the configuration written at the end, with short, interrupted or refused writes, gives the same values again.
#include "world_base.hpp"
#include "iofault.hpp"
#include "sparta/app/Simulation.hpp"
#include "sparta/app/SimulationConfiguration.hpp"
#include "sparta/kernel/SleeperThread.hpp"
#include "sparta/parsers/ConfigEmitterYAML.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/ParameterTree.hpp"
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unistd.h>

namespace paramw {
typedef std::vector<std::string> Strs;
struct PS : sparta::ParameterSet {
    PS(sparta::TreeNode * n) : ParameterSet(n) {}
    PARAMETER(uint32_t, u0, 7, "a number")
    PARAMETER(uint32_t, u1, 0, "a number")
    PARAMETER(int32_t, i0, -3, "a signed number")
    VOLATILE_PARAMETER(uint64_t, u2, 1ull << 40, "a large number")
    PARAMETER(bool, b0, true, "yes or no")
    PARAMETER(std::string, s0, "def", "a text")
    PARAMETER(std::string, s1, "", "a text")
    PARAMETER(double, d0, 0.5, "a fraction")
    PARAMETER(std::vector<uint32_t>, v0, std::vector<uint32_t>({1, 2, 3}), "numbers")
    PARAMETER(std::vector<uint32_t>, v1, std::vector<uint32_t>(), "numbers")
    PARAMETER(Strs, w0, Strs({"a", "b c"}), "texts")
    PARAMETER(std::vector<std::vector<int32_t>>, x0, std::vector<std::vector<int32_t>>({{1}, {2, 3}}), "numbers of numbers")
    PARAMETER(std::vector<Strs>, y0, std::vector<Strs>(), "texts of texts")
    PARAMETER(std::vector<bool>, c0, std::vector<bool>({true}), "yeses and noes")
};
struct World;
struct Sim : sparta::app::Simulation { World * w; Sim(World * w_, sparta::Scheduler * s) : Simulation("sim", s), w(w_) {} ~Sim() { getRoot()->enterTeardown(); } void buildTree_() override; void configureTree_() override {} void bindTree_() override {} };
const char * const LEAF[] = {"u0", "u1", "i0", "b0", "s0", "s1", "d0", "v0", "v1", "w0", "x0", "y0", "c0", "u2"}; const int NL = 14;
const char * const UNIT[] = {"n0", "n1", "m0", "n0.k0", "n*", "*0", "*", "?0", "n+", "*.k0", "n0.*"}; const int NU = 11;
Strs split(const std::string & s) { Strs v; std::string x; for (char ch : s) if (ch == '.') { v.push_back(x); x.clear(); } else x += ch; v.push_back(x); return v; }
std::string join(const Strs & v, size_t a, size_t b) { std::string s; for (size_t i = a; i < b; ++i) s += (i > a ? "." : "") + v[i]; return s; }
bool glob(const char * p, const char * s) { if (!*p) return !*s; if (*p == '*') return glob(p + 1, s) || (*s && glob(p, s + 1)); if (*p == '+') return *s && (glob(p + 1, s + 1) || glob(p, s + 1)); if (*p == '?') return glob(p + 1, s) || (*s && glob(p + 1, s + 1)); return *p == *s && glob(p + 1, s + 1); }
bool wild(const std::string & s) { return s.find_first_of("*+?") != std::string::npos; }
std::string quote(const std::string & s) { std::string o = "\""; for (char ch : s) { if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else { if (ch == '"' || ch == '\\') o += '\\'; o += ch; } } return o + "\""; }
// a value as it is written in a file, and as it is shown when it is read back
struct Val { std::string text, plain, is; bool bad = false, list = false; };
std::string show(const std::string & s) { return quote(s); }
std::string show(bool b) { return b ? "true" : "false"; }
std::string show(uint32_t x) { return std::to_string(x); }
std::string show(int32_t x) { return std::to_string(x); }
std::string show(uint64_t x) { return std::to_string(x); }
std::string show(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
template<class T> std::string show(const std::vector<T> & v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + show((T)v[i]); return s + "]"; }
std::string text(Rng & r, bool inlist) { static const char * const BIT[] = {"a", "Z9", " ", "b c", "x-y", "_", "5", "1.5", "true", "null", "~", "#", " #", ":", ": ", ", ", ",", "[", "]", "{", "}", "'", "\"", "\\", "!", "&", "*", "|", ">", "%", "@", "`", "?", "- ", "-", "=", "//", "0x1f", "\t", "\n", "$", "(", ".", "..", "\xc3\xa9", "<", "--- ", "%YAML"}; std::string s; int n = (int)r.range(inlist ? 0 : 0, r.p(60) ? 2 : 5); int m = r.p(60) ? 7 : (int)(sizeof BIT / sizeof *BIT); for (int i = 0; i < n; ++i) s += BIT[r.below((uint64_t)m)]; return s; }
uint64_t number(Rng & r) { switch (r.below(4)) { case 0: return r.below(10); case 1: return r.below(1000); case 2: return r.below(1ull << 32); default: return 0xffffffffull - r.below(3); } }
void one(Rng & r, char t, std::string & tx, std::string & is) {
    char b[64]; switch (t) {
    case 'u': case 'v': { uint64_t x = number(r); if (r.p(30)) snprintf(b, sizeof b, "0x%lx", (ul)x); else snprintf(b, sizeof b, "%lu", (ul)x); tx = b; is = show(x); break; }
    case 'i': case 'x': { int32_t x = (int32_t)number(r); snprintf(b, sizeof b, "%d", x); tx = b; is = show(x); break; }
    case 'b': case 'c': { bool x = r.p(50); tx = r.p(80) ? (x ? "true" : "false") : (x ? "1" : "0"); is = show(x); break; }
    case 'd': { double x = r.p(50) ? (double)r.range(-1000, 1000) / 8 : r.p(50) ? (double)r.range(1, 1ll << 50) / 3.0 : (double)r.range(-100000, 100000) * 1e-9; snprintf(b, sizeof b, "%.17g", x); tx = b; is = show(atof(b)); break; }
    default: { std::string s = text(r, t != 's'); tx = s; is = show(s); } } }
Val value(char t, uint64_t seed) {
    Rng r(seed * 2654435761u + 77); Val v; bool q = t == 's' || t == 'w' || t == 'y'; std::string tx, is; v.bad = r.below(1000) < 6 && t != 's' && t != 'w' && t != 'y';
    if (t == 'v' || t == 'w' || t == 'c') { v.list = true; v.text = v.is = "["; for (uint64_t i = 0, n = r.below(5); i < n; ++i) { one(r, t, tx, is); v.text += (i ? ", " : "") + (q ? quote(tx) : tx); v.is += (i ? "," : "") + is; } v.text += "]"; v.is += "]"; }
    else if (t == 'x' || t == 'y') { v.list = true; v.text = v.is = "["; for (uint64_t i = 0, n = r.below(4); i < n; ++i) { v.text += i ? ", [" : "["; v.is += i ? ",[" : "["; for (uint64_t j = 0, m = r.below(4); j < m; ++j) { one(r, t, tx, is); v.text += (j ? "," : "") + (q ? quote(tx) : tx); v.is += (j ? "," : "") + is; } v.text += "]"; v.is += "]"; } v.text += "]"; v.is += "]"; }
    else { one(r, t, tx, v.is); v.text = q ? quote(tx) : tx; v.plain = tx; }
    if (v.bad) { v.text = v.list ? "[zz]" : "zz"; v.plain = "zz"; } if (v.list) v.plain = v.text; return v; }
struct World : PBase {
    using PBase::PBase;
    struct Set { Strs path; Val v; bool req, ghost, opt; size_t file; };
    struct Unit { Strs path; std::unique_ptr<sparta::TreeNode> n; std::unique_ptr<PS> ps; };
    std::vector<std::unique_ptr<Unit>> units; std::unique_ptr<sparta::app::SimulationConfiguration> cfg; std::unique_ptr<Sim> sim; std::string dir; std::vector<std::string> made; std::vector<Set> sets[2]; // of the configuration, of the architecture
    bool late = false;
    static bool covers(const Strs & pat, const Strs & p) { if (pat.size() != p.size()) return false; for (size_t k = 0; k < p.size(); ++k) if (!glob(pat[k].c_str(), p[k].c_str())) return false; return true; }
    const Set * last(int w, const Strs & p) { for (size_t i = sets[w].size(); i--;) { Set & s = sets[w][i]; if (s.opt) continue; if (covers(s.path, p)) return &s; } return nullptr; }
    std::string file(const std::string & n) { std::string f = dir + "/" + n; if (std::find(made.begin(), made.end(), f) == made.end()) made.push_back(f); return f; }
    // entries of one file: [first path segments that are open] nested as the seed says
    struct Entry { Strs path; std::string text; uint64_t style; };
    void write(const std::string & name, const std::vector<Entry> & es, size_t from, size_t & incl, bool mayinc) {
        std::ofstream o(file(name)); Strs open; std::vector<size_t> cuts; // cuts: how many segments each open level holds in all
        if (es.empty()) { o << "# nothing\n{}\n"; return; }
        for (size_t i = 0; i < es.size(); ++i) { const Entry & e = es[i]; Rng r(e.style + 5); size_t n = e.path.size();
            // close the levels that do not lead to this entry (or, now and then, one more)
            while (!cuts.empty()) { size_t k = cuts.back(); bool pre = k < n && std::equal(open.begin(), open.begin() + (long)k, e.path.begin() + (long)from); pre = pre && from + k < n; if (pre && !r.p(15)) break; cuts.pop_back(); open.resize(cuts.empty() ? 0 : cuts.back()); }
            size_t at = from + open.size(); std::string ind(cuts.size() * 2, ' ');
            if (r.p(8)) { static const char * const C[] = {"\"//u0\": 99", "\"// text\": some text", "\"//n0\": {u0: 5, v0: [1, 2]}", "\"//v0\": [1, 2, [3]]", "\"//params\": {u0: {a: 5}, s0: x}", "# a comment"}; o << ind << C[r.below(6)] << "\n"; c.probe("comment"); }
            while (at + 1 < n && r.p(55)) { size_t k = 1 + r.below(n - 1 - at); o << ind << quote(join(e.path, at, at + k)) << ":\n"; for (size_t j = at; j < at + k; ++j) open.push_back(e.path[j]); cuts.push_back(open.size()); at += k; ind += "  "; }
            if (mayinc && at + 1 < n && r.p(12)) { std::string f = "inc" + std::to_string(incl++) + ".yaml"; Entry x = e; x.style += 31; size_t i2 = incl; write(f, {x}, at, i2, false); incl = i2; o << ind << (r.p(50) ? "include" : "\"#include\"") << ": " << f << "\n"; c.probe("file included"); continue; }
            if (r.p(15)) { o << ind << "? " << quote(join(e.path, at, n)) << "\n" << ind << ": " << e.text << "\n"; } else o << ind << quote(join(e.path, at, n)) << ": " << e.text << "\n"; } }
    void build() {
        sched.reset(new sparta::Scheduler()); sim.reset(new Sim(this, sched.get())); sim->configure(0, nullptr, cfg.get()); sim->buildTree(); sim->configureTree(); }
    void undo() { sim.reset(); units.clear(); sched.reset(); }
    std::string get(PS & p, int l, bool def) {
        switch (l) { case 0: return def ? show((uint32_t)p.u0.getDefault()) : show((uint32_t)p.u0); case 1: return def ? show((uint32_t)p.u1.getDefault()) : show((uint32_t)p.u1); case 2: return def ? show((int32_t)p.i0.getDefault()) : show((int32_t)p.i0); case 3: return def ? show((bool)p.b0.getDefault()) : show((bool)p.b0); case 4: return show(def ? p.s0.getDefault() : p.s0.getValue()); case 5: return show(def ? p.s1.getDefault() : p.s1.getValue()); case 6: return show((double)(def ? p.d0.getDefault() : p.d0.getValue())); case 7: return show(def ? p.v0.getDefault() : p.v0.getValue()); case 8: return show(def ? p.v1.getDefault() : p.v1.getValue()); case 9: return show(def ? p.w0.getDefault() : p.w0.getValue()); case 10: return show(def ? p.x0.getDefault() : p.x0.getValue()); case 11: return show(def ? p.y0.getDefault() : p.y0.getValue()); case 12: return show(def ? p.c0.getDefault() : p.c0.getValue()); default: return show((uint64_t)(def ? p.u2.getDefault() : p.u2.getValue())); } }
    static std::string builtin(int l) { static const char * const D[] = {"7", "0", "-3", "true", "\"def\"", "\"\"", "0.5", "[1,2,3]", "[]", "[\"a\",\"b c\"]", "[[1],[2,3]]", "[]", "[true]", "1099511627776"}; return D[l]; }
    Strs full(const Unit & u, int l) { Strs p{"top"}; p.insert(p.end(), u.path.begin(), u.path.end()); p.push_back("params"); p.push_back(LEAF[l]); return p; }
    std::vector<Strs> all() { std::vector<Strs> v; for (const char * u : {"n0", "n1", "m0", "n0.k0"}) for (int l = 0; l < NL; ++l) { Strs p{"top"}; for (auto & x : split(u)) p.push_back(x); p.push_back("params"); p.push_back(LEAF[l]); v.push_back(p); } return v; }
    void go() {
        std::ostringstream sink; struct Quiet { std::streambuf * a, * b; Quiet(std::streambuf * s) { a = std::cout.rdbuf(s); b = std::cerr.rdbuf(s); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } } quiet(sink.rdbuf());
        char d_[] = "/tmp/dstpXXXXXX"; CHECK(mkdtemp(d_), "setup", "mkdtemp"); dir = d_; struct Rm { World & w; ~Rm() { iof::wf = iof::WF(); w.undo(); for (auto & f : w.made) unlink(f.c_str()); rmdir(w.dir.c_str()); } } rm{*this}; iof::wf = iof::WF();
        static const bool asleep = (sparta::SleeperThread::disableForever(), true); (void)asleep; late = plan.c("late");
        cfg.reset(new sparta::app::SimulationConfiguration()); cfg->addConfigSearchPath(dir); cfg->addArchSearchPath(dir);
        std::string msg; size_t nf = 0, incl = 0; bool boom = false, archdone = false;
        try { // the configuration: architecture, files and single parameters, in the order of the plan
            for (size_t i = 0; i < plan.ops.size();) { const Op & o = plan.ops[i];
                if (o.k == "p") { Set s = make(o, {}, true); s.req = !(o.arg(3) & 1); cfg->processParameter(join(s.path, 0, s.path.size()), s.v.plain, !s.req); s.file = ++nf; sets[0].push_back(s); if (c.trace) printf("  -p %s=%s%s\n", join(s.path, 0, s.path.size()).c_str(), s.v.plain.c_str(), s.req ? "" : " (optional)"); ++i; continue; }
                // a file: this op says where, the "e" ops that follow are its entries
                bool arch = o.k == "a" && !archdone; static const char * const LOC[] = {"", "top", "top.n0", "top.n*", "top.*"}; std::string loc = LOC[(size_t)o.arg(0) % 5]; Strs pre; if (!loc.empty()) pre = split(loc); std::string n = (arch ? "arch" : "cfg" + std::to_string(nf)) + std::string(".yaml"); std::vector<Entry> es; std::vector<Set> ss; ++nf;
                for (++i; i < plan.ops.size() && plan.ops[i].k == "e"; ++i) { const Op & e = plan.ops[i]; Set s = make(e, pre, false); s.file = nf; Entry x; x.path.assign(s.path.begin() + (long)pre.size(), s.path.end()); x.text = s.opt ? "<OPTIONAL>" : s.v.text; x.style = (uint64_t)e.arg(3); es.push_back(x); ss.push_back(s); }
                write(n, es, 0, incl, true); if (c.trace) { std::ifstream f(dir + "/" + n); std::stringstream t; t << f.rdbuf(); printf("  --%s %s at \"%s\":\n%s", arch ? "arch" : "config", n.c_str(), loc.c_str(), t.str().c_str()); }
                if (arch) { cfg->processArch(loc, dir + "/" + n); archdone = true; c.probe("architecture"); } else cfg->processConfigFile(loc, o.arg(1) & 1 ? dir + "/" + n : n); for (auto & s : ss) sets[arch].push_back(s); }
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        CHECK(!boom, "exception", "the configuration was refused: %.400s", msg.c_str());
        for (int w = 0; w < 2; ++w) { sparta::ParameterTree t(w ? cfg->getArchUnboundParameterTree() : cfg->getUnboundParameterTree()), t2; t2.set("zz.zz", "1", false); t2 = t; sparta::ParameterTree t3; t3.set("top.n0.params.u0", "overridden", false); t3.merge(t); bool seen3 = false; (void)seen3;
            for (auto & p : all()) { const Set * s = last(w, p); std::string loc = join(p, 0, p.size()); for (auto * x : {&t, &t2, &t3}) { bool extra = x == &t3 && !s && loc == "top.n0.params.u0"; CHECK(x->hasValue(loc) == (s != nullptr || extra), "tree", "%s %s value in the tree of parameters", loc.c_str(), s ? "has no" : "has a"); if (extra) { CHECK(x->get(loc).getValue() == "overridden", "tree", "a merge changed %s, which it says nothing about", loc.c_str()); continue; } if (!s) continue; CHECK(x->exists(loc) && x->isRead(loc), "tree", "%s was read but exists() or isRead() say no", loc.c_str()); if (!s->v.list) CHECK(x->get(loc).getValue() == s->v.plain, "tree", "%s is \"%s\" in the tree of parameters instead of \"%s\"", loc.c_str(), x->get(loc).peekValue().c_str(), s->v.plain.c_str()); } } }
        // what must and what must not be refused: values that cannot be, required values for what is not there
        bool bad = false; for (auto & p : all()) for (int w = 0; w < 2; ++w) { const Set * s = last(w, p); if (s && s->v.bad) bad = true; }
        std::map<std::pair<int, Strs>, std::vector<const Set *>> gh; for (int w = 0; w < 2; ++w) for (auto & s : sets[w]) if (s.ghost) gh[{w, s.path}].push_back(&s); bool must = false, may = false; for (auto & g : gh) { bool any = false; for (auto & s : sets[g.first.first]) if (!s.ghost && covers(s.path, g.first.second)) any = true; if (any) { may = true; continue; } /* another setting covers it as well */ for (auto * s : g.second) any |= s->req && !s->opt; if (!any) continue;
            if (g.second.back()->opt) { bool same = true; for (auto * s : g.second) same &= s->file == g.second.back()->file; if (same) { c.probe("flagged optional"); continue; } } else if (g.second.back()->req) must = true;
            may = true; }
        if (bad) late = false; // addChild() is noexcept: a set that is attached with a value that cannot be ends the process
        boom = false; try { build(); } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        CHECK(boom == bad, bad ? "accepted" : "exception", bad ? "a value that cannot be was accepted" : "the simulation was not built: %.400s", msg.c_str()); c.nontrivial = true; if (bad) { c.probe("impossible value refused"); return; }
        boom = false; try { sim->finalizeTree(); } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (must) { CHECK(boom, "unread", "a required parameter that nothing has was ignored"); c.probe("required parameter that nothing has"); return; }
        if (may && boom) return;
        CHECK(!boom, "exception", "the simulation was not finalized: %.400s", msg.c_str());
        std::map<std::string, std::string> got;
        for (auto & u : units) for (int l = 0; l < NL; ++l) { Strs p = full(*u, l); const Set * s = last(0, p), * a = last(1, p); std::string loc = join(p, 0, p.size()), d = a ? a->v.is : builtin(l), v = s ? s->v.is : d, g = get(*u->ps, l, true); CHECK(g == d, "default", "the default of %s is %s instead of %s", loc.c_str(), g.c_str(), d.c_str()); g = get(*u->ps, l, false); CHECK(g == v, "value", "%s is %s instead of %s", loc.c_str(), g.c_str(), v.c_str()); got[loc] = g; auto * pb = u->ps->getParameter(LEAF[l]); CHECK(pb->isDefault() == (v == d), "default", "%s isDefault() is %d", loc.c_str(), pb->isDefault()); c.log("%s %s", loc.c_str(), g.c_str()); if (s && a) c.probe("architecture overridden"); if (s && wild(join(s->path, 0, s->path.size()))) c.probe("value by pattern"); ++c.sim_time; }
        // what was used is written down, and gives the same simulation again
        std::string out = file("final.yaml"); bool io = plan.c("io") % 2, fullup = plan.c("full"); iof::wf.fd = -2; iof::wf.s = (uint64_t)plan.c("io"); boom = false;
        try { sparta::ConfigEmitter::YAML em(out, plan.c("desc")); iof::wf.on = io; iof::wf.full = fullup; em.addParameters(sim->getRoot()->getSearchScope(), nullptr); } catch (std::exception & e) { boom = true; msg = e.what(); }
        iof::wf.on = iof::wf.full = false; if (iof::wf.n) c.fault("short or interrupted write", iof::wf.n); if (fullup) c.fault("disk full");
        CHECK(!fullup || boom, "write", "the configuration could not be written, and nobody was told"); if (boom) { CHECK(fullup, "write", "the configuration was not written: %.300s", msg.c_str()); c.probe("full disk noticed"); return; }
        if (c.trace) { std::ifstream f(out); std::stringstream t; t << f.rdbuf(); printf("  final:\n%s", t.str().c_str()); }
        undo(); cfg.reset(new sparta::app::SimulationConfiguration()); cfg->addConfigSearchPath(dir); boom = false; try { cfg->processConfigFile("", out, true); build(); sim->finalizeTree(); } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        CHECK(!boom, "final", "the configuration that was written is refused: %.400s", msg.c_str());
        for (auto & u : units) for (int l = 0; l < NL; ++l) { Strs p = full(*u, l); std::string loc = join(p, 0, p.size()), g = get(*u->ps, l, false); CHECK(g == got[loc], "final", "%s was %s and is %s with the configuration that was written", loc.c_str(), got[loc].c_str(), g.c_str()); }
    }
    Set make(const Op & o, const Strs & pre, bool cmd) {
        Set s; Rng r((uint64_t)o.arg(2) + 3); std::string u = UNIT[(size_t)o.arg(0) % NU], pr = join(pre, 0, pre.size()); int l = (int)(o.arg(1) % NL); char t = LEAF[l][0]; std::string leaf = LEAF[l]; s.ghost = o.arg(3) % 97 == 5 && !wild(pr); s.opt = false; s.req = true;
        if (s.ghost) { u = UNIT[(size_t)o.arg(0) % 4]; if (pr == "top.n0") u = ""; if (r.p(40)) leaf = r.p(50) ? "g0" : "g1"; else { if (pr == "top.n0") u = "q0"; else u = r.p(50) ? "q0" : "q1"; } s.opt = !cmd && r.p(25); }
        else if (r.p(10) && t != 's') leaf = std::string(1, t) + (r.p(50) ? "*" : "?"); if (!s.ghost && leaf[0] == 'u' && wild(leaf)) t = 'u';
        s.path = pre; if (pre.empty()) s.path.push_back(!s.ghost && r.p(5) ? "t*" : "top");
        if (pr == "top.n*" || pr == "top.*") {} else if (pr == "top.n0") { if (!u.empty() && (s.ghost ? u[0] == 'q' : r.p(30))) s.path.push_back(s.ghost ? u : r.p(50) ? "k0" : "*"); } else for (auto & x : split(u)) s.path.push_back(x);
        s.path.push_back("params"); s.path.push_back(leaf); s.v = value(t, (uint64_t)o.arg(2)); if (s.ghost) { s.v = value('u', 5); s.v.bad = false; } return s; }
};
void Sim::buildTree_() {
    for (const char * q : {"n0", "n1", "m0", "n0.k0"}) { w->units.emplace_back(new World::Unit); auto & u = *w->units.back(); u.path = split(q); sparta::TreeNode * par = getRoot(); if (u.path.size() > 1) par = w->units[0]->n.get();
        u.n.reset(new sparta::TreeNode(par, u.path.back(), "a unit")); if (w->late && u.path[0] == "n1") { u.ps.reset(new PS(nullptr)); u.n->addChild(u.ps.get()); } else u.ps.reset(new PS(u.n.get())); } }
void gen(Rng & r, Plan & p, bool th) {
    p.cfg["io"] = r.range(1, 1 << 20); p.cfg["full"] = r.p(4); p.cfg["late"] = r.p(30); p.cfg["desc"] = r.p(30); int un = (int)r.range(1, NU), ln = (int)r.range(1, NL), l0 = (int)r.range(0, NL - 1); bool ghosts = r.p(25), arch = false;
    auto args = [&](const char * k) { int64_t st = r.range(0, 1 << 20); if (!ghosts) while (st % 97 == 5) ++st; else if (r.p(15)) st = st / 97 * 97 + 5; p.add(k, {r.range(0, NU - 1) % (r.p(70) ? un : NU), (l0 + r.range(0, ln - 1)) % NL, r.range(0, 1 << 28), st}); };
    for (int i = 0, m = (int)r.range(1, th ? 12 : 7); i < m; ++i) { if (r.p(35)) { for (int j = 0, n = (int)r.range(1, 4); j < n; ++j) args("p"); continue; } bool a = !arch && r.p(25); arch |= a; p.add(a ? "a" : "f", {r.p(50) ? 0 : r.range(0, 4), r.range(0, 1)}); for (int j = 0, n = (int)r.range(0, 10); j < n; ++j) args("e"); }
}
void run(const Plan & p, Ctx & c) { af::Lay lay(11 + (uint64_t)p.c("io")); runWorld<World>(p, c); }
Register R([] {
    Harness h; h.property = "C30"; h.technique = "deterministic simulation: seeded configurations - files with includes, patterns and comments, an architecture, single parameters - of a whole simulation, against a model in which the last assignment that matches wins; the final configuration is written with short, interrupted and refused writes and used again";
    h.rule = "plan = a history of assignments from files, an architecture and the command line, values of every kind, and the faults of the device written to; non-trivial: the simulation was built or refused";
    h.real = "sparta::app::Simulation and its configuration, YAML parser and emitter, trees of parameters, parameter sets, file streams of the C++ library"; h.stub = "write() and writev() may be short, interrupted or refused; the watchdog thread is disabled"; h.measure = "hash of the event log";
    h.quick_runs = 10000; h.thorough_runs = 1000000; h.gen = gen; h.run = run; return h; }());
} // namespace
