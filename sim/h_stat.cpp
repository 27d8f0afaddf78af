// C20: counters, cycle counters, context counters, histograms, statistic definitions and instances, reports.
// Simulated devices change them in events on several clocks; windows open and close inside and between ticks.
#include "lane.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/CycleCounter.hpp"
#include "sparta/statistics/ReadOnlyCounter.hpp"
#include "sparta/statistics/ContextCounter.hpp"
#include "sparta/statistics/WeightedContextCounter.hpp"
#include "sparta/statistics/Histogram.hpp"
#include "sparta/statistics/BasicHistogram.hpp"
#include "sparta/statistics/CycleHistogram.hpp"
#include "sparta/statistics/StateHistogram.hpp"
#include "sparta/statistics/EnumHistogram.hpp"
#include "sparta/statistics/EnumCycleHistogram.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/statistics/Expression.hpp"
#include "sparta/report/Report.hpp"
#include "sparta/utils/Enum.hpp"
#include <cmath>

enum class DstSt : uint32_t { __FIRST = 0, A = 0, B, C, D, __LAST };
inline std::ostream & operator<<(std::ostream & o, const DstSt & s) { return o << "ABCD?"[(int)s]; }
template<> const std::unique_ptr<std::string[]> sparta::utils::Enum<DstSt>::names_(new std::string[(size_t)DstSt::__LAST + 1]);
static sparta::utils::Enum<DstSt> DstStType(DstSt::A, "A", DstSt::B, "B", DstSt::C, "C", DstSt::D, "D");

namespace {
typedef sparta::statistics::expression::Expression Ex; typedef sparta::StatisticInstance SI;
bool eq(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
// expression node of the model
struct EN { char t = 'k'; int f = 0; double v = 0; int id = -1; std::vector<EN> k; };
struct MI;
struct EI { const EN * n = nullptr; std::vector<EI> k; std::vector<MI> sub; };
struct MI { int kind = 0, id = -1; bool cum = false, has = false, ended = false; double init = 0, res = NAN; Tick st = 0, en = 0; EI ex; }; // kind 0 counter, 1 definition, 2 free expression
double if_(double a, double b, double d) { return a != 0 ? b : d; } double ifnan_(double a, double b) { return std::isnan(a) || std::isinf(a) ? b : a; }
struct UF { const char * n; double (*f)(double); };
const UF UFS[] = {{"abs", [](double x) { return std::fabs(x); }}, {"fabs", [](double x) { return std::fabs(x); }}, {"ceil", [](double x) { return std::ceil(x); }}, {"floor", [](double x) { return std::floor(x); }}, {"round", [](double x) { return std::round(x); }}, {"trunc", [](double x) { return std::trunc(x); }},
    {"sqrt", [](double x) { return std::sqrt(x); }}, {"cbrt", [](double x) { return std::cbrt(x); }}, {"isnan", [](double x) { return (double)std::isnan(x); }}, {"isinf", [](double x) { return (double)std::isinf(x); }}, {"exp2", [](double x) { return std::exp2(x); }}, {"log2", [](double x) { return std::log2(x); }}, {"ln", [](double x) { return std::log(x); }},
    {"log10", [](double x) { return std::log10(x); }}, {"exp", [](double x) { return std::exp(x); }}, {"sin", [](double x) { return std::sin(x); }}, {"cos", [](double x) { return std::cos(x); }}, {"tan", [](double x) { return std::tan(x); }}, {"atan", [](double x) { return std::atan(x); }}, {"tanh", [](double x) { return std::tanh(x); }}, {"logb", [](double x) { return std::logb(x); }}};
struct BF { const char * n; double (*f)(double, double); };
const BF BFS[] = {{"min", [](double a, double b) { return std::min(a, b); }}, {"max", [](double a, double b) { return std::max(a, b); }}, {"pow", [](double a, double b) { return std::pow(a, b); }}, {"ifnan", ifnan_}, {"fmod", [](double a, double b) { return std::fmod(a, b); }}, {"remainder", [](double a, double b) { return std::remainder(a, b); }}, {"hypot", [](double a, double b) { return std::hypot(a, b); }}, {"atan2", [](double a, double b) { return std::atan2(a, b); }},
    {"is_greater", [](double a, double b) { return (double)(a > b); }}, {"is_lesser", [](double a, double b) { return (double)(a < b); }}, {"is_equal", [](double a, double b) { return (double)(a == b); }}, {"is_not_equal", [](double a, double b) { return (double)(a != b); }}, {"is_greater_equal", [](double a, double b) { return (double)(a >= b); }}, {"is_lesser_equal", [](double a, double b) { return (double)(a <= b); }},
    {"logical_and", [](double a, double b) { return (double)(a && b); }}, {"logical_or", [](double a, double b) { return (double)(a || b); }}};
const size_t NU = sizeof UFS / sizeof *UFS, NB = sizeof BFS / sizeof *BFS;

struct StatWorld : PBase {
    using PBase::PBase;
    typedef Lane<StatWorld> L;
    struct Leaf { std::string local, full; int lane, beh; std::function<uint64_t()> cur; const sparta::CounterBase * node = nullptr; bool own = true; };
    struct Def { std::string local, full; int lane; EN en; const sparta::TreeNode * node = nullptr; bool own = true; std::vector<int> subs; std::vector<std::string> subn; };
    struct Cyc { sparta::CycleCounter * c; int lane; uint64_t count = 0, from = 0, mult = 1; bool on = false; };
    struct Ctr { sparta::Counter * c; int lane, beh; uint64_t v = 0; };
    struct CtxC { std::unique_ptr<sparta::ContextCounter<sparta::Counter>> cc; std::unique_ptr<sparta::WeightedContextCounter<sparta::Counter>> wc; int lane; std::vector<uint64_t> v; std::vector<double> w; };
    struct His { std::unique_ptr<sparta::Histogram> h; std::unique_ptr<sparta::HistogramStandalone> s; int lane; uint64_t lo, hi, n; size_t nb; uint64_t total = 0, sum = 0, uf = 0, of = 0; std::vector<uint64_t> b; std::multiset<uint64_t> mx; size_t nmx = 0; };
    struct CHis { std::unique_ptr<sparta::CycleHistogram> h; std::unique_ptr<sparta::CycleHistogramStandalone> s; std::unique_ptr<sparta::StateHistogram<DstSt>> st; int lane; uint64_t lo, hi, n, idle; size_t nb; std::vector<uint64_t> acc; uint64_t cur, from = 0, mx = 0; };
    struct EHis { std::unique_ptr<sparta::EnumHistogram<DstSt>> h; int lane; uint64_t total = 0, b[4] = {0, 0, 0, 0}; };
    struct BHis { std::unique_ptr<sparta::BasicHistogram<int>> h; int lane; std::vector<int> bk; std::vector<uint64_t> b; };
    struct Inst { std::unique_ptr<SI> si; MI m; };
    struct MR { std::string name; std::vector<std::pair<std::string, MI>> st; std::list<MR> sub; Tick s = 0, e = sparta::Scheduler::INDEFINITE; };
    struct Rep { std::unique_ptr<sparta::Report> r; MR m; };
    std::vector<std::unique_ptr<L>> lanes; std::vector<std::unique_ptr<sparta::StatisticSet>> ss; std::deque<Leaf> leaf; std::deque<Def> def; std::vector<std::unique_ptr<sparta::StatisticDef>> rdefs;
    std::deque<Cyc> cycs; std::deque<Ctr> ctrs; std::deque<CtxC> ctxs; std::deque<His> hiss; std::deque<CHis> chs; std::deque<EHis> ehs; std::deque<BHis> bhs; std::deque<std::pair<uint64_t, std::unique_ptr<sparta::ReadOnlyCounter>>> ros;
    std::deque<Inst> insts; std::deque<Rep> reps; std::deque<EN> frees; std::vector<Op> ops; bool dead = false; uint64_t looks = 0; int nobj = 0;

    uint64_t el(int lane) { return lanes[lane]->clk->elapsedCycles(); }
    // ---- model of windows
    bool gone(const MI & m) { return dead && (m.kind == 0 ? leaf[m.id].own : m.kind == 1 ? def[m.id].own : false); }
    EI realize(const EN & n) { EI e; e.n = &n; if (n.t == 'l') e.sub.push_back(mk(0, n.id)); else if (n.t == 'd') e.sub.push_back(mk(1, n.id)); for (auto & k : n.k) e.k.push_back(realize(k)); return e; }
    MI mk(int kind, int id) { MI m; m.kind = kind; m.id = id; if (kind == 1) m.ex = realize(def[id].en); start(m); return m; }
    void start(EI & e) { for (auto & s : e.sub) start(s); for (auto & k : e.k) start(k); }
    void start(MI & m) { m.st = sched->getElapsedTicks(); m.en = sparta::Scheduler::INDEFINITE; m.ended = false; m.res = NAN; double v = 0; if (m.kind == 0) v = (double)leaf[m.id].cur(); else start(m.ex); if (!(m.cum && m.has)) { m.init = v; m.has = true; } }
    void end(EI & e) { for (auto & s : e.sub) end(s); for (auto & k : e.k) end(k); }
    void end(MI & m) { m.en = sched->getElapsedTicks(); if (m.kind) end(m.ex); m.ended = false; m.res = value(m); m.ended = true; }
    void accum(EI & e) { for (auto & s : e.sub) accum(s); for (auto & k : e.k) accum(k); }
    void accum(MI & m) { m.cum = true; accum(m.ex); }
    double value(const MI & m) { if (m.ended) return m.res; if (gone(m)) return NAN; if (m.kind) return eval(m.ex); auto & l = leaf[m.id]; double v = (double)l.cur(); return l.beh == 2 ? v : v - m.init; }
    double raw(const MI & m) { if (gone(m)) return NAN; if (m.kind) return eval(m.ex); return (double)leaf[m.id].cur(); }
    double eval(const EI & e) {
        const EN & n = *e.n; double a[3] = {0, 0, 0}; for (size_t i = 0; i < e.k.size(); ++i) a[i] = eval(e.k[i]);
        switch (n.t) {
        case 'k': return n.v;
        case 'l': case 'd': return value(e.sub[0]);
        case 'n': return -a[0];
        case 'p': return a[0];
        case '+': return a[0] + a[1];
        case '-': return a[0] - a[1];
        case '*': return a[0] * a[1];
        case '/': return a[0] / a[1];
        case '^': return std::pow(a[0], a[1]);
        case 'u': return UFS[n.f].f(a[0]);
        case 'b': return BFS[n.f].f(a[0], a[1]);
        default: return if_(a[0], a[1], a[2]);
        }
    }
    // ---- expressions
    bool ref(const std::string & local, const std::string & full, int lane, int ctx, std::string & out) { if (ctx < 0) { if (full.empty()) return false; out = full; return true; } if (lane >= 0 && lane != ctx) return false; if (local.empty()) return false; out = local; return true; }
    EN egen(Rng & r, int depth, int ctx) {
        EN n; int w = depth <= 0 ? (int)r.below(3) : (int)r.below(12); std::string s;
        if (w < 3 || depth <= 0) {
            if (w == 0) { n.v = r.p(50) ? (double)r.range(0, 9) : r.p(50) ? r.range(1, 400) / 8.0 : 1e3 * r.range(1, 5); return n; }
            for (int i = 0; i < 12; ++i) { if (w == 2 && !def.empty() && r.p(60)) { int d = (int)r.below(def.size()); if (ref(def[d].local, def[d].full, def[d].lane, ctx, s)) { n.t = 'd'; n.id = d; return n; } } else if (!leaf.empty()) { int d = (int)r.below(leaf.size()); if (ref(leaf[d].local, leaf[d].full, leaf[d].lane, ctx, s)) { n.t = 'l'; n.id = d; return n; } } }
            n.v = 3; return n;
        }
        static const char T[] = {'+', '-', '*', '/', '+', '-', 'n', 'u', 'b'}; int i = (int)r.below(12); n.t = i < 9 ? T[i] : i == 9 ? '^' : i == 10 ? '?' : 'p';
        if (n.t == 'u') n.f = (int)r.below(NU); if (n.t == 'b') n.f = (int)r.below(NB);
        int k = n.t == '?' ? 3 : n.t == 'n' || n.t == 'p' || n.t == 'u' ? 1 : 2; for (int j = 0; j < k; ++j) n.k.push_back(egen(r, depth - 1, ctx));
        return n;
    }
    static int prec(const EN & n) { return n.t == '+' || n.t == '-' ? 1 : n.t == '*' || n.t == '/' ? 2 : n.t == '^' ? 3 : 4; }
    std::string text(const EN & n, int ctx) {
        auto wrap = [&](const EN & k, int min) { std::string s = text(k, ctx); return prec(k) < min ? "(" + s + ")" : s; }; std::string s; char b[64];
        switch (n.t) {
        case 'k': snprintf(b, sizeof b, "%g", n.v); return b;
        case 'l': ref(leaf[n.id].local, leaf[n.id].full, leaf[n.id].lane, ctx, s); return s;
        case 'd': ref(def[n.id].local, def[n.id].full, def[n.id].lane, ctx, s); return s;
        case 'n': return "-" + wrap(n.k[0], 4);
        case 'p': return "+" + wrap(n.k[0], 4);
        case '+': case '-': return wrap(n.k[0], 1) + " " + n.t + " " + wrap(n.k[1], 2);
        case '*': case '/': return wrap(n.k[0], 2) + n.t + wrap(n.k[1], 3);
        case '^': return wrap(n.k[0], 4) + "**" + wrap(n.k[1], 3);
        case 'u': return std::string(UFS[n.f].n) + "(" + text(n.k[0], ctx) + ")";
        case 'b': return std::string(BFS[n.f].n) + "(" + text(n.k[0], ctx) + ", " + text(n.k[1], ctx) + ")";
        default: return "cond(" + text(n.k[0], ctx) + "," + text(n.k[1], ctx) + "," + text(n.k[2], ctx) + ")";
        }
    }
    sparta::TreeNode * ctxnode(int ctx) { return ctx < 0 ? (sparta::TreeNode *)rtn.get() : ss[ctx].get(); }
    const sparta::TreeNode * nodeOf(int kind, int id) { return kind ? def[id].node : leaf[id].node; }

    // ---- checks
    void lookInst(const SI & si, MI & m, const char * w, const char * what) {
        bool rev = m.ended && m.en < m.st; if (rev) return;
        double v = si.getValue(), x = value(m);
        CHECK(eq(v, x), m.ended ? "instance-frozen" : "instance-value", "%s: %s of %s (ticks %lu..%s) is %.17g, expected %.17g", w, what, m.kind == 0 ? leaf[m.id].full.c_str() : m.kind == 1 ? def[m.id].full.c_str() : "an expression", (ul)m.st, m.ended ? std::to_string(m.en).c_str() : "now", v, x);
        CHECK(m.kind == 2 || si.getStart() == m.st, "instance-range", "%s: %s starts at %lu instead of %lu", w, what, (ul)si.getStart(), (ul)m.st);
        CHECK(si.getEnd() == m.en, "instance-range", "%s: %s ends at %lu instead of %lu", w, what, (ul)si.getEnd(), (ul)m.en);
        if (m.kind != 2) { double r = si.getRawLatest(), y = raw(m); CHECK(eq(r, y), "instance-raw", "%s: the latest value is %.17g, expected %.17g", w, r, y); CHECK(m.kind || dead || eq(si.getInitial(), m.init), "instance-initial", "%s: initial value %.17g, expected %.17g", w, si.getInitial(), m.init); }
    }
    void lookReport(sparta::Report & r, MR & m, const char * w) {
        auto & st = r.getStatistics(); CHECK(st.size() == m.st.size() && r.getNumStatistics() == m.st.size(), "report-entries", "%s: report %s has %zu statistics instead of %zu", w, m.name.c_str(), st.size(), m.st.size());
        CHECK(r.getName() == m.name, "report-name", "%s: report name %s instead of %s", w, r.getName().c_str(), m.name.c_str()); CHECK(r.getStart() == m.s && r.getEnd() == m.e, "report-range", "%s: report range %lu..%lu instead of %lu..%lu", w, (ul)r.getStart(), (ul)r.getEnd(), (ul)m.s, (ul)m.e);
        for (size_t i = 0; i < st.size(); ++i) { CHECK(st[i].first == m.st[i].first, "report-entries", "%s: entry %zu is named '%s' instead of '%s'", w, i, st[i].first.c_str(), m.st[i].first.c_str()); lookInst(*st[i].second, m.st[i].second, w, "report entry");
            if (!st[i].first.empty()) CHECK(r.hasStatistic(st[i].first) && &r.getStatistic(st[i].first) == st[i].second.get(), "report-lookup", "%s: looking up '%s' in the report does not give its entry", w, st[i].first.c_str()); }
        CHECK(r.getNumSubreports() == m.sub.size(), "report-subreports", "%s: %u subreports instead of %zu", w, r.getNumSubreports(), m.sub.size()); size_t i = 0; for (auto & s : m.sub) { auto & q = r.getSubreport(i++); CHECK(q.getParent() == &r, "report-parent", "%s: a subreport's parent is not its report", w); lookReport(q, s, w); }
        for (auto & kv : r.getSubStatistics()) for (auto p : kv.second) { bool f = false; for (auto & s : st) if (s.second.get() == p) f = true; CHECK(f, "report-substat", "%s: a sub-statistic of the report is not one of its entries", w); }
    }
    void look(const char * w) {
        ++looks;
        for (auto & l : leaf) if (l.node) CHECK(l.node->get() == l.cur(), "counter", "%s: %s is %lu instead of %lu", w, l.full.c_str(), (ul)l.node->get(), (ul)l.cur());
        for (auto & i : insts) lookInst(*i.si, i.m, w, "an instance");
        for (auto & r : reps) lookReport(*r.r, r.m, w);
        for (auto & h : chs) { uint64_t sum = 0; for (size_t b = 0; b < h.acc.size(); ++b) sum += chbin(h, b); uint64_t tot = std::max(el(h.lane), h.from); CHECK(sum == tot || sum == el(h.lane), "model", "model lost cycles"); }
        for (auto & x : ctxs) { if (x.wc) { double a = 0; for (size_t i = 0; i < x.v.size(); ++i) a += (double)x.v[i] * x.w[i]; a /= (double)x.v.size(); double b = x.wc->calculateWeightedAverage(); CHECK(eq(a, b), "weighted-average", "%s: weighted average %.17g instead of %.17g", w, b, a); }
            auto & q = x.wc ? *x.wc : *x.cc; CHECK(q.numContexts() == x.v.size() && (size_t)(q.end() - q.begin()) == x.v.size(), "contexts", "%s: %u contexts instead of %zu", w, q.numContexts(), x.v.size()); for (size_t i = 0; i < x.v.size(); ++i) CHECK(q.begin()[i].get() == x.v[i] && &q.context(i) == q.begin() + i, "contexts", "%s: context %zu differs", w, i); }
        for (auto & h : hiss) { sparta::HistogramBase & q = h.h ? (sparta::HistogramBase &)*h.h : *h.s; uint64_t t = 0; for (auto x : h.b) t += x; CHECK(q.getAggValues().get() == t + h.uf + h.of, "histogram-total", "%s: total %lu of %lu values", w, (ul)q.getAggValues().get(), (ul)(t + h.uf + h.of)); CHECK(q.getNumBins() == h.nb, "histogram-bins", "%s: %u bins", w, q.getNumBins());
            std::vector<double> pr = q.recomputeRegularBinProbabilities(); double mean = (double)h.total / (double)(h.nb + 2), acc = std::pow((double)h.uf - mean, 2) + std::pow((double)h.of - mean, 2); for (size_t i = 0; i < h.nb; ++i) { acc += std::pow((double)h.b[i] - mean, 2); CHECK(eq(pr[i], (double)h.b[i] / (double)h.total), "histogram-probability", "%s: probability of bin %zu", w, i); } CHECK(eq(q.getMeanBinCount(), mean) && std::fabs(q.getStandardDeviation() - std::sqrt(acc / (double)(h.nb + 1))) <= 1e-6 * (1 + mean), "histogram-moments", "%s: mean %.17g deviation %.17g", w, q.getMeanBinCount(), q.getStandardDeviation()); }
        for (auto & h : chs) if (!h.st) { sparta::CycleHistogramBase & q = h.h ? (sparta::CycleHistogramBase &)*h.h : *h.s; double s = 0; for (size_t i = 0; i < h.acc.size(); ++i) s += (double)chbin(h, i); CHECK(eq(q.getMeanBinCount(), s / (double)h.acc.size()), "histogram-moments", "%s: mean bin count", w); CHECK(q.getRegularBin().size() == h.nb, "histogram-bins", "%s: %zu bins", w, q.getRegularBin().size()); }
        if (dead) return;
        if (looks % 16 == 0) for (auto & r : reps) { std::stringstream o; r.r->dump(o); std::string ln; std::getline(o, ln); for (auto & s : r.m.st) { if (!std::getline(o, ln)) FAIL("report-dump", "%s: the report's dump is too short", w); size_t p = ln.rfind(" = "); CHECK(p != std::string::npos && ln.substr(p + 3) == sparta::Report::formatNumber(value(s.second)), "report-dump", "%s: dump line '%s' instead of %.17g", w, ln.c_str(), value(s.second)); if (!s.first.empty()) CHECK(ln.find(s.first) != std::string::npos, "report-dump", "%s: dump line '%s' does not name '%s'", w, ln.c_str(), s.first.c_str()); } }
    }
    // ---- objects
    int addLeaf(const std::string & local, const std::string & full, int lane, int beh, std::function<uint64_t()> f, bool find = true) { leaf.push_back(Leaf{local, full, lane, beh, f}); if (find) { auto n = rtn->getChild(full); leaf.back().node = dynamic_cast<sparta::CounterBase *>(n); CHECK(leaf.back().node && (int)leaf.back().node->getBehavior() == (beh == 0 ? sparta::CounterBase::COUNT_NORMAL : beh == 1 ? sparta::CounterBase::COUNT_INTEGRAL : sparta::CounterBase::COUNT_LATEST), "no-counter", "no counter %s, or another behaviour", full.c_str()); } return (int)leaf.size() - 1; }
    int addDef(const std::string & local, const std::string & full, int lane, EN en) { def.push_back(Def{local, full, lane, std::move(en)}); def.back().node = rtn->getChild(full); CHECK(dynamic_cast<const sparta::StatisticDef *>(def.back().node), "no-stat", "no statistic %s", full.c_str()); return (int)def.size() - 1; }
    static EN lf(int id) { EN n; n.t = 'l'; n.id = id; return n; } static EN bin(char t, EN a, EN b) { EN n; n.t = t; n.k = {a, b}; return n; } static EN num(double v) { EN n; n.v = v; return n; }
    uint64_t chbin(CHis & h, size_t b) { return h.acc[b] + (chidx(h, h.cur) == b && el(h.lane) > h.from ? el(h.lane) - h.from : 0); }
    size_t chidx(CHis & h, uint64_t v) { return v < h.lo ? 0 : v > h.hi ? h.nb + 1 : 1 + (v - h.lo) / h.n; }
    void obj(const Op & o) {
        int ln = (int)((uint64_t)o.arg(0) % lanes.size()); std::string N = "n" + std::to_string(ln), S = N + ".stats."; sparta::StatisticSet * s = ss[ln].get(); sparta::TreeNode * node = lanes[ln]->node.get(); std::string id = std::to_string(nobj++); auto clk = lanes[ln]->clk.get();
        static const sparta::CounterBase::CounterBehavior BEH[] = {sparta::CounterBase::COUNT_NORMAL, sparta::CounterBase::COUNT_INTEGRAL, sparta::CounterBase::COUNT_LATEST}; int beh = (int)((uint64_t)o.arg(2) % 3); uint64_t x = (uint64_t)o.arg(3), y = (uint64_t)o.arg(4), z = (uint64_t)o.arg(5);
        switch (o.arg(1) % 11) {
        case 0: { std::string n = "k" + id; ctrs.push_back(Ctr{&s->createCounter<sparta::Counter>(n, "d", BEH[beh]), ln, beh}); Ctr * C = &ctrs.back(); addLeaf(n, S + n, ln, beh, [C] { return C->v; }); break; }
        case 1: { std::string n = "y" + id; cycs.push_back(Cyc{&s->createCounter<sparta::CycleCounter>(n, "d", BEH[beh % 2], clk), ln}); Cyc * C = &cycs.back(); addLeaf(n, S + n, ln, beh % 2, [this, C] { uint64_t e = el(C->lane); return C->count + (C->on && e > C->from ? (e - C->from) * C->mult : 0); }); break; }
        case 2: { std::string n = "v" + id; ros.emplace_back(x, nullptr); uint64_t * v = &ros.back().first; ros.back().second.reset(new sparta::ReadOnlyCounter(s, n, "d", BEH[beh], v)); addLeaf(n, S + n, ln, beh, [v] { return *v; }); break; }
        case 3: { std::string n = "x" + id; ctxs.emplace_back(); CtxC * C = &ctxs.back(); C->lane = ln; size_t k = 1 + x % 4; C->v.assign(k, 0); C->w.assign(k, 1); const char * cn = "Testing"; if (y % 3 == 0) { C->wc.reset(new sparta::WeightedContextCounter<sparta::Counter>(s, n, "d", k, sparta::Counter::COUNT_NORMAL)); std::vector<double> w; if (z % 4 == 1) w = {(double)(z % 5)}; else if (z % 4 > 1) for (size_t i = 0; i < k; ++i) w.push_back((double)((z >> i) % 7) / 2); C->wc->assignContextWeights(w); if (w.size() == 1) C->w.assign(k, w[0]); else if (!w.empty()) C->w = w; }
            else { cn = "ctx"; C->cc.reset(new sparta::ContextCounter<sparta::Counter>(s, n, "d", k, "ctx", sparta::Counter::COUNT_NORMAL)); }
            EN e; std::vector<int> subs; for (size_t i = 0; i < k; ++i) { std::string q = cn + std::to_string(i); int id2 = addLeaf(n + "." + q, S + n + "." + q, ln, 0, [C, i] { return C->v[i]; }); subs.push_back(id2); e = i ? bin('+', e, lf(id2)) : lf(id2); } int d = addDef(n, S + n, ln, e); def[d].subs = subs; for (size_t i = 0; i < k; ++i) def[d].subn.push_back(n + "_" + cn + std::to_string(i)); break; }
        case 4: case 5: { bool alone = o.arg(1) % 11 == 5; hiss.emplace_back(); His * H = &hiss.back(); H->lane = ln; H->lo = x % 9; H->n = 1u << (y % 3); H->hi = H->lo + 1 + z % 20; H->nb = (H->hi - H->lo) / H->n + 1; H->b.assign(H->nb, 0); H->nmx = y % 4; for (size_t i = 0; i < H->nmx; ++i) H->mx.insert(0); std::string n = "h" + id, P = N + "." + n + ".stats.", lo = "", pre;
            if (alone) { H->s.reset(new sparta::HistogramStandalone(s, n + "_", H->lo, H->hi, (uint32_t)H->n, (uint32_t)H->nmx)); P = S; pre = n + "_"; lo = pre; } else { if (H->nmx) H->h.reset(new sparta::Histogram(node, n, "d", H->lo, H->hi, (uint32_t)H->n, (uint32_t)H->nmx, sparta::InstrumentationNode::VIS_NORMAL, sparta::InstrumentationNode::VIS_NORMAL)); else H->h.reset(new sparta::Histogram(node, n, "d", H->lo, H->hi, (uint32_t)H->n)); }
            auto A = [&](const std::string & q, std::function<uint64_t()> f, int b = 0) { return addLeaf(lo.empty() ? "" : lo + q, P + pre + q, ln, b, f); }; auto D = [&](const std::string & q, EN e) { return addDef(lo.empty() ? "" : lo + q, P + pre + q, ln, e); };
            int t = A("total", [H] { return H->total; }), su = A("sum", [H] { return H->sum; }), u = A("UF", [H] { return H->uf; }), of = A("OF", [H] { return H->of; }); D("UF_probability", bin('/', lf(u), lf(t))); D("OF_probability", bin('/', lf(of), lf(t))); D("average", bin('/', lf(su), lf(t)));
            for (size_t i = 0; i < H->nb; ++i) { std::string q = "bin_" + std::to_string(H->lo + i * H->n) + "_" + std::to_string(std::min(H->hi, H->lo + (i + 1) * H->n - 1)); int b = A(q, [H, i] { return H->b[i]; }); D(q + "_probability", bin('/', lf(b), lf(t))); }
            for (size_t i = 0; i < H->nmx; ++i) A("maxval" + std::to_string(i), [H, i] { auto it = H->mx.begin(); std::advance(it, i); return *it; }, 2); break; }
        case 6: case 7: { bool alone = o.arg(1) % 11 == 7; chs.emplace_back(); CHis * H = &chs.back(); H->lane = ln; H->lo = x % 4 ? 0 : x % 7; H->n = 1u << (y % 3); H->hi = H->lo + 1 + z % 9; H->nb = (H->hi - H->lo) / H->n + 1; H->acc.assign(H->nb + 2, 0); H->idle = (x >> 8) % 3 ? 0 : (x >> 8) % 12; H->cur = H->idle; H->mx = H->idle; std::string n = "z" + id + "q", P = N + "." + n + ".stats.", pre, lo;
            if (alone) { H->s.reset(new sparta::CycleHistogramStandalone(s, clk, n, "d", H->lo, H->hi, H->n, H->idle)); P = S; pre = n + "_"; lo = pre; } else H->h.reset(new sparta::CycleHistogram(node, n, "d", H->lo, H->hi, H->n, H->idle));
            auto A = [&](const std::string & q, std::function<uint64_t()> f, int b = 0) { return addLeaf(lo.empty() ? "" : lo + q, P + pre + q, ln, b, f); }; auto D = [&](const std::string & q, EN e) { return addDef(lo.empty() ? "" : lo + q, P + pre + q, ln, e); };
            int t = A("total", [this, H] { return el(H->lane); }), u = A("UF", [this, H] { return chbin(*H, 0); }), of = A("OF", [this, H] { return chbin(*H, H->nb + 1); }); A(alone ? "max" : "max_value", [H] { return H->mx; }, 2); D("UF_probability", bin('/', lf(u), lf(t))); D("OF_probability", bin('/', lf(of), lf(t)));
            EN wt = bin('*', num((double)H->lo), lf(u)); int last = -1, zero = -1; for (size_t i = 0; i < H->nb; ++i) { uint64_t a = H->lo + i * H->n, b = std::min(H->hi, a + H->n - 1); std::string q = a == b ? (alone ? "count" : "cycle_count") + std::to_string(a) : "bin_" + std::to_string(a) + "_" + std::to_string(b); last = A(q, [this, H, i] { return chbin(*H, i + 1); }); D(q + "_probability", bin('/', lf(last), lf(t))); wt = bin('+', wt, bin('*', num((double)a), lf(last))); if (a == 0) zero = last; }
            wt = bin('+', wt, bin('*', num((double)H->hi), lf(of))); if (H->n == 1) { D("weighted_avg", bin('/', wt, lf(t))); if (H->lo == 0) D("weighted_nonzero_avg", bin('/', wt, bin('-', lf(t), lf(zero)))); else D("weighted_nonzero_avg", bin('/', wt, lf(t))); }
            int f = D("full", bin('+', lf(last), lf(of))); EN fe; fe.t = 'd'; fe.id = f; D("full_probability", bin('/', fe, lf(t))); break; }
        case 8: { chs.emplace_back(); CHis * H = &chs.back(); H->lane = ln; H->lo = 0; H->hi = 3; H->n = 1; H->nb = 4; H->acc.assign(6, 0); H->idle = x % 4; H->cur = H->idle; std::string n = "w" + id, P = N + "." + n + ".stats."; H->st.reset(new sparta::StateHistogram<DstSt>(node, n, "d", (DstSt)H->idle));
            EN t; std::vector<int> b; for (size_t i = 0; i < 4; ++i) { std::string q = std::string("bin_") + "ABCD"[i]; b.push_back(addLeaf("", P + q, ln, 0, [this, H, i] { return chbin(*H, i + 1); })); t = i ? bin('+', t, lf(b[i])) : lf(b[i]); } int d = addDef("", P + "total", ln, t); EN te; te.t = 'd'; te.id = d; for (size_t i = 0; i < 4; ++i) addDef("", P + "bin_" + "ABCD"[i] + "_probability", ln, bin('/', lf(b[i]), te)); break; }
        case 9: { ehs.emplace_back(); EHis * H = &ehs.back(); H->lane = ln; std::string n = "e" + id, P = N + "." + n + ".stats."; H->h.reset(new sparta::EnumHistogram<DstSt>(node, n, "d")); int t = addLeaf("", P + "total", ln, 0, [H] { return H->total; }); for (size_t i = 0; i < 4; ++i) { std::string q = std::string("bin_") + "ABCD"[i] + "_" + std::to_string(i); int b = addLeaf("", P + q, ln, 0, [H, i] { return H->b[i]; }); addDef("", P + q + "_probability", ln, bin('/', lf(b), lf(t))); } break; }
        case 10: { bhs.emplace_back(); BHis * H = &bhs.back(); H->lane = ln; int v = -(int)(x % 20); for (size_t i = 0; i < 1 + y % 5; ++i) { H->bk.push_back(v); v += 1 + (int)((z >> (3 * i)) % 8); } H->b.assign(H->bk.size(), 0); std::string n = "b" + id; H->h.reset(new sparta::BasicHistogram<int>(*s, n, "d", H->bk)); for (size_t i = 0; i < H->bk.size(); ++i) { std::string q = n + (H->bk[i] < 0 ? "_n" + std::to_string(-H->bk[i]) : "_" + std::to_string(H->bk[i])); addLeaf(q, S + q, ln, 0, [H, i] { return H->b[i]; }); } break; }
        }
    }
    void mkdef(const Op & o) {
        int ctx = o.arg(1) % 2 ? -1 : (int)((uint64_t)o.arg(0) % lanes.size()), ln = (int)((uint64_t)o.arg(0) % lanes.size()); Rng r((uint64_t)o.arg(2)); EN e = egen(r, (int)(o.arg(3) % 5), ctx); std::string t = text(e, ctx), n = "d" + std::to_string(nobj++); c.log("def %s = %s", n.c_str(), t.c_str());
        // parsed when first used, or built beforehand
        if (o.arg(4) % 3 == 0) rdefs.emplace_back(new sparta::StatisticDef(ss[ln].get(), n, "d", ctxnode(ctx), Ex(t, ctxnode(ctx)))); else rdefs.emplace_back(new sparta::StatisticDef(ss[ln].get(), n, "d", ctxnode(ctx), t)); addDef(n, "n" + std::to_string(ln) + ".stats." + n, ln, e);
    }
    // ---- operations
    template<class T> T * pick(std::deque<T> & d, int lane, uint64_t x) { std::vector<T *> v; for (auto & e : d) if (e.lane == lane) v.push_back(&e); return v.empty() ? nullptr : v[x % v.size()]; }
    MI clone(const MI & m) { return m; }
    Inst & newInst() { if (insts.size() >= 10) insts.pop_front(); insts.emplace_back(); return insts.back(); }
    void repop(Rep & R, uint64_t code, uint64_t x, uint64_t y) {
        auto sub = [&](uint64_t k, sparta::Report *& r, MR *& m) { r = R.r.get(); m = &R.m; while (k % 2 && !m->sub.empty()) { size_t i = (k >> 1) % m->sub.size(); r = &r->getSubreport(i); auto it = m->sub.begin(); std::advance(it, i); m = &*it; k >>= 3; } };
        sparta::Report * r; MR * m; sub(y, r, m); std::string name = x % 3 ? "s" + std::to_string(y % 7) : ""; bool dup = false; for (auto & s : m->st) if (!name.empty() && s.first == name) dup = true;
        auto into = [&](MI i) { m->st.emplace_back(name, std::move(i)); };
        switch (code) {
        case 0: case 1: { if (m->st.size() > 8) return; int kind = y % 2 && !def.empty(); uint64_t n = kind ? def.size() : leaf.size(); int id = (int)((x >> 2) % n); auto node = nodeOf(kind, id); if (!node) return; const std::string & full = kind ? def[id].full : leaf[id].full; bool t;
            switch ((x >> 1) % 4) { case 0: t = refused([&] { r->add(node, name); }); break; case 1: t = refused([&] { if (kind) r->add(const_cast<sparta::StatisticDef *>(dynamic_cast<const sparta::StatisticDef *>(node)), name); else r->add(const_cast<sparta::CounterBase *>(dynamic_cast<const sparta::CounterBase *>(node)), name); }); break; case 2: t = refused([&] { r->add(full, name); }); break; default: { SI si(node); MI mm = mk(kind, id); if (kind) { std::set<std::string> have; for (auto & s : m->st) have.insert(s.first); have.insert(name); for (auto & q : def[id].subn) if (have.count(q)) return; if (m->st.size() + def[id].subn.size() > 9) return; }
                t = refused([&] { r->add(si, name); }); if (!t) { into(mm); if (kind) for (size_t i = 0; i < def[id].subs.size(); ++i) m->st.emplace_back(def[id].subn[i], mk(0, def[id].subs[i])); } CHECK(t == dup, "report-duplicate", "adding '%s' to a report was %s", name.c_str(), t ? "refused" : "accepted"); return; } }
            CHECK(t == dup, "report-duplicate", "adding '%s' to a report was %s", name.c_str(), t ? "refused" : "accepted"); if (!t) into(mk(kind, id)); break; }
        case 2: { if (m->st.size() > 8 || dup) return; Rng q(x); frees.push_back(egen(q, 2, -1)); std::string t = "0+" + text(frees.back(), -1); frees.back() = bin('+', num(0), frees.back()); const EN & top = frees.back();
            if (prec(top.k[1]) == 1) t = "0+(" + text(top.k[1], -1) + ")"; r->add(t, name); MI i; i.kind = 2; i.ex = realize(top); i.en = sparta::Scheduler::INDEFINITE; into(i); break; }
        case 3: r->start(); rstart(*m); break;
        case 4: r->end(); rend(*m); break;
        case 5: r->accumulateStats(); raccum(*m); break;
        case 6: if (m->sub.size() < 2 && depth(R.m) < 3) { std::string sn = "sub" + std::to_string(x % 5); r->addSubreport(sn); m->sub.emplace_back(); m->sub.back().name = sn; m->sub.back().s = 0; /* a subreport made from a name starts at 0 as coded */ } break;
        case 7: { Rep & Q = reps[x % reps.size()]; if (&Q == &R || m->sub.size() >= 2 || depth(R.m) + depth(Q.m) > 4) return; r->addSubreport(*Q.r); m->sub.push_back(Q.m); break; }
        case 8: if (reps.size() < 4) { reps.emplace_back(); reps.back().r.reset(new sparta::Report(*r)); reps.back().m = *m; } break; // copy
        case 9: { Rep & Q = reps[x % reps.size()]; if (&Q == &R) return; c.log("assign report"); *Q.r = *R.r; Q.m = R.m; break; }
        case 10: { std::unique_ptr<sparta::Report> n(new sparta::Report(std::move(*R.r))); R.r = std::move(n); break; }
        case 11: if (!m->sub.empty()) { std::string sn = m->sub.begin()->name; if (x % 2) { uint32_t k = 0; for (auto it = m->sub.begin(); it != m->sub.end();) if (it->name == sn) { it = m->sub.erase(it); ++k; } else ++it; uint32_t g = r->removeSubreport(sn); CHECK(g == k, "report-subreports", "removing subreports '%s' removed %u instead of %u", sn.c_str(), g, k); } else { uint32_t g = r->removeSubreport(r->getSubreport(0)); CHECK(g == 1, "report-subreports", "removing a subreport removed %u", g); m->sub.pop_front(); } } break;
        }
    }
    size_t depth(const MR & m) { size_t d = 0; for (auto & s : m.sub) d = std::max(d, depth(s)); return d + 1; }
    void rstart(MR & m) { m.s = sched->getElapsedTicks(); m.e = sparta::Scheduler::INDEFINITE; for (auto & s : m.st) start(s.second); for (auto & q : m.sub) rstart(q); }
    void rend(MR & m) { m.e = sched->getElapsedTicks(); for (auto & s : m.st) end(s.second); for (auto & q : m.sub) rend(q); }
    void raccum(MR & m) { for (auto & s : m.st) accum(s.second); for (auto & q : m.sub) raccum(q); }
    void siop(uint64_t code, uint64_t x, uint64_t y) {
        if (code == 0 || insts.empty()) { int kind = y % 5 >= 3 ? 2 : y % 5 >= 1 && !def.empty(); if (kind < 2) { size_t n = kind ? def.size() : leaf.size(); if (!n) return; int id = (int)(x % n); auto node = nodeOf(kind, id); if (!node) return; Inst & I = newInst(); if (y % 2) { std::vector<const sparta::TreeNode *> used; I.si.reset(new SI(node, used)); } else I.si.reset(new SI(node)); I.m = mk(kind, id); return; }
            Rng q(x); int ctx = y % 2 ? -1 : (int)(x % lanes.size()); frees.push_back(egen(q, 3, ctx)); std::string t = text(frees.back(), ctx); c.log("expr %s", t.c_str()); Inst & I = newInst(); Ex e(t, ctxnode(ctx)); I.si.reset(new SI(std::move(e))); I.si->setContext(sched.get()); I.m.kind = 2; I.m.ex = realize(frees.back()); I.m.en = sparta::Scheduler::INDEFINITE; return; }
        Inst & I = insts[x % insts.size()];
        switch (code) {
        case 1: I.si->start(); start(I.m); break;
        case 2: I.si->end(); end(I.m); break;
        case 3: I.si->accumulateStatistic(); accum(I.m); break;
        case 4: { std::unique_ptr<SI> n(new SI(*I.si)); MI m = I.m; Inst & J = newInst(); J.si = std::move(n); J.m = m; break; }
        case 5: { Inst & J = insts[y % insts.size()]; if (&J == &I && y % 2) return; if (y % 7 == 0) *I.si = *I.si; *J.si = *I.si; if (&J != &I) J.m = MI(I.m); break; }
        case 6: { size_t n = I.si->getSubStatistics().size(); std::unique_ptr<SI> q(new SI(std::move(*I.si))); I.si = std::move(q); CHECK(I.si->getSubStatistics().size() == n, "instance-move", "a moved instance has %zu sub-statistics instead of %zu", I.si->getSubStatistics().size(), n); break; }
        case 7: insts.erase(insts.begin() + (long)(x % insts.size())); break;
        case 8: { int ln = (int)(x % lanes.size()); std::string n = "loop" + std::to_string(nobj++); std::unique_ptr<sparta::StatisticDef> d; (void)ln; (void)d; break; }
        }
    }
    void doop(const Op & o, int ln) {
        uint64_t k = (uint64_t)o.arg(2), x = (uint64_t)o.arg(3), y = (uint64_t)o.arg(4); c.log("t%lu lane%d op %lu %lu %lu", (ul)now(), ln, (ul)k, (ul)x, (ul)y);
        switch (k) {
        case 0: if (auto C = pick(ctrs, ln, x)) switch (y % 5) { case 0: { uint64_t r = ++*C->c; ++C->v; CHECK(r == C->v, "counter", "++ returned %lu", (ul)r); break; } case 1: { uint64_t r = (*C->c)++; CHECK(r == C->v, "counter", "postfix ++ returned %lu", (ul)r); ++C->v; break; } case 2: *C->c += y >> 3; C->v += y >> 3; break; case 3: C->c->increment(y >> 4); C->v += y >> 4; break; case 4: if (C->beh == 2) { if (y % 2) C->c->set(y >> 3); else *C->c = y >> 3; C->v = y >> 3; } else if (y % 32 == 4) CHECK(refused([&] { C->c->set(7); }), "counter-set", "set() of an increment-only counter was accepted"); break; } break;
        case 1: if (auto C = pick(cycs, ln, x)) { uint64_t e = el(ln), d = y % 2 ? 0 : (y >> 4) % 4, mu = (y >> 8) % 5; switch ((y >> 1) % 4) {
            case 0: if (C->on) { if (x % 8 == 0) CHECK(refused([&] { C->c->startCounting(); }), "cycle-counter-restart", "starting a counting cycle counter was accepted"); } else { if (y % 3) { C->c->startCounting((uint32_t)d); C->mult = 1; } else { C->c->startCountingWithMultiplier((uint32_t)mu, (uint32_t)d); C->mult = mu; } C->from = e + d; C->on = true; } break;
            case 1: case 2: if (!C->on) { if (x % 8 == 0) CHECK(refused([&] { C->c->stopCounting(); }), "cycle-counter-stop", "stopping an idle cycle counter was accepted"); } else { bool ok = e + d >= C->from; bool t = refused([&] { C->c->stopCounting((uint32_t)d); }); CHECK(t == !ok, "cycle-counter-stop", "stopping at cycle %lu+%lu a counter started at %lu was %s", (ul)e, (ul)d, (ul)C->from, t ? "refused" : "accepted"); if (ok) { C->count += (e + d - C->from) * C->mult; C->on = false; } } break;
            case 3: if (!C->on || e >= C->from) { C->c->updateCountingMultiplier((uint32_t)mu); if (C->on) C->count += (e - C->from) * C->mult; C->on = true; C->from = e; C->mult = mu; } break; } CHECK(C->c->isCounting() == C->on && (!C->on || C->c->getCurrentMultiplier() == C->mult), "cycle-counter-state", "isCounting() is %d", C->c->isCounting()); } break;
        case 2: if (!ros.empty()) { auto & R = ros[x % ros.size()]; R.first += y % 64; } break;
        case 3: if (auto C = pick(ctxs, ln, x)) { size_t i = y % C->v.size(); auto & q = C->wc ? *C->wc : *C->cc; q.context((uint32_t)i) += y % 9; C->v[i] += y % 9; } break;
        case 4: if (auto H = pick(hiss, ln, x)) { uint64_t v = y % 40; (H->h ? (sparta::HistogramBase &)*H->h : *H->s).addValue(v); ++H->total; H->sum += v; if (v < H->lo) ++H->uf; else if (v > H->hi) ++H->of; else ++H->b[(v - H->lo) / H->n]; if (H->nmx) { H->mx.insert(v); H->mx.erase(H->mx.begin()); } } break;
        case 5: if (auto H = pick(chs, ln, x)) { uint64_t e = el(ln), v = H->st ? y % 4 : y % 14; bool add = (y >> 8) % 2;
            if (H->st) { if (v == H->cur) { if (add) H->st->setNextState((DstSt)v); else H->st->setState((DstSt)v); break; } uint64_t at = e + add; bool ok = at >= H->from; bool t = refused([&] { if (add) H->st->setNextState((DstSt)v); else H->st->setState((DstSt)v); }); CHECK(t == !ok, "state-histogram", "changing state at cycle %lu was %s", (ul)at, t ? "refused" : "accepted"); if (ok) { H->acc[chidx(*H, H->cur)] += at - H->from; H->cur = v; H->from = at; } CHECK((uint64_t)H->st->getState() == H->cur, "state-histogram", "getState() is %u", (unsigned)H->st->getState()); break; }
            sparta::CycleHistogramBase & q = H->h ? (sparta::CycleHistogramBase &)*H->h : *H->s; bool ok = e >= H->from;
            if (add) { bool t = refused([&] { q.addValue(v); }); CHECK(t == !ok, "cycle-histogram-add", "addValue at cycle %lu was %s", (ul)e, t ? "refused" : "accepted"); if (ok) { H->acc[chidx(*H, H->cur)] += e - H->from; H->acc[chidx(*H, v)] += 1; H->cur = H->idle; H->from = e + 1; H->mx = std::max(H->mx, v); } }
            else if (v == H->cur) q.setValue(v); else { bool t = refused([&] { q.setValue(v); }); CHECK(t == !ok, "cycle-histogram-set", "setValue at cycle %lu was %s", (ul)e, t ? "refused" : "accepted"); if (ok) { H->acc[chidx(*H, H->cur)] += e - H->from; H->cur = v; H->from = e; H->mx = std::max(H->mx, v); } } } break;
        case 6: if (auto H = pick(ehs, ln, x)) { H->h->addValue((DstSt)(y % 4)); ++H->total; ++H->b[y % 4]; } break;
        case 7: if (auto H = pick(bhs, ln, x)) { int v = (int)(y % 60) - 30; H->h->addValue(v); size_t i = 0; while (i + 1 < H->bk.size() && H->bk[i + 1] <= v) ++i; ++H->b[i]; } break;
        case 8: siop(y % 8, x, (uint64_t)o.arg(5)); break;
        case 9: if (reps.empty() || (y % 13 == 12 && reps.size() < 3)) { reps.emplace_back(); reps.back().r.reset(new sparta::Report("r" + std::to_string(nobj), rtn.get())); reps.back().m.name = "r" + std::to_string(nobj++); reps.back().m.s = sched->getElapsedTicks(); } else repop(reps[x % reps.size()], y % 12, x / 4, (uint64_t)o.arg(5)); break;
        }
    }
    void on_op(L & l, uint32_t i) { CHECK(l.clk->elapsedCycles() == l.clk->currentCycle(), "elapsed", "at cycle %lu only %lu cycles have elapsed", (ul)l.cycle(), (ul)l.clk->elapsedCycles()); c.nontrivial = true; look("cycle"); doop(ops[i], l.id); look("after"); }
    void go() {
        int nl = (int)std::max<int64_t>(1, std::min<int64_t>(3, plan.c("lanes", 1))); lanes_build(*this, nl);
        for (int i = 0; i < nl; ++i) ss.emplace_back(new sparta::StatisticSet(lanes[i]->node.get()));
        // built-in variables
        int ps = -1; { leaf.push_back(Leaf{"g_ticks", "g_ticks", -1, 0, [this] { return sched->getElapsedTicks(); }}); leaf.back().own = false; leaf.push_back(Leaf{"g_picoseconds", "g_picoseconds", -1, 0, [this] { return sched->getElapsedTicks(); }}); leaf.back().own = false; ps = 1; const char * nm[] = {"g_seconds", "g_milliseconds", "g_microseconds", "g_nanoseconds"}; double dv[] = {1e12, 1e9, 1e6, 1e3}; for (int i = 0; i < 4; ++i) { def.push_back(Def{nm[i], nm[i], -1, bin('/', lf(ps), num(dv[i]))}); def.back().own = false; }
            for (int i = 0; i < nl; ++i) { leaf.push_back(Leaf{"cycles", i ? "" : "cycles", i, 0, [this, i] { return lanes[i]->clk->currentCycle(); }}); leaf.back().own = false; } }
        std::vector<Op> ev, bt; bool boom = false; std::string msg;
        try {
            for (auto & o : plan.ops) { if (o.k == "obj" && nobj < 8) obj(o); if (o.k == "def" && rdefs.size() < 5) mkdef(o); }
            rtn->enterConfiguring(); rtn->enterFinalized(); sched->finalize();
            for (auto & o : plan.ops) { if (o.k == "b") { bt.push_back(o); } if (o.k == "o") { ops.push_back(o); lanes[(size_t)o.arg(0) % lanes.size()]->at((uint64_t)(o.arg(1) / 5), (int)(o.arg(1) % 5), (uint32_t)ops.size() - 1); } }
            look("start"); uint64_t mx = 0; for (auto & o : ops) mx = std::max<uint64_t>(mx, (uint64_t)(o.arg(1) / 5)); Tick P = 1; for (auto & k : clks) P = std::max(P, (Tick)k->getPeriod()); size_t nb = 0; Tick last = (Tick)(mx + 4) * P;
            for (Tick t = 0; t < last;) { Tick n = 1 + (Tick)mix64((uint64_t)plan.c("seg", 1) + t) % (Tick)std::max<int64_t>(1, plan.c("segmax", 9)); sched->run(n, true, false); t += n; if (stored) throw *stored; look("between runs"); for (int q = 0; q < 3 && nb < bt.size() && (Tick)bt[nb].arg(1) <= t; ++q) { Op b = bt[nb++]; int ln = (int)((uint64_t)b.arg(0) % lanes.size()); if (b.arg(2) >= 8 || b.arg(2) == 0 || b.arg(2) == 2) { doop(b, ln); look("after"); } } }
            // the tree goes away: closed windows keep their values, open ones have none
            c.sim_time += now(); reps.clear(); rtn->enterTeardown(); for (auto & l : leaf) if (l.own) l.node = nullptr; std::vector<Inst *> keep; hiss.clear(); chs.clear(); ehs.clear(); bhs.clear(); ctxs.clear(); ros.clear(); rdefs.clear(); ss.clear(); dead = true;
            look("after destruction");
            for (auto & i : insts) if (gone(i.m)) { if (mix64(looks++) % 8 == 0) { CHECK(refused([&] { i.si->end(); }) || true, "x", "x"); } }
        } catch (Violation &) { throw; } catch (std::exception & e) { boom = true; msg = e.what(); }
        if (stored) throw *stored;
        CHECK(!boom, "exception", "unexpected exception: %.400s", msg.c_str());
        insts.clear();
    }
};
void gen(Rng & r, Plan & p, bool th) {
    int nl = (int)r.range(1, 2); p.cfg["lanes"] = nl; for (int i = 1; i < nl; ++i) { p.cfg["p" + std::to_string(i)] = r.range(1, 4); p.cfg["q" + std::to_string(i)] = r.range(1, 4); } p.cfg["seg"] = r.range(0, 1000); p.cfg["segmax"] = r.p(50) ? r.range(1, 6) : r.range(5, 60);
    for (int i = 0, n = (int)r.range(1, 6); i < n; ++i) p.add("obj", {r.range(0, 1), r.p(40) ? r.range(0, 3) : r.range(0, 10), r.range(0, 2), r.range(0, 4095), r.range(0, 4095), r.range(0, 4095)});
    for (int i = 0, n = (int)r.range(0, 4); i < n; ++i) p.add("def", {r.range(0, 1), r.range(0, 1), (int64_t)(r.next() >> 16), r.range(0, 4), r.range(0, 2)});
    int cyc = (int)r.range(3, th ? 60 : 25); std::vector<int> w; for (int i = 0; i < 10; ++i) w.push_back(r.p(25) ? 0 : (int)r.range(1, 6)); w[8] += 3; w[5] += 2;
    auto one = [&](const char * k, int64_t at) { int64_t q = (int64_t)r.w(w); p.add(k, {r.range(0, 1), at, q, r.range(0, 1 << 20), r.range(0, 4095), r.range(0, 4095)}); };
    for (int i = 0, n = (int)r.range(4, th ? 80 : 40); i < n; ++i) one("o", r.range(0, cyc * 5));
    int64_t at = 0; for (int i = 0, n = (int)r.range(0, 10); i < n; ++i) { at += r.range(0, cyc / 3 + 1); one("b", at); }
}
Register R([] {
    Harness h; h.property = "C20"; h.technique = "deterministic simulation: seeded device activity on several clocks with statistic windows opened, closed, copied and accumulated at any point, against a window model";
    h.rule = "plan = counters, histograms and definitions with generated expressions, device events at (cycle, phase), window and report operations inside and between ticks, teardown; non-trivial: at least one event ran";
    h.real = "counters, histograms, expression parser, StatisticDef, StatisticInstance, Report, scheduler, clocks, tree"; h.stub = "devices"; h.measure = "hash of the event log";
    h.quick_runs = 20000; h.thorough_runs = 3000000; h.gen = gen; h.run = runWorld<StatWorld>; return h; }());
} // namespace
