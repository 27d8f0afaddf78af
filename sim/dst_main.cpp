// Driver of every harness: seeded batch of simulated runs in forked children, determinism check,
// minimisation, replay gate, evidence.
#include "dst.hpp"
#include <algorithm>
#include <cstring>
#include <cerrno>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/personality.h>

namespace dst {
std::vector<Harness> & registry() { static std::vector<Harness> r; return r; }
}
using namespace dst;

namespace {

struct Cnt { char kind; char name[47]; uint64_t n; };
struct Slot {
    int done; int violated;
    uint64_t hash, events, sim_time, ops; int nontrivial;
    char cls[96]; char msg[1000];
    int ncnt; Cnt cnt[200];
};

struct Out { bool ok = true; uint64_t hash = 0, events = 0, sim_time = 0; bool nontrivial = false;
             std::string cls, msg; std::map<std::string, uint64_t> faults, probes; };

// the real clock, never through a symbol a harness may have interposed
double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

Slot * new_slot() {
    void * p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return (Slot *)p;
}

bool g_verbose = false;

Slot * g_slot = nullptr; Ctx * g_ctx = nullptr;
[[noreturn]] void end_child(Slot * s, Ctx & c, bool bad, const std::string & cls, const std::string & msg) {
    s->hash = c.hash; s->events = c.events; s->sim_time = c.sim_time; s->nontrivial = c.nontrivial;
    s->violated = bad;
    snprintf(s->cls, sizeof s->cls, "%s", cls.c_str());
    snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
    int k = 0;
    for (auto & f : c.faults) if (k < 200) { s->cnt[k].kind = 'f'; snprintf(s->cnt[k].name, 47, "%s", f.first.c_str()); s->cnt[k++].n = f.second; }
    for (auto & f : c.probes) if (k < 200) { s->cnt[k].kind = 'p'; snprintf(s->cnt[k].name, 47, "%s", f.first.c_str()); s->cnt[k++].n = f.second; }
    s->ncnt = k;
    s->done = 1;
    fflush(nullptr);
    _exit(0);
}

// Run one plan in a forked child.
Out run_forked(const Harness & h, const Plan & plan, Slot * s, bool trace = false) {
    s->done = 0; s->violated = 0; s->ncnt = 0; s->cls[0] = 0; s->msg[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        if (!g_verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); if (!trace) dup2(fd, 1); }
        struct itimerval it{}; it.it_value.tv_sec = h.cpu_limit_s; setitimer(ITIMER_PROF, &it, nullptr);
        struct itimerval ir{}; ir.it_value.tv_sec = h.cpu_limit_s * 8; setitimer(ITIMER_REAL, &ir, nullptr);
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        rl = {6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &rl);
        signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL);
        Ctx c; c.trace = trace; g_slot = s; g_ctx = &c;
        std::string cls, msg; bool bad = false;
        try { h.run(plan, c); }
        catch (Violation & v) { bad = true; cls = v.cls; msg = v.msg; }
        catch (std::exception & e) { bad = true; cls = "unexpected-exception"; msg = e.what(); }
        catch (...) { bad = true; cls = "unexpected-exception"; msg = "unknown exception"; }
        end_child(s, c, bad, cls, msg);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Out o;
    if (!s->done) {
        o.ok = false;
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st);
            o.cls = (sg == SIGPROF || sg == SIGALRM) ? std::string("hang") : std::string("crash-") + std::to_string(sg);
            o.msg = (sg == SIGPROF || sg == SIGALRM) ? "the run did not end within its processor-time limit"
                                                     : std::string("the run died with signal ") + std::to_string(sg);
        } else {
            o.cls = "exit"; o.msg = "the run ended the process with status " + std::to_string(WEXITSTATUS(st));
        }
        o.hash = mix64(std::hash<std::string>()(o.cls));
        return o;
    }
    o.ok = !s->violated; o.hash = s->hash; o.events = s->events; o.sim_time = s->sim_time; o.nontrivial = s->nontrivial;
    o.cls = s->cls; o.msg = s->msg;
    for (int i = 0; i < s->ncnt; ++i) (s->cnt[i].kind == 'f' ? o.faults : o.probes)[s->cnt[i].name] = s->cnt[i].n;
    return o;
}

} // namespace
namespace dst { std::map<std::string, std::string> known_list; [[noreturn]] void finish_run(const char * cls, const std::string & msg) { end_child(g_slot, *g_ctx, cls != nullptr, cls ? cls : "", msg); } }
namespace {

Plan make_plan(const Harness & h, uint64_t seed, uint64_t i, bool thorough) {
    Rng r(mix64(seed * 0x100000001b3ull + 17) ^ mix64(i + 0x1234567));
    Plan p; h.gen(r, p, thorough);
    return p;
}

std::string plan_text(const Plan & p) {
    std::ostringstream o;
    for (auto & c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto & op : p.ops) { o << "op " << op.k; for (auto x : op.a) o << " " << x; o << "\n"; }
    return o.str();
}
Plan parse_plan(std::istream & in, std::map<std::string, std::string> & head) {
    Plan p; std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string w; l >> w;
        if (w == "cfg") { std::string k; int64_t v; l >> k >> v; p.cfg[k] = v; }
        else if (w == "op") { Op o; l >> o.k; int64_t v; while (l >> v) o.a.push_back(v); p.ops.push_back(o); }
        else { std::string rest; std::getline(l, rest); if (!rest.empty() && rest[0] == ' ') rest.erase(0, 1); head[w] = rest; }
    }
    return p;
}

std::string jstr(const std::string & s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else if (ch < 127) o += ch;
        else o += '?';
    }
    return o + "\"";
}

struct Shared { volatile uint64_t stop; volatile uint64_t next; };

void minimise(const Harness & h, Plan & p, const std::string & cls, Slot * s, double budget, uint64_t & tried) {
    double end = now_s() + budget;
    auto fails = [&](const Plan & q) { ++tried; Out o = run_forked(h, q, s); return !o.ok && o.cls == cls; };
    bool progress = true;
    while (progress && now_s() < end) {
        progress = false;
        // drop chunks of operations
        for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1 && now_s() < end; chunk /= 2) {
            for (size_t i = 0; i < p.ops.size() && now_s() < end;) {
                Plan q = p; size_t n = std::min(chunk, q.ops.size() - i);
                q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + n);
                if (fails(q)) { p = q; progress = true; } else i += chunk;
            }
            if (chunk == 1) break;
        }
        // shrink arguments
        for (size_t i = 0; i < p.ops.size() && now_s() < end; ++i)
            for (size_t j = 0; j < p.ops[i].a.size() && now_s() < end; ++j) {
                int64_t v = p.ops[i].a[j];
                for (int64_t c : {(int64_t)0, (int64_t)1, v / 2, v - 1}) {
                    if (llabs(c) >= llabs(v) || (v >= 0 && c < 0)) continue;
                    Plan q = p; q.ops[i].a[j] = c;
                    if (fails(q)) { p = q; progress = true; break; }
                }
            }
        // shrink configuration
        for (auto & kv : std::map<std::string, int64_t>(p.cfg)) {
            if (now_s() > end) break;
            for (int64_t c : {(int64_t)0, (int64_t)1, kv.second / 2}) {
                if (c == kv.second || llabs(c) >= llabs(kv.second) || (c == 1 && kv.second == 0)) continue;
                Plan q = p; q.cfg[kv.first] = c;
                if (fails(q)) { p = q; progress = true; break; }
            }
        }
    }
}

int replay(const Harness & h, const std::string & file, bool quiet) {
    std::ifstream in(file);
    if (!in) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
    std::map<std::string, std::string> head;
    Plan p = parse_plan(in, head);
    Slot * s = new_slot();
    Out o = run_forked(h, p, s, !quiet);
    printf("replay: %s class=%s hash=%016lx expected-class=%s expected-hash=%s\n", o.ok ? "no violation" : "violation",
           o.cls.c_str(), (unsigned long)o.hash, head["class"].c_str(), head["hash"].c_str());
    if (o.ok) return 0;
    printf("  %s\n", o.msg.c_str());
    char hx[32]; snprintf(hx, 32, "%016lx", (unsigned long)o.hash);
    if (head.count("class") && (head["class"] != o.cls || head["hash"] != hx)) { printf("replay differs from recorded run\n"); return 4; }
    printf("VIOLATION property=%s replay=%s\n", h.property.c_str(), file.c_str());
    return 1;
}

} // namespace

int main(int argc, char ** argv) {
    // Same address-space layout in every process, where the kernel lets us (best effort).
    if (!getenv("DST_NOASLR_TRIED")) {
        int per = personality(0xffffffff);
        if (per != -1 && !(per & ADDR_NO_RANDOMIZE)) {
            setenv("DST_NOASLR_TRIED", "1", 1);
            if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
        }
    }
    std::string only, prop, evidence, replay_file, dir = "."; std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1, runs = 0;
    int workers = (int)sysconf(_SC_NPROCESSORS_ONLN); double tmax = 0; bool hashes = false, quiet = false, survey = false; long one = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 10); else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--time") tmax = atof(nx().c_str()); else if (a == "--evidence") evidence = nx();
        else if (a == "--replay") replay_file = nx(); else if (a == "--hashes") hashes = true; else if (a == "--survey") survey = true; else if (a == "--class") only = nx();
        else if (a == "--dir") dir = nx(); else if (a == "--verbose") g_verbose = true; else if (a == "--quiet") quiet = true;
        else if (a == "--one") one = atol(nx().c_str());
        else prop = a;
    }
    Harness * hp = nullptr;
    for (auto & h : registry()) if (h.property == prop) hp = &h;
    if (!hp) { fprintf(stderr, "no harness for %s\n", prop.c_str()); return 2; }
    Harness & h = *hp;
    { // lines "finding: property=<id> <class> <what fails>"
        std::ifstream kf(dir + "/known_findings.txt"); std::string l, pre = "finding: property=" + prop + " ";
        while (std::getline(kf, l)) if (l.compare(0, pre.size(), pre) == 0) { std::string r = l.substr(pre.size()); auto sp = r.find(' '); known_list[r.substr(0, sp)] = sp == std::string::npos ? "" : r.substr(sp + 1); }
    }
    if (!replay_file.empty()) return replay(h, replay_file, quiet);
    bool thorough = tier == "thorough";
    if (one >= 0) {
        Plan p = make_plan(h, seed, one, thorough); fputs(plan_text(p).c_str(), stdout);
        Slot * s = new_slot(); Out o = run_forked(h, p, s, !quiet);
        printf("%s %s %s hash=%016lx\n", o.ok ? "ok" : "VIOLATED", o.cls.c_str(), o.msg.c_str(), (unsigned long)o.hash);
        return o.ok ? 0 : 1;
    }
    if (!runs) runs = thorough ? h.thorough_runs : h.quick_runs;
    if (tmax == 0) tmax = thorough ? 3000 : 400;
    if (workers < 1) workers = 1;
    double t0 = now_s();
    printf("seed=%lu tier=%s property=%s runs=%lu workers=%d\n", (unsigned long)seed, tier.c_str(), prop.c_str(), (unsigned long)runs, workers);

    // ---- batch
    Shared * sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char tmpl[] = "/tmp/dstXXXXXX"; std::string tmp = mkdtemp(tmpl);
    std::vector<pid_t> kids;
    fflush(nullptr);
    for (int w = 0; w < workers; ++w) {
        pid_t pid = fork();
        if (pid == 0) {
            Slot * s = new_slot();
            std::map<std::string, uint64_t> faults, probes; std::map<std::string, uint64_t> fruns;
            uint64_t n = 0, nt = 0, ev = 0, st = 0, det = 0, mism = 0; std::vector<uint64_t> hs;
            std::ofstream f(tmp + "/" + std::to_string(w));
            int nviol = 0;
            for (;;) {
                uint64_t i = __sync_fetch_and_add(&sh->next, 1);
                if (i >= runs || (sh->stop && i > sh->stop) || now_s() - t0 > tmax) break;
                Plan p = make_plan(h, seed, i, thorough);
                Out o = run_forked(h, p, s);
                ++n; ev += o.events; st += o.sim_time; if (o.nontrivial) { ++nt; hs.push_back(o.hash); }
                for (auto & k : o.faults) { faults[k.first] += k.second; fruns[k.first]++; }
                for (auto & k : o.probes) probes[k.first] += k.second;
                if (hashes) f << "H " << i << " " << std::hex << o.hash << std::dec << "\n";
                if (o.ok && only.empty() && (i < 24 || i % 50 == 0)) {
                    Out o2 = run_forked(h, p, s); ++det;
                    if (!o2.ok || o2.hash != o.hash) { ++mism; f << "M " << i << "\n"; }
                }
                if (!o.ok && !only.empty() && o.cls != only) continue;
                if (!o.ok && survey) { f << "S " << i << " " << o.cls << " " << o.msg.substr(0, 160) << "\n"; continue; }
                if (!o.ok) {
                    f << "V " << i << " " << o.cls << "\n"; f.flush();
                    if (!sh->stop || i < sh->stop) sh->stop = i + 1;
                    if (++nviol >= 3) break;
                }
            }
            f << "N " << n << " " << nt << " " << ev << " " << st << " " << det << " " << mism << "\n";
            for (auto & k : faults) f << "F " << k.second << " " << fruns[k.first] << " " << k.first << "\n";
            for (auto & k : probes) f << "P " << k.second << " " << k.first << "\n";
            for (auto x : hs) f << "D " << x << "\n";
            f.flush(); f.close();
            _exit(0);
        }
        kids.push_back(pid);
    }
    int wbad = 0;
    for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) wbad++; }
    std::map<std::string, uint64_t> faults, probes, fruns; std::set<std::pair<uint64_t, std::string>> viol; std::unordered_set<uint64_t> distinct;
    uint64_t n = 0, nt = 0, ev = 0, st = 0, det = 0, mism = 0; std::map<uint64_t, std::string> hlist; std::map<std::string, std::pair<uint64_t, std::string>> sur;
    for (int w = 0; w < workers; ++w) {
        std::ifstream f(tmp + "/" + std::to_string(w)); std::string l;
        while (std::getline(f, l)) {
            std::istringstream is(l); char t; is >> t; uint64_t a, b; std::string c;
            if (t == 'N') { uint64_t x[6]; for (auto & y : x) is >> y; n += x[0]; nt += x[1]; ev += x[2]; st += x[3]; det += x[4]; mism += x[5]; }
            else if (t == 'F') { is >> a >> b; is.ignore(1); std::getline(is, c); faults[c] += a; fruns[c] += b; }
            else if (t == 'P') { is >> a; is.ignore(1); std::getline(is, c); probes[c] += a; }
            else if (t == 'D') { is >> a; distinct.insert(a); }
            else if (t == 'S') { is >> a >> c; std::getline(is, l); auto & sv = sur[c]; if (!sv.first++) sv.second = std::to_string(a) + l; }
            else if (t == 'V') { is >> a >> c; viol.insert({a, c}); }
            else if (t == 'M') { is >> a; printf("NON-DETERMINISTIC run %lu\n", (unsigned long)a); }
            else if (t == 'H') { is >> a >> c; hlist[a] = c; }
        }
        f.close(); unlink((tmp + "/" + std::to_string(w)).c_str());
    }
    rmdir(tmp.c_str());
    for (auto & x : sur) printf("SURVEY %-24s %lu  e.g. run %s\n", x.first.c_str(), (unsigned long)x.second.first, x.second.second.c_str());
    if (hashes) for (auto & x : hlist) printf("H %lu %s\n", (unsigned long)x.first, x.second.c_str());
    if (wbad) { fprintf(stderr, "%d worker(s) died\n", wbad); return 2; }
    double wall_search = now_s() - t0;

    // ---- violations: minimise, write replay, gate by replaying in a fresh process
    int rc = 0; std::string vline; int tried_viol = 0;
    Slot * s = new_slot();
    std::set<std::string> seen_cls;
    for (auto & v : viol) {
        if (rc == 1 || tried_viol >= 6) break;
        ++tried_viol;
        Plan p = make_plan(h, seed, v.first, thorough);
        Out a = run_forked(h, p, s), b = run_forked(h, p, s);
        if (a.ok || b.ok || a.cls != b.cls || a.hash != b.hash) { printf("run %lu: violation %s did not repeat identically (%s/%s)\n", (unsigned long)v.first, v.second.c_str(), a.cls.c_str(), b.cls.c_str()); continue; }
        uint64_t tried = 0; size_t before = p.ops.size();
        minimise(h, p, a.cls, s, thorough ? 60 : 25, tried);
        Out m = run_forked(h, p, s);
        std::string rdir = dir + "/replays"; mkdir(rdir.c_str(), 0755);
        std::string file = rdir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(v.first) + ".replay";
        {
            std::ofstream f(file); char hx[32]; snprintf(hx, 32, "%016lx", (unsigned long)m.hash);
            f << "property " << prop << "\nseed " << seed << "\nrun " << v.first << "\nclass " << m.cls << "\nhash " << hx << "\n";
            std::string mm = m.msg; for (auto & ch : mm) if (ch == '\n') ch = ' ';
            f << "message " << mm << "\n" << plan_text(p);
        }
        // fresh process
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
            execl("/proc/self/exe", argv[0], prop.c_str(), "--replay", file.c_str(), "--quiet", (char *)nullptr); _exit(9);
        }
        int wst; waitpid(pid, &wst, 0);
        if (!(WIFEXITED(wst) && WEXITSTATUS(wst) == 1)) { printf("run %lu: replay in a fresh process did not reproduce (status %d)\n", (unsigned long)v.first, wst); continue; }
        printf("violation in run %lu: class=%s\n  %s\n  minimised from %zu to %zu operations in %lu simulated runs\n", (unsigned long)v.first,
               m.cls.c_str(), m.msg.c_str(), before, p.ops.size(), (unsigned long)tried);
        fputs(plan_text(p).c_str(), stdout);
        vline = "VIOLATION property=" + prop + " replay=" + file;
        rc = 1;
    }
    if (!viol.empty() && rc != 1) { fprintf(stderr, "violations seen but none could be replayed: harness error\n"); rc = 4; }
    if (rc == 0 && mism) { fprintf(stderr, "%lu run(s) were not deterministic: harness error\n", (unsigned long)mism); rc = 4; }
    if (rc == 0 && n < runs) printf("note: wall-clock cap reached after %lu of %lu runs\n", (unsigned long)n, (unsigned long)runs);
    if (rc == 0 && (n == 0 || nt == 0)) { fprintf(stderr, "nothing was explored\n"); rc = 5; }

    // ---- evidence
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        double wall = now_s() - t0;
        f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": " << jstr(h.level) << ",\n \"coverage\": {\n";
        f << "  \"evaluations\": " << n << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jstr(h.rule) << ",\n";
        f << "  \"distinct_measure\": " << jstr(h.measure.empty() ? "hash of the complete event log of the run" : h.measure) << ",\n";
        f << "  \"nontrivial_runs\": " << nt << ",\n  \"seeds_per_hour\": " << (uint64_t)(n / std::max(wall_search, 1e-9) * 3600) << ",\n";
        f << "  \"simulated_events\": " << ev << ",\n  \"simulated_ticks\": " << st << ",\n";
        f << "  \"determinism\": {\"runs_executed_twice\": " << det << ", \"mismatches\": " << mism << "},\n";
        auto mp = [&](const char * k, std::map<std::string, uint64_t> & m) { f << "  \"" << k << "\": {"; bool c = false; for (auto & x : m) { f << (c ? ", " : "") << jstr(x.first) << ": " << x.second; c = true; } f << "},\n"; };
        mp("faults_injected", faults); mp("runs_with_fault", fruns); mp("probes", probes);
        f << "  \"real_components\": " << jstr(h.real) << ",\n  \"stub_components\": " << jstr(h.stub) << ",\n  \"technique\": " << jstr(h.technique) << ",\n";
        f << "  \"samples\": ["; int k = 0;
        for (uint64_t i = 0; i < runs && k < 3; i += std::max<uint64_t>(1, runs / 3)) { std::string t = plan_text(make_plan(h, seed, i, thorough)); if (t.size() > 3000) t = t.substr(0, 3000) + "..."; f << (k++ ? ", " : "") << jstr(t); }
        f << "]\n },\n \"assumptions\": ["; for (size_t i = 0; i < h.assumptions.size(); ++i) f << (i ? ", " : "") << jstr(h.assumptions[i]);
        f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    }
    printf("runs=%lu distinct_nontrivial=%zu events=%lu sim_ticks=%lu wall=%.1fs\n", (unsigned long)n, distinct.size(), (unsigned long)ev, (unsigned long)st, now_s() - t0);
    for (auto & x : faults) printf("  fault %-40s %lu in %lu runs\n", x.first.c_str(), (unsigned long)x.second, (unsigned long)fruns[x.first]);
    for (auto & x : probes) printf("  probe %-40s %lu\n", x.first.c_str(), (unsigned long)x.second);
    for (auto & k : known_list) if (probes["known: " + k.first]) printf("KNOWN-FINDING: property=%s %s %s\n", prop.c_str(), k.first.c_str(), k.second.c_str());
    if (!vline.empty()) printf("%s\n", vline.c_str());
    return rc;
}
