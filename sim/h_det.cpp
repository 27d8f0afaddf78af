// C08: a simulation does the same things in the same order whatever the memory layout, the content of fresh memory, the
// clocks of the machine and the simulations that ran before it in the process.  Runs the plans of the other harnesses
// (linked into this binary) several times under different surroundings and compares the complete event logs.
#include "dst.hpp"
#include "alloc_fault.hpp"
#include <ctime>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdlib>

// ---- clocks of the machine
static bool g_virtual = false; static uint64_t g_now = 0, g_step = 0, g_reads = 0;
static uint64_t tick() { ++g_reads; g_step ^= g_step << 13; g_step ^= g_step >> 7; g_step ^= g_step << 17; g_now += g_step % 2000000000ull; return g_now; }
extern "C" int clock_gettime(clockid_t id, struct timespec * t) { if (!g_virtual) return (int)syscall(SYS_clock_gettime, id, t); uint64_t n = tick(); t->tv_sec = (time_t)(n / 1000000000ull); t->tv_nsec = (long)(n % 1000000000ull); return 0; }
extern "C" int gettimeofday(struct timeval * t, void *) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
extern "C" time_t time(time_t * t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
extern "C" clock_t times(struct tms * b) { uint64_t n = g_virtual ? tick() / 10000000ull : 0; b->tms_utime = b->tms_stime = b->tms_cutime = b->tms_cstime = (clock_t)n; return (clock_t)n; }

namespace {
using namespace dst;
static const char * const DELEGATES[] = {"C01", "C02", "C03", "C04", "C05", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30"};
static const Harness & harness(int64_t d) { std::string p = DELEGATES[(size_t)d % (sizeof DELEGATES / sizeof *DELEGATES)]; for (auto & h : registry()) if (h.property == p) return h; abort(); }
struct Res { uint64_t hash = 0, events = 0, ticks = 0; std::string cls; };
Res once(const Harness & h, const Plan & p, Ctx & c, uint64_t seed) {
    Ctx in; in.trace = c.trace; Res r;
    af::layout(seed); g_now = (seed * 0x9E3779B97F4A7C15ull) % 4000000000000000000ull; g_step = seed | 1; g_virtual = true; g_reads = 0;
    std::string cls; try { h.run(p, in); } catch (const Violation & v) { cls = v.cls; if (c.trace) printf("violation: %s\n", v.what()); } catch (const std::exception & e) { cls = "exception"; if (c.trace) printf("exception: %s\n", e.what()); }
    g_virtual = false; af::disarm(); if (g_reads) c.probe("runs that read a clock"); af::layout(0);
    r.hash = in.hash; r.events = in.events; r.ticks = in.sim_time; r.cls = cls; c.sim_time += in.sim_time; if (in.nontrivial) c.nontrivial = true;
    return r;
}
void run(const Plan & p, Ctx & c) {
    const Harness & h = harness(p.c("delegate")); Plan q; q.ops = p.ops; for (auto & k : p.cfg) if (k.first != "delegate" && k.first != "layout") q.cfg.insert(k);
    uint64_t s = (uint64_t)p.c("layout", 1); c.log("delegate %s", h.property.c_str()); c.probe(("world of " + h.property).c_str());
    Res a = once(h, q, c, 2 * s + 1); if (c.trace) printf("---- the same again with another memory layout and clock\n"); Res b = once(h, q, c, 2 * s + 2);
    if (a.cls == "stray-write" || b.cls == "stray-write") c.fail("stray-write", "memory that had been freed was written to (%s)", h.property.c_str());
    c.fault("memory layout changed"); c.fault("machine clock changed"); c.log("%016lx %lu", (unsigned long)a.hash, (unsigned long)a.events);
    if (a.hash != b.hash || a.events != b.events || a.ticks != b.ticks || a.cls != b.cls) c.fail("diverged", "the same simulation behaves differently under another memory layout and clock (%s)", h.property.c_str());
}
void gen(Rng & r, Plan & p, bool th) { int64_t d = (int64_t)r.below(sizeof DELEGATES / sizeof *DELEGATES); harness(d).gen(r, p, th); p.cfg["delegate"] = d; p.cfg["layout"] = r.range(1, 1 << 20); }
dst::Register r08([] { Harness h; h.property = "C08"; h.technique = "deterministic simulation: every plan executed under two memory layouts, fresh-memory contents and machine clocks chosen by the seed, complete event logs compared";
    h.rule = "plans of the harnesses for C01-C05, C09-C16 and C18-C30, each executed twice in one process under different surroundings; non-trivial: as in that harness"; h.measure = "FNV hash of the complete event log of the first execution";
    h.real = "everything the worlds of those properties run"; h.stub = "global operator new (seeded placement and fill), clock_gettime, gettimeofday, time, times";
    h.assumptions = {"environment variables, files and locale are the same in both executions"};
    h.quick_runs = 6000; h.thorough_runs = 1500000; h.gen = gen; h.run = run; h.cpu_limit_s = 30; return h; }());
} // namespace
