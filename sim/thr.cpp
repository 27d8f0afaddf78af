#include "thr.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <cerrno>
#include <ctime>
#include <climits>
#include <cstring>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <atomic>
#include <memory>
#include <typeinfo>
#include <cxxabi.h>

namespace dst { namespace thr {
std::function<void(int, const std::string &)> on_thread_exception;
namespace {
template<class F> F real(const char * n) { return (F)dlsym(RTLD_NEXT, n); }
enum St { RUN, MUTEX, COND, JOIN, SLEEP, DONE };
struct T {
    int id = 0; St st = RUN; const void * obj = nullptr; const void * mtx = nullptr; int64_t deadline = LLONG_MAX; bool timed_out = false;
    std::atomic<int> go{0}; pthread_t real{}; std::function<void()> fn; void * (*pf)(void *) = nullptr; void * parg = nullptr; void * ret = nullptr;
};
struct M { int owner = -1; int count = 0; };
struct S {
    std::vector<std::unique_ptr<T>> ts; std::map<const void *, M> ms; Ctx * c = nullptr;
    std::vector<std::pair<int64_t, int64_t>> pre; size_t pi = 0; int64_t gap = 0; uint64_t step = 0, sw = 0; uint64_t bseed = 0;
    int64_t now = 1000000000LL, cpu = 0, rt_off = 1600000000LL * 1000000000LL; int cur = 0; bool live = false;
};
S * g = nullptr;               // heap: never destroyed, so late interposed calls stay safe
bool g_on = false;
thread_local T * t_me = nullptr;

void fwait(std::atomic<int> & w) { while (w.load() == 0) syscall(SYS_futex, (int *)&w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); w.store(0); }
void fwake(std::atomic<int> & w) { w.store(1); syscall(SYS_futex, (int *)&w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

bool runnable(T & t) {
    switch (t.st) {
    case RUN: return true;
    case DONE: return false;
    case MUTEX: { auto i = g->ms.find(t.obj); return i == g->ms.end() || i->second.owner < 0; }
    case JOIN: return g->ts[(size_t)(intptr_t)t.obj]->st == DONE;
    case COND: case SLEEP: return t.deadline <= g->now;
    }
    return false;
}
void wake(T & t) {  // t was chosen: complete what it waited for
    if (t.st == COND) t.timed_out = true;
    t.st = RUN; t.deadline = LLONG_MAX;
}
// Choose and switch.  "forced" = current thread cannot go on.
void resched(bool forced) {
    S & s = *g; T * me = t_me;
    ++s.step; 
    std::vector<int> r;
    auto collect = [&] { r.clear(); for (auto & t : s.ts) if (runnable(*t)) r.push_back(t->id); };
    int next = -1;
    if (!forced) {
        if (s.pi >= s.pre.size()) return;
        if (--s.gap > 0) return;
        int64_t k = s.pre[s.pi].second; ++s.pi; s.gap = s.pi < s.pre.size() ? std::max<int64_t>(1, s.pre[s.pi].first) : 0;
        collect();
        next = r.empty() ? me->id : r[(size_t)k % r.size()];
    } else {
        collect();
        while (r.empty()) {
            int64_t d = LLONG_MAX; for (auto & t : s.ts) if (t->st == COND || t->st == SLEEP) d = std::min(d, t->deadline);
            if (d == LLONG_MAX) {
                std::string m = "no thread can run:"; for (auto & t : s.ts) { static const char * N[] = {"running", "waits for a mutex", "waits on a condition", "waits for a thread to end", "sleeps", "ended"}; m += " thread " + std::to_string(t->id) + " " + N[t->st] + ";"; }
                finish_run("deadlock", m);
            }
            if (d > s.now) s.now = d;
            collect();
        }
        next = s.bseed ? r[mix64(s.bseed * 1315423911u + s.step) % r.size()] : r[0];
    }
    if (next == me->id) { wake(*me); return; }
    ++s.sw; s.c->log("switch %d->%d", me->id, next);
    wake(*s.ts[next]); s.cur = next;
    fwake(s.ts[next]->go);
    if (me->st == DONE) return;
    fwait(me->go);
}
void * tramp(void * p) {
    T * t = (T *)p; t_me = t; fwait(t->go);
    std::string err; bool bad = false;
    try { if (t->fn) t->fn(); else t->ret = t->pf(t->parg); }
    catch (Violation & v) { finish_run(v.cls.c_str(), v.msg); }
    catch (std::exception & e) { bad = true; err = e.what(); }
    if (bad) { if (on_thread_exception) on_thread_exception(t->id, err); finish_run("thread-exception", err); }
    t->st = DONE; g->c->log("thread %d ends", t->id);
    resched(true);
    return t->ret;
}
typedef int (*create_f)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
T * mkthread() { auto * t = new T; t->id = (int)g->ts.size(); g->ts.emplace_back(t); return t; }
void start(T * t) {
    static create_f rc = real<create_f>("pthread_create");
    bool was = g_on; (void)was;
    if (rc(&t->real, nullptr, tramp, t)) finish_run("harness", "pthread_create failed");
}
inline bool ctl() { return g_on && t_me; }
} // namespace

bool on() { return ctl(); }
int self() { return t_me ? t_me->id : -1; }
void begin(Ctx & c, const Plan & p) {
    g = new S; g->c = &c; auto * t = mkthread(); t_me = t; t->real = pthread_self();
    for (auto & o : p.ops) if (o.k == "pre") g->pre.push_back({o.arg(0), o.arg(1)});
    g->gap = g->pre.empty() ? 0 : std::max<int64_t>(1, g->pre[0].first); g->bseed = (uint64_t)p.c("bseed"); g_on = true;
}
void end() { g_on = false; if (g && g->sw) { g->c->fault("thread switch", g->sw); } if (g && g->pi) g->c->fault("forced preemption", g->pi); }
int spawn(std::function<void()> f) { T * t = mkthread(); t->fn = std::move(f); start(t); point("spawn"); return t->id; }
void join(int id) { if (g->ts[id]->st != DONE) { t_me->st = JOIN; t_me->obj = (void *)(intptr_t)id; resched(true); } }
void point(const char *) { if (ctl()) resched(false); }
int64_t now_ns() { return g ? g->now : 0; }
void burn(int64_t n) { if (!ctl()) return; g->now += n; g->cpu += n; resched(false); 
    // a thread whose deadline passed gets to run, eventually; whether now is the plan's choice: with default policy it runs at once half of the time
    for (auto & t : g->ts) if (t->id != t_me->id && (t->st == COND || t->st == SLEEP) && t->deadline <= g->now && (mix64(g->bseed + g->step) & 1)) {
        T * me = t_me; ++g->sw; ++g->step; g->c->log("switch %d->%d", me->id, t->id); T * n2 = t.get(); wake(*n2); g->cur = n2->id; fwake(n2->go); fwait(me->go); break; } }
void stall(int64_t n) { if (!ctl()) return; g->now += n; resched(false); }
void step_realtime(int64_t n) { if (g) g->rt_off += n; }
uint64_t points() { return g ? g->step : 0; }
uint64_t switches() { return g ? g->sw : 0; }
}} // namespaces

using namespace dst::thr;
using namespace dst;
#define EXP extern "C" __attribute__((visibility("default")))
#define REAL(name) static auto real_##name = (decltype(&name))dlsym(RTLD_NEXT, #name)

static int do_lock(pthread_mutex_t * m) {
    auto & mm = g->ms[m];
    if (mm.owner == t_me->id) { if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++mm.count; return 0; } finish_run("deadlock", "a thread locks a mutex it already holds"); }
    if (mm.owner >= 0) { g->c->probe("lock contended"); t_me->st = MUTEX; t_me->obj = m; resched(true); }
    auto & m2 = g->ms[m]; m2.owner = t_me->id; m2.count = 1; return 0;
}
static void do_unlock(pthread_mutex_t * m) {
    auto i = g->ms.find(m);
    if (i == g->ms.end() || i->second.owner < 0) { finish_run("unlock", "a mutex is unlocked that nobody holds"); }
    if (i->second.owner != t_me->id) finish_run("unlock", "a mutex is unlocked by a thread that does not hold it");
    if (--i->second.count == 0) i->second.owner = -1;
}
EXP int pthread_mutex_lock(pthread_mutex_t * m) { if (ctl()) { resched(false); return do_lock(m); } REAL(pthread_mutex_lock); return real_pthread_mutex_lock(m); }
EXP int pthread_mutex_trylock(pthread_mutex_t * m) {
    if (ctl()) { resched(false); auto & mm = g->ms[m]; if (mm.owner >= 0) return EBUSY; mm.owner = t_me->id; mm.count = 1; return 0; }
    REAL(pthread_mutex_trylock); return real_pthread_mutex_trylock(m); }
EXP int pthread_mutex_unlock(pthread_mutex_t * m) { if (ctl()) { do_unlock(m); resched(false); return 0; } REAL(pthread_mutex_unlock); return real_pthread_mutex_unlock(m); }
static int cond_wait(pthread_cond_t * c, pthread_mutex_t * m, int64_t dl) {
    resched(false);
    auto i = g->ms.find(m); bool held = i != g->ms.end() && i->second.owner == t_me->id; int cnt = held ? i->second.count : 0;
    if (held) { i->second.owner = -1; i->second.count = 0; }
    t_me->st = COND; t_me->obj = c; t_me->deadline = dl; t_me->timed_out = false;
    resched(true);
    bool to = t_me->timed_out;
    do_lock(m); if (held) g->ms[m].count = cnt;
    return to ? ETIMEDOUT : 0;
}
static int64_t ts_ns(const struct timespec * t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
EXP int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { if (ctl()) return cond_wait(c, m, LLONG_MAX); REAL(pthread_cond_wait); return real_pthread_cond_wait(c, m); }
EXP int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) {
    if (ctl()) return cond_wait(c, m, ts_ns(t) - g->rt_off); REAL(pthread_cond_timedwait); return real_pthread_cond_timedwait(c, m, t); }
EXP int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) {
    if (ctl()) return cond_wait(c, m, k == CLOCK_REALTIME ? ts_ns(t) - g->rt_off : ts_ns(t)); REAL(pthread_cond_clockwait); return real_pthread_cond_clockwait(c, m, k, t); }
static void cond_wake(pthread_cond_t * c, bool all) { for (auto & t : g->ts) if (t->st == COND && t->obj == c) { t->st = RUN; t->deadline = LLONG_MAX; t->timed_out = false; if (!all) break; } }
EXP int pthread_cond_signal(pthread_cond_t * c) { if (ctl()) { resched(false); cond_wake(c, false); resched(false); return 0; } REAL(pthread_cond_signal); return real_pthread_cond_signal(c); }
EXP int pthread_cond_broadcast(pthread_cond_t * c) { if (ctl()) { resched(false); cond_wake(c, true); resched(false); return 0; } REAL(pthread_cond_broadcast); return real_pthread_cond_broadcast(c); }
EXP int pthread_create(pthread_t * p, const pthread_attr_t * a, void * (*f)(void *), void * arg) {
    if (ctl()) { T * t = mkthread(); t->pf = f; t->parg = arg; start(t); *p = t->real; g->c->log("pthread_create -> thread %d", t->id); resched(false); return 0; }
    REAL(pthread_create); return real_pthread_create(p, a, f, arg); }
EXP int pthread_join(pthread_t p, void ** r) {
    if (ctl()) { for (auto & t : g->ts) if (t->id && pthread_equal(t->real, p)) { resched(false); dst::thr::join(t->id); if (r) *r = t->ret; return 0; } }
    REAL(pthread_join); return real_pthread_join(p, r); }
EXP int clock_gettime(clockid_t k, struct timespec * t) noexcept {
    if (!g_on || !g) { return (int)syscall(SYS_clock_gettime, k, t); }
    int64_t v = (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) ? g->now + g->rt_off : (k == CLOCK_PROCESS_CPUTIME_ID || k == CLOCK_THREAD_CPUTIME_ID) ? g->cpu : g->now;
    t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; return 0; }
EXP int gettimeofday(struct timeval * t, void * z) noexcept {
    if (!g_on || !g) return (int)syscall(SYS_gettimeofday, t, z);
    int64_t v = g->now + g->rt_off; t->tv_sec = v / 1000000000LL; t->tv_usec = v % 1000000000LL / 1000; return 0; }
EXP time_t time(time_t * p) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
EXP clock_t times(struct tms * b) noexcept {
    if (!g_on || !g) return (clock_t)syscall(SYS_times, b);
    long hz = 100; b->tms_utime = g->cpu / (1000000000LL / hz); b->tms_stime = 0; b->tms_cutime = b->tms_cstime = 0; return g->now / (1000000000LL / hz); }
static int do_sleep(int64_t ns) { t_me->st = SLEEP; t_me->deadline = g->now + ns; resched(true); return 0; }
EXP int nanosleep(const struct timespec * t, struct timespec * r) { if (ctl()) return do_sleep(ts_ns(t)); return (int)syscall(SYS_nanosleep, t, r); }
EXP int usleep(useconds_t u) { struct timespec t{u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
EXP unsigned sleep(unsigned n) { struct timespec t{n, 0}; nanosleep(&t, nullptr); return 0; }
EXP int sched_yield() noexcept { if (ctl()) { resched(false); return 0; } return (int)syscall(SYS_sched_yield); }
