// Deterministic-simulation runtime: seeded PRNG, plans (= one simulated execution written down), run
// context (event log hash, fault counters, probes), violations.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <exception>
#include <functional>

namespace dst {

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// The only source of choice in a run.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x5bd1e995u)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); } // inclusive
    bool p(int pct) { return (int)below(100) < pct; }
    template<class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
    // weighted index
    size_t w(const std::vector<int> & ws) { int t = 0; for (int x : ws) t += x; int64_t r = (int64_t)below(t);
        for (size_t i = 0; i < ws.size(); ++i) { if ((r -= ws[i]) < 0) return i; } return 0; }
};

struct Op {
    std::string k;               // operation name
    std::vector<int64_t> a;      // integer arguments
    int64_t arg(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
};

// A plan fixes one execution completely: run(plan) is a pure function of plan and the code.
struct Plan {
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t c(const char * k, int64_t d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    void add(const char * k, std::vector<int64_t> a = {}) { ops.push_back(Op{k, std::move(a)}); }
};

struct Violation : public std::exception {
    std::string cls, msg;
    Violation(std::string c, std::string m) : cls(std::move(c)), msg(std::move(m)) {}
    const char * what() const noexcept override { return msg.c_str(); }
};

class Ctx {
public:
    bool trace = false;                 // replay: print the event log
    uint64_t hash = 0xcbf29ce484222325ull;
    uint64_t events = 0;
    uint64_t sim_time = 0;              // simulated ticks covered
    bool nontrivial = false;
    std::map<std::string, uint64_t> faults, probes;
    std::vector<std::string> tail;      // last log lines (only kept while tracing)

    void logv(const char * fmt, va_list ap) {
        char b[512]; int n = vsnprintf(b, sizeof b, fmt, ap);
        if (n > (int)sizeof b - 1) n = sizeof b - 1;
        for (int i = 0; i < n; ++i) { hash ^= (unsigned char)b[i]; hash *= 0x100000001b3ull; }
        hash ^= '\n'; hash *= 0x100000001b3ull; ++events;
        if (trace) { fprintf(stdout, "  %s\n", b); fflush(stdout); }
    }
    void log(const char * fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, fmt); logv(fmt, ap); va_end(ap);
    }
    void probe(const char * n, uint64_t k = 1) { probes[n] += k; }
    void fault(const char * n, uint64_t k = 1) { faults[n] += k; }
    // a finding the known-findings file may list (identified by its class, which names one specific failure); a violation otherwise
    void known(const char * cls, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
    [[noreturn]] void fail(const char * cls, const char * fmt, ...) __attribute__((format(printf, 3, 4))) {
        char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        throw Violation(cls, b);
    }
};

extern std::map<std::string, std::string> known_list; // class -> text, of the property being checked
inline void Ctx::known(const char * cls, const char * fmt, ...) {
    if (known_list.count(cls)) { probes[std::string("known: ") + cls]++; return; }
    char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); throw Violation(cls, b);
}
#define DST_CHECK(ctx, cond, cls, ...) do { if (!(cond)) (ctx).fail(cls, __VA_ARGS__); } while (0)

struct Harness {
    std::string property;       // id in properties.jsonl
    std::string technique;
    std::string rule;           // how cases are made, what is non-trivial
    std::string real, stub;     // which components ran real code / a stand-in
    std::string measure;        // what "distinct" counts
    std::vector<std::string> assumptions;
    uint64_t quick_runs, thorough_runs;
    std::function<void(Rng &, Plan &, bool thorough)> gen;
    std::function<void(const Plan &, Ctx &)> run;
    int cpu_limit_s = 12;
    std::string level = "exploration";
};

std::vector<Harness> & registry();
struct Register { explicit Register(Harness h) { registry().push_back(std::move(h)); } };

} // namespace dst
