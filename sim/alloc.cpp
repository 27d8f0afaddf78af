#include "alloc_fault.hpp"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>
#include <sys/mman.h>
namespace af {
int64_t g_fuse = 0;
static uint64_t g_seed = 0, g_rng = 0; static uint8_t g_fill = 0, g_free = 0;
// writes to memory that is free: a free block is uniform
static uint64_t g_bad = 0; static uint8_t * g_live = nullptr; static const size_t NFREED = 1 << 16; static void * g_freed[NFREED]; static size_t g_nfreed = 0;
static const size_t GRAIN = 16, CLASSES = 129, ARENA = size_t(1) << 30; // blocks up to 2 KiB
static char * const BASE = (char *)0x300000000000ull; static char * g_top = nullptr, * g_end = nullptr;
struct Class { void ** slot = nullptr; size_t n = 0, cap = 0; }; static Class g_class[CLASSES]; static uint8_t * g_cls = nullptr; // class of each 4 KiB page
static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
static void push(Class & c, void * p) { if (c.n == c.cap) { c.cap = c.cap ? c.cap * 2 : 1024; c.slot = (void **)realloc((void *)c.slot, c.cap * sizeof(void *)); } c.slot[c.n++] = p; }
bool laid_out() { return g_seed != 0; }
void layout(uint64_t seed) {
    g_seed = seed; if (!seed) return; g_rng = seed * 0x9E3779B97F4A7C15ull | 1; g_fill = (uint8_t)(rnd() >> 30); uint64_t f = rnd() >> 20; g_free = f % 3 ? (uint8_t)(g_fill ^ 0x3c) : 0; g_bad = 0; g_nfreed = 0;
    if (!g_top) { void * p = mmap(BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != BASE) { fprintf(stderr, "no arena\n"); abort(); } g_top = BASE; g_end = BASE + ARENA; g_cls = (uint8_t *)calloc(ARENA >> 12, 1); g_live = (uint8_t *)mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g_live == MAP_FAILED) abort(); }
}
static uint8_t & live(void * p) { return g_live[(size_t)((char *)p - BASE) / GRAIN]; }
static bool uniform(void * p, size_t sz) { return memcmp(p, (char *)p + 1, sz - 1) == 0; }
uint64_t stray_writes() {
    for (size_t i = 0; i < g_nfreed && i < NFREED; ++i) { void * p = g_freed[i]; if (!live(p) && !uniform(p, g_cls[((char *)p - BASE) >> 12] * GRAIN)) ++g_bad; }
    g_nfreed = 0; uint64_t b = g_bad; g_bad = 0; return b;
}
static void * get(size_t n) {
    if (g_fuse > 0 && --g_fuse == 0) throw std::bad_alloc();
    if (!n) n = 1;
    if (!g_seed || n > (CLASSES - 1) * GRAIN) { void * p = malloc(n); if (!p) throw std::bad_alloc(); if (g_seed) memset(p, g_fill, n); return p; }
    size_t k = (n + GRAIN - 1) / GRAIN, sz = k * GRAIN; Class & c = g_class[k];
    if (c.n < 8) { size_t bytes = (sz * 64 + 4095) & ~size_t(4095); if (g_top + bytes > g_end) { fprintf(stderr, "arena full\n"); abort(); } for (size_t i = 0; i + sz <= bytes; i += sz) push(c, g_top + i); for (size_t i = 0; i < bytes; i += 4096) g_cls[(g_top + i - BASE) >> 12] = (uint8_t)k; g_top += bytes; }
    size_t i = rnd() % c.n; void * p = c.slot[i]; c.slot[i] = c.slot[--c.n]; if (!uniform(p, sz)) ++g_bad; live(p) = 1; memset(p, g_fill, sz); return p;
}
static void put(void * p) {
    if (!p) return; if (!g_top || (char *)p < BASE || (char *)p >= g_end) { free(p); return; }
    Class & c = g_class[g_cls[((char *)p - BASE) >> 12]]; memset(p, g_free, (size_t)(&c - g_class) * GRAIN); live(p) = 0; g_freed[g_nfreed++ % NFREED] = p; push(c, p);
}
}
void * operator new(size_t n) { return af::get(n); }
void * operator new[](size_t n) { return af::get(n); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { try { return af::get(n); } catch (...) { return nullptr; } }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { try { return af::get(n); } catch (...) { return nullptr; } }
void operator delete(void * p) noexcept { af::put(p); }
void operator delete[](void * p) noexcept { af::put(p); }
void operator delete(void * p, size_t) noexcept { af::put(p); }
void operator delete[](void * p, size_t) noexcept { af::put(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { af::put(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { af::put(p); }
