// Control of memory allocation: failing allocations (a fuse) and memory layout (where blocks are put and what they
// contain initially).  alloc.cpp replaces the global operator new.
#pragma once
#include <cstdint>
namespace af {
extern int64_t g_fuse;
inline int64_t & fuse() { return g_fuse; }
inline void arm(int64_t n) { g_fuse = n; }
inline void disarm() { g_fuse = 0; }
// 0: the C library's allocator.  Otherwise small blocks are placed in a pseudo-random order derived from seed, and fresh
// and freed blocks are filled with a byte derived from it.
void layout(uint64_t seed) __attribute__((weak)); bool laid_out() __attribute__((weak));
// how many blocks were found to be written to while they were free, since the layout was chosen or this was called
uint64_t stray_writes() __attribute__((weak));
// a layout for the extent of a run, unless one was chosen already
struct Lay { bool on; Lay(uint64_t s) : on(layout && !laid_out()) { if (on) layout(s); } ~Lay() { if (on) layout(0); } };
// a layout seed that depends on the configuration of a plan
template<class P> uint64_t seed_of(const P & p) { uint64_t s = 3; for (auto & k : p.cfg) { for (char x : k.first) s = (s ^ (uint8_t)x) * 1099511628211ull; s = (s ^ (uint64_t)k.second) * 1099511628211ull; } return s | 1; }
template<class C> void no_stray_writes(C & c) { if (stray_writes) if (uint64_t n = stray_writes()) c.fail("stray-write", "%lu blocks of memory were written to after they had been freed", (unsigned long)n); }
}
