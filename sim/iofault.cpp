#include "iofault.hpp"
#include <cerrno>
#include <string>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace iof { WF wf; }
using iof::wf;
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static bool mine(int fd) { return wf.fd == -2 ? fd > 2 : fd == wf.fd; }
// how many of n bytes to write; -1: fail with errno
static ssize_t decide(int fd, size_t n) {
    if (!n || !mine(fd)) return (ssize_t)n;
    if (wf.full) { ++wf.nfull; errno = ENOSPC; return -1; }
    if (!wf.on) return (ssize_t)n;
    wf.s = mix(wf.s);
    if (wf.s % 3 == 0 && wf.again < 4) { ++wf.again; ++wf.n; errno = EINTR; return -1; }
    wf.again = 0;
    if (wf.s % 2 && n > 1) { ++wf.n; return 1 + (ssize_t)((wf.s >> 8) % (n - 1)); }
    return (ssize_t)n;
}
extern "C" ssize_t write(int fd, const void * b, size_t n) { ssize_t k = decide(fd, n); return k < 0 ? -1 : syscall(SYS_write, fd, b, (size_t)k); }
extern "C" ssize_t writev(int fd, const struct iovec * v, int k) {
    size_t tot = 0; for (int i = 0; i < k; ++i) tot += v[i].iov_len;
    ssize_t m = decide(fd, tot); if (m < 0) return -1; if ((size_t)m == tot) return syscall(SYS_writev, fd, v, k);
    std::string all; for (int i = 0; i < k; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len); return syscall(SYS_write, fd, all.data(), (size_t)m); }
