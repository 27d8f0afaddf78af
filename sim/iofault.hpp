// write() and writev() of chosen descriptors: short, interrupted, or refused because the device is full.
#pragma once
#include <cstdint>
namespace iof {
struct WF {
    int fd = -1;          // the descriptor concerned; -2: every one above stderr
    uint64_t s = 0;       // state of the stream of decisions
    uint64_t n = 0;       // faults so far
    bool on = false;      // short and interrupted writes
    int again = 0;        // interruptions in a row
    bool full = false;    // the device is full
    uint64_t nfull = 0;
};
extern WF wf;
}
