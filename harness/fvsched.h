// Controlled scheduler and happens-before race detector.
//
// Code under test is compiled with -fsanitize=thread and linked with fvsched.cpp instead of the
// sanitizer's runtime: every atomic operation, mutex, condition variable and thread creation becomes a
// scheduling point of a single-process, fiber-based scheduler driven by explore.h; every plain
// memory access is checked against vector clocks built from the memory orders the code asked for.
#pragma once
#include "explore.h"
#include <functional>

namespace fvs {

struct Options {
    int  preemptions = 2;     // switches away from a thread that could have continued
    int  spurious    = 0;     // spurious wake-ups of condition waits / weak CAS failures
    bool cache       = true;  // prune states already reached through an equivalent partial order
    long horizon     = 20000; // scheduling points in one execution
};

// Runs one execution: resets memory and runtime, starts the threads the program created during static
// initialisation plus one fiber per body, explores until every body returned and the rest is blocked.
void execute(const Options&, const std::vector<std::function<void()>>& bodies,
             const std::function<void()>& at_end, const std::function<void()>& setup = nullptr);

// for the bodies
int  self();                                   // fiber id
void check_violation(const char* fmt, ...);    // reports and ends this execution
void plain_write(void* p, size_t n);           // annotate accesses done by uninstrumented code
void plain_read(const void* p, size_t n);
void join_all();                               // body: block until every other body returned and nothing can run
void yield_point();                            // an explicit scheduling point
void no_preempt(bool);                         // run a stretch without scheduling points
long clock_tick();                             // order of events in this execution (for histories)
void* scratch(size_t n);                       // memory kept outside the snapshot, zeroed per execution
void bump(int i);                              // counters()[i]++, invisible to the race detector
int* counters();                               // 1024 ints, zeroed per execution
long live_allocs();
size_t static_threads();                       // threads created before the first execution
}
