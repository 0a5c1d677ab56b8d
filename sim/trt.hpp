// Runtime of the thread simulator: a serialising scheduler, a race detector, an arena allocator.
//
// The library is compiled with clang's -fsanitize=thread instrumentation, but linked with the callbacks
// of trt.cpp instead of the ThreadSanitizer runtime. Every instrumented access to the heap or to global
// variables, every atomic operation, lock and allocation is a point where the plan may switch threads.
// Exactly one thread runs at any time.
#pragma once
#include <cstddef>
#include <cstdint>

namespace trt {

constexpr int kMax = 4;                       // main thread and three simulated threads

struct Policy { int reuse = 0; int fill = 0; int freefill = 0; unsigned gap = 0; };

struct Switch { int thread; bool sync; std::uint64_t at; int to; bool done; };

struct Counters {
  std::uint64_t steps[kMax], syncs[kMax], switches, accesses, atomics, locks, allocs, frees;
  std::uint64_t trace;
};

// Faults of the current call of the calling thread.
struct Faults { unsigned long n, from, to, fired; };

void init(int self = 0);                      // the calling thread becomes thread 0
void set_policy(const Policy& p);
void dirty_stack(int pattern);
Counters& counters();
void mix(std::uint64_t v);                    // adds to the trace

// violation(class, message) does not return
extern void (*violation)(const char* cls, const char* msg);

// Runs body(arg) for threads 1..n under the plan of switches. Returns when all have ended.
void run_threads(int n, void (*body)(int), Switch* sw, int nsw);

int self();
// Tracking is on only inside library calls.
struct Lib { bool was; Lib(); ~Lib(); };
struct Off { bool was; Off(); ~Off(); };
Faults& faults();
void touch(const void* p, unsigned n, int write);
void point();                                 // a point where user code runs: may switch
bool alloc_point();                           // true: this allocation fails
std::uint64_t step_limit(std::uint64_t n);

}  // namespace trt
