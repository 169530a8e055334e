// sched.hpp - controlled scheduler: the threads of one execution run one at a time; at every synchronisation
// operation (atomic access, lock, condition variable, thread creation, pread/pwrite) the explorer decides who
// continues, up to a preemption bound. Plain memory accesses are checked for data races (vector clocks).
#pragma once
#include <functional>
#include <string>
#include "lib/mc.hpp"

namespace sched {
struct Options {
  int preemptions = 2;
  int max_points = 30000;     // more scheduling points than this: livelock
  bool quiet_loads = false;   // no points at atomic loads of locations written only under a lock the reader holds
  int fair = 400;             // points a thread may run in a row while others could
  bool races = true;
  bool time_out_waits = true; // timed waits may expire when nothing else can run
  bool io_points = true;      // pread/pwrite/fsync are scheduling points
  bool split_io = false;      // pread/pwrite of 1 KiB and more take place in two halves with a point in between
  int fail_create = -1;       // this thread creation fails with EAGAIN
  bool wake_choice = true;    // notify_one wakes any waiter
};
// Runs body as thread 0 of a controlled execution. All threads it creates must be joined by the end of body.
// The scenario must have isolate = true.
void run(const Options &o, const std::function<void()> &body);
bool active();
int tid();
void point();                       // explicit scheduling point
uint64_t points();                  // scheduling points so far
uint64_t now();                     // logical time: number of scheduling points (for interval reasoning)
void ignore_races_in(const std::string &symbol_substring);
void no_preempt(bool on);           // between on and off the current thread is not preempted (harness bookkeeping)
struct NoPreempt {
  NoPreempt() { no_preempt(true); }
  ~NoPreempt() { no_preempt(false); }
};
}  // namespace sched
