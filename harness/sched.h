// Controlled scheduling of threads: while active, only one thread runs at a
// time, and at each synchronization operation (atomics, mutexes, condition
// variables, thread creation, end and join, reading the clock, sleeping) the
// test case may choose another one to go on. Time is virtual.
//
// Atomics reach this through the calls that the compiler's thread sanitizer
// pass makes for them; the sanitizer's runtime library is not linked.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_

#include <functional>
#include <string>

#include "pbt.h"

namespace sched {

struct Stats {
  long points = 0;    // places where a switch was possible
  long switches = 0;  // switches away from a thread that could go on
  long blocked = 0;   // a thread had to wait
  long spurious = 0;  // spurious wake-ups
  int threads = 1;    // threads seen, including the first
  int left = 0;       // threads which had not ended when the body returned
};

struct Options {
  long max_points = 400000;
  // Also look for data races: accesses to the same memory by two threads which
  // no synchronization orders (happens-before, from the memory orders that the
  // code asks for).
  bool races = false;
};

// Draws a style of scheduling and runs the body under it. A state in which no
// thread can go on, too many steps without an end, or a race stop the process
// after adding what happened to the description of the case.
Stats Run(pbt::Case& c, const std::string& text,
          const std::function<void()>& body, const Options& options = Options());

// Number of the calling thread: 0 for the one that called Run, -1 outside.
int Self();
// A place for switching, for code of the harness.
void Point();
// Lets time pass.
void Sleep(double milliseconds);

// From now on, watches for writes to these bytes by more than one thread (as far
// as they are done by compiled code, not by assembly). Returns whether there
// were any since the previous call.
bool WatchWrites(void* p, long bytes);

}  // namespace sched

#endif
