// Seeded thread scheduler: simulated threads are fibers; every access to
// shared memory (compiler-instrumented) is a scheduling point.
#pragma once
#include "sim.h"

namespace sim::fib {
struct Switch {
  uint64_t step;  // scheduling point (counted over all threads)
  unsigned to;    // runs next (modulo the threads that are still running)
};
struct Schedule {
  std::vector<Switch> switches;      // everything else runs to completion
  std::vector<uint64_t> spurious;    // weak compare-exchanges that fail
};
// an access outside these regions is private to the thread
void share(void const* p, std::size_t n, bool read_only);
void unshare_all();
void run(unsigned n, std::function<void(unsigned)> const& body, Schedule const&);
uint64_t steps();     // scheduling points of the last run
uint64_t now();       // events so far (for operation histories)
int current();        // running thread, -1 outside
}  // namespace sim::fib
