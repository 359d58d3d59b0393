// controlled execution of parallel regions: the program's OpenMP runtime and memory access callbacks
#ifndef OMP_SCHED_H
#define OMP_SCHED_H
#include <string>
#include <set>
#include <cstdint>
namespace omp {
struct State { unsigned threads = 1; unsigned order = 0; // number of simulated threads and the order in which they run (index of a permutation; 1 for more than 4 threads: backwards)
  bool record = true; uint64_t regions = 0, accesses = 0, schedules = 0; std::set<void*> fns; std::string conflict; };
State& state();
inline unsigned orders(unsigned threads) { return threads == 1 ? 1 : threads == 2 ? 2 : threads == 3 ? 6 : threads == 4 ? 24 : 2; }
}
#endif
