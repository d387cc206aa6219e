// OpenMP runtime under a seeded scheduler, with a happens-before race detector.
// Worker threads are real, but exactly one runs at any time: the one the scheduler chose.
#ifndef VERIF_SIMOMP_H
#define VERIF_SIMOMP_H
#include <cstdint>

namespace simomp {
struct Preempt { uint64_t step; uint64_t choice; };

//! Schedule of all parallel regions until the next call.
struct Sched {
  int maxThreads = 1;    //!< what omp_get_max_threads returns
  int team = 0;          //!< threads that a region really gets, 0: as many as asked for
  uint64_t seed = 1;     //!< decides which thread runs next
  uint64_t gap = 0;      //!< mean number of visible accesses between switches, 0: none of these
  const Preempt* pre = nullptr; //!< switches at given accesses, ascending
  int npre = 0;
};

struct Stats {
  uint64_t regions = 0, steps = 0, switches = 0, blocked = 0, accesses = 0;
  uint64_t hash = 0;     //!< of the sequence of (access number, thread)
  int races = 0;
  bool deadlock = false;
  char race[600] = "";   //!< the first one
};

void begin(const Sched& s); //!< also clears the statistics
void end();                 //!< back to one thread
extern Stats stats;
extern double (*wtime)();
void yieldPoint();          //!< lets the scheduler switch (explicit)
bool active();              //!< inside of a parallel region with several threads
void touch(const void* p, unsigned long n, bool write); //!< access by uninstrumented code
}
#endif
