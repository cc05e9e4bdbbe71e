// A small deterministic runtime: every task, continuation, parallel iteration
// and OpenMP team member is a fiber; one of several scheduling strategies picks
// the next fiber at every scheduling point.  It records the synchronisation
// events (release/acquire) from which the Race specification derives what
// happens before what.
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <string>
#include <vector>

namespace vrt {
struct Opt {
  std::string strategy = "eager"; // eager fifo lifo random script
  unsigned seed = 1;
  std::vector<int> script;
  int preempt = 0; // monitor build: switch at about every n-th memory access
  int threads = 3; // OpenMP team size
  int limit = 0;   // teams are not larger than this, whatever is asked for (0: no limit)
  int localities = 1;
  int chunk = 1;    // iterations per task of a parallel algorithm (0: all in one)
  int backwards = 0; // parallel algorithms and teams: spawn in reverse order
};
extern Opt opt;
// Runs fn as task 1 under the scheduler; returns when fn returned. Tasks still
// unfinished then are counted by live().
void run(const Opt &o, std::function<void()> fn);
int live();             // unfinished tasks other than the main one
void drain();           // let all remaining tasks run to completion
int spawned();          // tasks created so far
std::vector<int> &choices(); // number of alternatives at each choice made

int spawn(std::function<void()> fn, int locality = -1);
void wait(std::function<bool()> ready); // block the current task until ready()
void yield();
int self();
int locality();
bool active();

// happens-before bookkeeping
int newobj();
void rel(int obj);
void acq(int obj);
struct Sync { char kind; int task, obj; };
const std::vector<Sync> &syncs();
int epoch(int task);
int tasks();

// Monitoring of memory accesses is off inside the runtime.
extern int quiet;
struct Quiet {
  Quiet() { ++quiet; }
  ~Quiet() { --quiet; }
};
// deadlock and the like: told to the harness, which logs it and ends the case
// told about every synchronisation before it is counted
extern void (*on_sync)(char kind, int task, int obj);
extern void (*on_stuck)(const char *what);

// OpenMP per-task state
struct Team;
Team *&cur_team();
int &cur_tid();
void *&cur_omp();

// monitor (tsan.cpp); weak defaults in vrt.cpp
void *stack_alloc(size_t n);
void stack_free(void *p, size_t n);
} // namespace vrt
