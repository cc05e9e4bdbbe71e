#include "vrt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <memory>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#ifdef VRT_ASAN
#include <sanitizer/common_interface_defs.h>
#endif

namespace vrt {
Opt opt;
int quiet = 0;
void (*on_stuck)(const char *) = nullptr;
void (*on_sync)(char, int, int) = nullptr;

namespace {
const size_t STACK = 8u << 20;
struct EhGlobals { void *caught; unsigned int uncaught; };
struct Fiber {
  int id = 0;
  ucontext_t ctx;
  void *stack = nullptr;
  std::function<void()> fn;
  std::function<bool()> ready; // empty: runnable
  bool done = false;
  int locality = 0;
  int startobj = 0;
  EhGlobals eh{nullptr, 0};
  int quiet = 0;
  Team *team = nullptr;
  int tid = 0;
  void *omp = nullptr;
  void *fake = nullptr;
};
std::deque<std::unique_ptr<Fiber>> fibers; // by id-1
std::vector<Fiber *> pool;                  // unfinished, in creation order
Fiber *cur = nullptr;
Fiber *dead = nullptr; // finished, stack to be freed after the switch
ucontext_t back;
EhGlobals eh_back{nullptr, 0};
void *fake_back = nullptr;
const void *back_bottom = nullptr;
size_t back_size = 0;
bool running = false;
std::vector<Sync> sync_log;
std::vector<int> epochs; // by task id
int objs = 0;
std::vector<int> choice_log;
size_t script_pos = 0;
uint64_t rng_state = 1;
unsigned rnd() {
  rng_state = rng_state * 6364136223846793005ull + 1442695040888963407ull;
  return (unsigned)(rng_state >> 33);
}
EhGlobals *eh() { return (EhGlobals *)abi::__cxa_get_globals(); }

[[noreturn]] void stuck(const char *what) {
  if (on_stuck) on_stuck(what);
  _exit(96);
}
void release_dead() {
  if (dead) {
    Quiet q;
    stack_free(dead->stack, STACK);
    dead->stack = nullptr;
    dead = nullptr;
  }
}
void switch_to(Fiber *f) {
  if (f == cur) return;
  Fiber *old = cur;
  old->eh = *eh();
  old->quiet = quiet;
  cur = f;
#ifdef VRT_ASAN
  __sanitizer_start_switch_fiber(old->done ? nullptr : &old->fake, f->stack, STACK);
#endif
  swapcontext(&old->ctx, &f->ctx);
#ifdef VRT_ASAN
  __sanitizer_finish_switch_fiber(cur->fake, nullptr, nullptr);
#endif
  *eh() = cur->eh;
  quiet = cur->quiet;
  release_dead();
}
// Choose among n alternatives; -1: the strategy prefers its default
int choose(int n) {
  if (n <= 1) return 0;
  choice_log.push_back(n);
  if (script_pos < opt.script.size()) return opt.script[script_pos++] % n;
  if (opt.strategy == "random") return (int)(rnd() % (unsigned)n);
  return 0;
}
// The runnable fibers, oldest first
void runnable(std::vector<Fiber *> &out) {
  out.clear();
  for (Fiber *f : pool) {
    if (f->ready) {
      if (!f->ready()) continue;
      f->ready = nullptr;
    }
    out.push_back(f);
  }
}
// Leave the current fiber (blocked, finished or just yielding) for another.
void schedule() {
  std::vector<Fiber *> r;
  runnable(r);
  if (r.empty()) stuck("deadlock");
  Fiber *n;
  if (opt.strategy == "lifo" || opt.strategy == "eager")
    n = r.back();
  else if (opt.strategy == "fifo")
    n = r.front();
  else
    n = r[(size_t)choose((int)r.size())];
  r.clear();
  r.shrink_to_fit();
  switch_to(n);
}
void entry() {
#ifdef VRT_ASAN
  const void *b;
  size_t s;
  __sanitizer_finish_switch_fiber(nullptr, &b, &s);
  if (!back_bottom) back_bottom = b, back_size = s;
#endif
  quiet = 1;
  release_dead();
  Fiber *me = cur;
  *eh() = EhGlobals{nullptr, 0};
  acq(me->startobj);
  quiet = 0;
  me->fn();
  ++quiet;
  me->fn = nullptr;
  me->done = true;
  for (size_t i = 0; i < pool.size(); i++)
    if (pool[i] == me) {
      pool.erase(pool.begin() + (long)i);
      break;
    }
  if (me->id == 1) {
    // main: back to run()
#ifdef VRT_ASAN
    __sanitizer_start_switch_fiber(nullptr, back_bottom, back_size);
#endif
    setcontext(&back);
  }
  dead = me;
  schedule();
  abort();
}
Fiber *make(std::function<void()> fn, int loc) {
  fibers.emplace_back(new Fiber);
  Fiber *f = fibers.back().get();
  f->id = (int)fibers.size();
  f->fn = std::move(fn);
  f->locality = loc;
  f->stack = stack_alloc(STACK);
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack;
  f->ctx.uc_stack.ss_size = STACK;
  f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, (void (*)())entry, 0);
  if ((int)epochs.size() <= f->id) epochs.resize((size_t)f->id + 1, 1);
  f->startobj = newobj();
  pool.push_back(f);
  return f;
}
} // namespace

__attribute__((weak)) void *stack_alloc(size_t n) {
  size_t g = 4096;
  char *p = (char *)mmap(nullptr, n + g, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == (char *)MAP_FAILED) stuck("no memory for a stack");
  mprotect(p, g, PROT_NONE);
  return p + g;
}
__attribute__((weak)) void stack_free(void *p, size_t n) { munmap((char *)p - 4096, n + 4096); }

int newobj() { return ++objs; }
void rel(int o) {
  if (!running) return;
  Quiet q;
  sync_log.push_back(Sync{'r', cur->id, o});
  if (on_sync) on_sync('r', cur->id, o);
  epochs[(size_t)cur->id]++;
}
void acq(int o) {
  if (!running) return;
  Quiet q;
  sync_log.push_back(Sync{'a', cur->id, o});
  if (on_sync) on_sync('a', cur->id, o);
  epochs[(size_t)cur->id]++;
}
const std::vector<Sync> &syncs() { return sync_log; }
int epoch(int t) { return epochs[(size_t)t]; }
int tasks() { return (int)fibers.size(); }
int self() { return cur ? cur->id : 0; }
int locality() { return cur ? cur->locality : 0; }
bool active() { return running; }
int live() {
  Quiet q;
  int n = 0;
  for (Fiber *f : pool) n += f->id != 1;
  return n;
}
int spawned() { return (int)fibers.size() - 1; }
std::vector<int> &choices() { return choice_log; }
Team *&cur_team() { return cur->team; }
int &cur_tid() { return cur->tid; }
void *&cur_omp() { return cur->omp; }

int spawn(std::function<void()> fn, int loc) {
  Quiet q;
  Fiber *f = make(std::move(fn), loc < 0 ? cur->locality : loc);
  rel(f->startobj);
  if (opt.strategy == "eager")
    switch_to(f); // comes back when the scheduler picks this fiber again
  else if (opt.strategy == "random" || opt.strategy == "script") {
    int c = choose(3);
    if (c == 1)
      switch_to(f);
    else if (c == 2)
      schedule();
  }
  return f->id;
}
void wait(std::function<bool()> ready) {
  Quiet q;
  bool varied = opt.strategy == "random" || opt.strategy == "script";
  if (ready() && !(varied && choose(2) == 1)) return;
  cur->ready = std::move(ready);
  schedule();
}
void yield() {
  Quiet q;
  schedule();
}
void run(const Opt &o, std::function<void()> fn) {
  opt = o;
  rng_state = 88172645463325252ull ^ ((uint64_t)o.seed << 17) ^ o.seed;
  rnd();
  script_pos = 0;
  choice_log.clear();
  fibers.clear();
  pool.clear();
  running = true;
  {
    Fiber root; // a stand-in so that make() has a current fiber
    root.id = 0;
    cur = &root;
    epochs.assign(1, 1);
    Fiber *f = make(std::move(fn), 0);
    eh_back = *eh();
    volatile bool came_back = false;
    getcontext(&back);
    if (!came_back) {
      came_back = true;
      cur = f;
      quiet = 0;
#ifdef VRT_ASAN
      __sanitizer_start_switch_fiber(&fake_back, f->stack, STACK);
#endif
      setcontext(&f->ctx);
    }
#ifdef VRT_ASAN
    __sanitizer_finish_switch_fiber(fake_back, nullptr, nullptr);
#endif
  }
  *eh() = eh_back;
  quiet = 1;
  running = false;
}
void drain() {
  while (live() > 0) wait([] { return live() == 0; });
}
} // namespace vrt
