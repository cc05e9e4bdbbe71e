// OpenMP run-time entry points (the ABI g++ compiles to) on fibers: the members
// of a team are tasks of the deterministic runtime, so their interleaving is
// chosen by it and their synchronisation is recorded.
#include "vrt.hpp"
#include <cstdlib>
#include <cstring>
#include <functional>
#include <ctime>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace vrt {
struct Loop {
  bool up = true;
  unsigned long long next = 0, end = 0, incr = 1, chunk = 1, left = 0; // left: iterations
  int sections = 0, section = 0;
  bool single = false;
  void *copy = nullptr;
  bool copied = false;
  long ordered = 0;
};
struct Team {
  int n = 1, arrived = 0, gen = 0, obj = 0, done = 0, level = 1, tasks = 0;
  std::map<int, std::unique_ptr<Loop>> loops;
  Loop *loop(int k) {
    auto &p = loops[k];
    if (!p) p.reset(new Loop);
    return p.get();
  }
};
struct Group { int live = 0, obj = 0; };
struct Kids { int live = 0, obj = 0; };
struct Thr { // per task
  int ws = 0;
  Loop *cur = nullptr;
  Kids *kids = nullptr;
  std::vector<Group *> groups;
};
} // namespace vrt
using namespace vrt;
namespace {
int want = 0; // omp_set_num_threads
bool dyn = false;
struct Lock { bool held = false; int obj = 0, owner = 0, depth = 0; };
std::map<void *, Lock> locks;
Thr *thr() {
  static Thr alone;
  if (!active()) return &alone;
  if (!cur_omp()) cur_omp() = new Thr;
  return (Thr *)cur_omp();
}
Kids *kids() {
  Thr *h = thr();
  if (!h->kids) {
    h->kids = new Kids;
    h->kids->obj = newobj();
  }
  return h->kids;
}
Team *team() { return active() ? cur_team() : nullptr; }
int nthreads(unsigned asked) {
  if (!active()) return 1;
  if (team()) return 1; // nested parallelism is off
  int n = asked ? (int)asked : want ? want : opt.threads;
  return opt.limit && n > opt.limit ? opt.limit : n;
}
void lock(void *p) {
  if (!active()) return;
  Quiet q;
  Lock &l = locks[p];
  do wait([&l] { return !l.held; }); while (l.held);
  l.held = true;
  if (!l.obj) l.obj = newobj();
  acq(l.obj);
}
void unlock(void *p) {
  if (!active()) return;
  Quiet q;
  Lock &l = locks[p];
  rel(l.obj);
  l.held = false;
}
void barrier() {
  Team *t = team();
  if (!t || t->n == 1) return;
  Quiet q;
  wait([t] { return t->tasks == 0; }); // explicit tasks finish before anyone leaves
  rel(t->obj);
  int g = t->gen;
  if (++t->arrived == t->n) {
    t->arrived = 0;
    t->gen++;
  } else
    wait([t, g] { return t->gen != g; });
  acq(t->obj);
}
void member(Team *t, int tid, void (*fn)(void *), void *data) {
  Team *old = cur_team();
  int oldt = cur_tid();
  void *oldo = cur_omp();
  int oq = quiet;
  cur_team() = t;
  cur_tid() = tid;
  cur_omp() = nullptr;
  quiet = 0;
  fn(data);
  quiet = oq;
  cur_team() = old;
  cur_tid() = oldt;
  cur_omp() = oldo;
}
void parallel(void (*fn)(void *), void *data, unsigned asked, std::unique_ptr<Loop> first) {
  if (!active()) {
    fn(data); // loops outside the runtime are not supported
    return;
  }
  Quiet q;
  Team *t = new Team;
  t->n = nthreads(asked);
  t->obj = newobj();
  int join = newobj();
  if (first) t->loops[0] = std::move(first);
  for (int k = 1; k < t->n; k++) {
    int tid = opt.backwards ? t->n - k : k;
    spawn([t, tid, fn, data, join] {
      member(t, tid, fn, data);
      rel(join);
      t->done++;
    });
  }
  int oq = quiet;
  member(t, 0, fn, data);
  quiet = oq;
  wait([t] { return t->done == t->n - 1 && t->tasks == 0; });
  acq(join);
  acq(t->obj);
}
std::unique_ptr<Loop> mk(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk) {
  std::unique_ptr<Loop> l(new Loop);
  l->up = up;
  l->next = s;
  l->end = e;
  l->incr = inc;
  l->chunk = chunk ? chunk : 1;
  unsigned long long step = up ? inc : 0 - inc;
  unsigned long long dist = up ? e - s : s - e;
  bool none = up ? !(s < e) : !(s > e);
  if (none) l->left = 0;
  else l->left = (dist + step - 1) / step;
  return l;
}
bool take(Loop *l, unsigned long long *a, unsigned long long *b) {
  if (!l->left) return false;
  unsigned long long n = l->chunk < l->left ? l->chunk : l->left;
  *a = l->next;
  l->next += n * l->incr;
  l->left -= n;
  *b = l->left ? l->next : l->end;
  return true;
}
bool start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk,
           unsigned long long *a, unsigned long long *b) {
  Quiet q;
  Thr *h = thr();
  static Team alone;
  Team *t = team();
  if (!t) {
    // outside a parallel region: this thread does all
    h->cur = mk(up, s, e, inc, chunk).release();
    return take(h->cur, a, b);
  }
  int k = h->ws++;
  if (!t->loops.count(k)) t->loops[k] = mk(up, s, e, inc, chunk);
  h->cur = t->loop(k);
  yield();
  return take(h->cur, a, b);
}
bool next(unsigned long long *a, unsigned long long *b) {
  Quiet q;
  Thr *h = thr();
  if (!h->cur) h->cur = team()->loop(h->ws++);
  if (active()) yield();
  return take(h->cur, a, b);
}
// signed loops: compare as signed
std::unique_ptr<Loop> mks(long s, long e, long inc, long chunk) {
  bool up = inc > 0;
  if (up ? s >= e : s <= e) return mk(up, 0, 0, (unsigned long long)inc, 1);
  auto l = mk(up, 0, 0, (unsigned long long)inc, (unsigned long long)chunk);
  l->next = (unsigned long long)s;
  l->end = (unsigned long long)e;
  l->left = up ? ((unsigned long long)(e - s) + (unsigned long long)inc - 1) / (unsigned long long)inc
               : ((unsigned long long)(s - e) + (unsigned long long)(-inc) - 1) / (unsigned long long)(-inc);
  return l;
}
bool starts(long s, long e, long inc, long chunk, long *a, long *b) {
  Quiet q;
  Thr *h = thr();
  Team *t = team();
  unsigned long long x, y;
  if (!t)
    h->cur = mks(s, e, inc, chunk).release();
  else {
    int k = h->ws++;
    if (!t->loops.count(k)) t->loops[k] = mks(s, e, inc, chunk);
    h->cur = t->loop(k);
    yield();
  }
  if (!take(h->cur, &x, &y)) return false;
  *a = (long)x;
  *b = (long)y;
  return true;
}
bool nexts(long *a, long *b) {
  unsigned long long x, y;
  if (!next(&x, &y)) return false;
  *a = (long)x;
  *b = (long)y;
  return true;
}
} // namespace

extern "C" {
typedef unsigned long long ull;
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n, nullptr); }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
static int crit, atom;
void GOMP_critical_start() { lock(&crit); }
void GOMP_critical_end() { unlock(&crit); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&atom); }
void GOMP_atomic_end() { unlock(&atom); }
bool GOMP_single_start() {
  Quiet q;
  Team *t = team();
  Thr *h = thr();
  if (!t) return true;
  Loop *l = t->loop(h->ws++);
  if (l->single) return false;
  l->single = true;
  return true;
}
void *GOMP_single_copy_start() {
  Team *t = team();
  Thr *h = thr();
  if (!t) return nullptr;
  Loop *l;
  {
    Quiet q;
    l = t->loop(h->ws++);
    h->cur = l;
  }
  if (!l->single) {
    l->single = true;
    return nullptr;
  }
  barrier();
  return l->copy;
}
void GOMP_single_copy_end(void *d) {
  Team *t = team();
  if (!t) return;
  thr()->cur->copy = d;
  barrier();
}
#define LOOPS(NAME)                                                                                         \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return starts(s, e, i, c, a, b); } \
  bool GOMP_loop_##NAME##_next(long *a, long *b) { return nexts(a, b); }                                    \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return start(up, s, e, i, c, a, b); } \
  bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return next(a, b); }                                   \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { \
    parallel(fn, d, n, mks(s, e, i, c));                                                                    \
  }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define RLOOPS(NAME)                                                                                        \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return starts(s, e, i, 1, a, b); } \
  bool GOMP_loop_##NAME##_next(long *a, long *b) { return nexts(a, b); }                                    \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { return start(up, s, e, i, 1, a, b); } \
  bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return next(a, b); }                                   \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { \
    parallel(fn, d, n, mks(s, e, i, 1));                                                                    \
  }
RLOOPS(runtime) RLOOPS(nonmonotonic_runtime) RLOOPS(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { thr()->cur = nullptr; barrier(); }
void GOMP_loop_end_nowait() { thr()->cur = nullptr; }
bool GOMP_loop_end_cancel() { thr()->cur = nullptr; barrier(); return false; }
unsigned GOMP_sections_next() {
  Quiet q;
  Loop *l = thr()->cur ? thr()->cur : (thr()->cur = team()->loop(thr()->ws++));
  if (l->section >= l->sections) return 0;
  return (unsigned)++l->section;
}
unsigned GOMP_sections_start(unsigned n) {
  Quiet q;
  Thr *h = thr();
  Team *t = team();
  h->cur = t ? t->loop(h->ws++) : new Loop;
  h->cur->sections = (int)n;
  if (active()) yield();
  return GOMP_sections_next();
}
void GOMP_sections_end() { thr()->cur = nullptr; barrier(); }
void GOMP_sections_end_nowait() { thr()->cur = nullptr; }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned) {
  std::unique_ptr<Loop> l(new Loop);
  l->sections = (int)cnt;
  parallel(fn, d, n, std::move(l));
}
// explicit tasks: children are waited for by taskwait, the end of a taskgroup and
// the barrier at the end of the team's region
static void child(void (*fn)(void *), void *mem, std::function<void()> done) {
  Team *t = team();
  Kids *k = kids();
  k->live++;
  if (t) t->tasks++;
  int obj = k->obj;
  int tid = cur_tid();
  std::vector<Group *> gs = thr()->groups;
  for (Group *g : gs) g->live++;
  spawn([=] {
    Team *ot = cur_team();
    int oi = cur_tid();
    void *oo = cur_omp();
    int oq = quiet;
    cur_team() = t;
    cur_tid() = tid;
    cur_omp() = nullptr;
    quiet = 0;
    fn(mem);
    quiet = oq;
    cur_team() = ot;
    cur_tid() = oi;
    cur_omp() = oo;
    rel(obj);
    if (t) rel(t->obj);
    for (Group *g : gs) {
      rel(g->obj);
      g->live--;
    }
    k->live--;
    if (t) t->tasks--;
    done();
  });
}
static void *args(void *data, void (*cpy)(void *, void *), long size, long align) {
  size_t al = align > 16 ? (size_t)align : 16;
  void *m = aligned_alloc(al, ((size_t)size + al - 1) / al * al + al);
  if (cpy) cpy(m, data);
  else memcpy(m, data, (size_t)size);
  return m;
}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool now, unsigned, void **,
               int, void *) {
  if (!active() || !now) {
    void *m = args(data, cpy, size, align);
    fn(m);
    free(m);
    return;
  }
  void *m = args(data, cpy, size, align); // firstprivate copies run user code
  Quiet q;
  child(fn, m, [m] { free(m); });
  yield();
}
void GOMP_taskwait() {
  if (!active()) return;
  Quiet q;
  Kids *k = kids();
  wait([k] { return k->live == 0; });
  acq(k->obj);
}
void GOMP_taskyield() { if (active()) yield(); }
void GOMP_taskgroup_start() {
  if (!active()) return;
  Quiet q;
  Group *g = new Group;
  g->obj = newobj();
  thr()->groups.push_back(g);
}
void GOMP_taskgroup_end() {
  if (!active()) return;
  Quiet q;
  Group *g = thr()->groups.back();
  thr()->groups.pop_back();
  wait([g] { return g->live == 0; });
  acq(g->obj);
  delete g;
}
// the bounds of a piece are written to the first two words of its arguments
extern "C++" {
template <class T> static void taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags,
                                        unsigned long num, T s, T e, T step, bool up) {
  bool group = !(flags & (1u << 11)); // GOMP_TASK_FLAG_NOGROUP
  unsigned long long n;
  if (up ? !(s < e) : !(s > e)) return;
  n = up ? ((unsigned long long)(e - s) + (unsigned long long)step - 1) / (unsigned long long)step
         : ((unsigned long long)(s - e) + (0 - (unsigned long long)step) - 1) / (0 - (unsigned long long)step);
  unsigned long long grain = 1;
  if (flags & (1u << 9)) grain = num ? num : 1; // GOMP_TASK_FLAG_GRAINSIZE
  else if (num) grain = (n + num - 1) / num;
  if (group) GOMP_taskgroup_start();
  for (unsigned long long k = 0; k < n; k += grain) {
    unsigned long long c = grain < n - k ? grain : n - k;
    void *m = args(data, cpy, size, align);
    ((T *)m)[0] = (T)(s + (T)k * step);
    ((T *)m)[1] = (T)(s + (T)(k + c) * step);
    if (k + c == n) ((T *)m)[1] = e;
    if (!active()) {
      fn(m);
      free(m);
    } else {
      Quiet q;
      child(fn, m, [m] { free(m); });
    }
  }
  if (group) GOMP_taskgroup_end();
}
} // extern "C++"
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long num,
                   int, long s, long e, long step) {
  taskloop<long>(fn, data, cpy, size, align, flags, num, s, e, step, step > 0);
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags,
                       unsigned long num, int, ull s, ull e, ull step) {
  taskloop<ull>(fn, data, cpy, size, align, flags, num, s, e, step, (flags & (1u << 8)) != 0); // GOMP_TASK_FLAG_UP
}
// reductions of combined constructs
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n, nullptr); return (unsigned)nthreads(n); }

int omp_get_num_threads() { return team() ? team()->n : 1; }
int omp_get_thread_num() { return team() ? cur_tid() : 0; }
int omp_get_max_threads() { return want ? want : opt.threads; }
void omp_set_num_threads(int n) { want = n > 0 ? n : 1; }
int omp_get_num_procs() { return opt.threads; }
int omp_in_parallel() { return team() && team()->n > 1; }
int omp_get_level() { return team() ? 1 : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_thread_limit() { return 64; }
void omp_set_dynamic(int d) { dyn = d; }
int omp_get_dynamic() { return dyn; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_schedule(int, int) {}
double omp_get_wtime() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
double omp_get_wtick() { return 1e-9; }
typedef struct { int x[4]; } any_lock;
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lock(p); }
void omp_unset_lock(void *p) { unlock(p); }
int omp_test_lock(void *p) {
  if (!active()) return 1;
  if (locks[p].held) return 0;
  lock(p);
  return 1;
}
}
