// Monitor: the code under test is compiled with -fsanitize=thread, but the
// call-backs are these.  They collect, per task and stretch of execution between
// two synchronisations, which bytes were read and written, and let the
// scheduler switch tasks in the middle of anything.  Memory is never reused, so
// that an address means one object only.
#include "mon.hpp"
#include "vrt.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <sys/mman.h>
namespace mon {
bool on = false;
extern bool record;
std::vector<Item> items;
namespace {
struct Acc { uintptr_t a, b; };
struct Seg { std::vector<Acc> r, w; };
std::vector<Seg> open_; // by task
unsigned long rng = 12345;
void squeeze(std::vector<Acc> &v) {
  std::sort(v.begin(), v.end(), [](const Acc &x, const Acc &y) { return x.a < y.a; });
  size_t o = 0;
  for (size_t k = 0; k < v.size(); k++) {
    if (o && v[k].a <= v[o - 1].b) v[o - 1].b = std::max(v[o - 1].b, v[k].b);
    else v[o++] = v[k];
  }
  v.resize(o);
}
void close_seg(int t) {
  if ((size_t)t >= open_.size()) return;
  Seg &s = open_[(size_t)t];
  if (s.r.empty() && s.w.empty()) return;
  squeeze(s.r);
  squeeze(s.w);
  Item it;
  it.kind = 's';
  it.task = t;
  for (auto &x : s.r) it.r.push_back({x.a, x.b});
  for (auto &x : s.w) it.w.push_back({x.a, x.b});
  items.push_back(it);
  s = Seg();
}
void sync(char k, int t, int o) {
  if (!on) return;
  vrt::Quiet q;
  close_seg(t);
  Item it;
  it.kind = k;
  it.task = t;
  it.obj = o;
  items.push_back(it);
}
inline void access(void *p, size_t n, bool w) {
  if (p == (void *)&vrt::quiet) return;
  if (!on || vrt::quiet || !vrt::active()) return;
  vrt::Quiet q;
  int t = vrt::self();
  if (record) {
    if ((size_t)t >= open_.size()) open_.resize((size_t)t + 64);
    auto &v = w ? open_[(size_t)t].w : open_[(size_t)t].r;
    uintptr_t a = (uintptr_t)p;
    if (!v.empty() && v.back().b == a) v.back().b = a + n;
    else if (v.empty() || a < v.back().a || a + n > v.back().b) {
      v.push_back({a, a + n});
      if (v.size() > (1u << 20)) squeeze(v);
    }
  }
  if (vrt::opt.preempt) {
    rng = rng * 6364136223846793005ul + 1442695040888963407ul;
    if ((rng >> 33) % (unsigned long)vrt::opt.preempt == 0) vrt::yield();
  }
}
} // namespace
bool record = true;
void start() {
  on = true;
  rng = 88172645463325252ul + vrt::opt.seed * 77777ul;
  vrt::on_sync = sync;
}
void stop() {
  on = false;
  for (size_t t = 0; t < open_.size(); t++) close_seg((int)t);
}
void mem(const void *p, size_t n, bool w) {
  if (n) access((void *)p, n, w);
}
} // namespace mon
using mon::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                               \
  void __tsan_read##N(void *p) { access(p, N, false); }                     \
  void __tsan_write##N(void *p) { access(p, N, true); }                     \
  void __tsan_unaligned_read##N(void *p) { access(p, N, false); }           \
  void __tsan_unaligned_write##N(void *p) { access(p, N, true); }           \
  void __tsan_volatile_read##N(void *p) { access(p, N, false); }            \
  void __tsan_volatile_write##N(void *p) { access(p, N, true); }            \
  void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false); }  \
  void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void *p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void *p) { access(p, 8, false); }
// atomics synchronise
static std::map<void *, int> *atoms;
static void sync_on(void *p) {
  if (!mon::on || vrt::quiet || !vrt::active()) return;
  vrt::Quiet q;
  if (!atoms) atoms = new std::map<void *, int>;
  int &o = (*atoms)[p];
  if (!o) o = vrt::newobj();
  vrt::acq(o);
  vrt::rel(o);
}
#define ATOM(N, T)                                                                                                    \
  T __tsan_atomic##N##_load(const volatile T *a, int) { sync_on((void *)a); return *a; }                               \
  void __tsan_atomic##N##_store(volatile T *a, T v, int) { sync_on((void *)a); *a = v; }                               \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { sync_on((void *)a); T o = *a; *a = v; return o; }           \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { sync_on((void *)a); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { sync_on((void *)a); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { sync_on((void *)a); T o = *a; *a = (T)(o & v); return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { sync_on((void *)a); T o = *a; *a = (T)(o | v); return o; }  \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { sync_on((void *)a); T o = *a; *a = (T)(o ^ v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                                 \
    sync_on((void *)a);                                                                                                \
    if (*a == *c) { *a = v; return 1; }                                                                                \
    *c = *a;                                                                                                           \
    return 0;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) {                               \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, x, y);                                                  \
  }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// block operations and memory management (--wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  mon::mem(s, n, false);
  mon::mem(d, n, true);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  mon::mem(s, n, false);
  mon::mem(d, n, true);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  mon::mem(d, n, true);
  return __real_memset(d, c, n);
}
void __wrap_free(void *) {}
// statics of functions and mutexes: waiting lets other tasks run
int __real___cxa_guard_acquire(unsigned char *);
void __real___cxa_guard_release(unsigned char *);
void __real___cxa_guard_abort(unsigned char *);
static std::map<void *, int> *busy_guards;
int __wrap___cxa_guard_acquire(unsigned char *g) {
  if (!vrt::active()) return __real___cxa_guard_acquire(g);
  vrt::Quiet q;
  if (!busy_guards) busy_guards = new std::map<void *, int>;
  do vrt::wait([g] { return !(*busy_guards)[g]; }); while ((*busy_guards)[g]);
  int r = __real___cxa_guard_acquire(g);
  (*busy_guards)[g] = r;
  vrt::quiet -= 1;
  sync_on(g);
  vrt::quiet += 1;
  return r;
}
void __wrap___cxa_guard_release(unsigned char *g) {
  if (vrt::active() && busy_guards) {
    sync_on(g);
    vrt::Quiet q;
    (*busy_guards)[g] = 0;
  }
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(unsigned char *g) {
  if (vrt::active() && busy_guards) {
    vrt::Quiet q;
    (*busy_guards)[g] = 0;
  }
  __real___cxa_guard_abort(g);
}
int __real_pthread_mutex_lock(void *);
int __real_pthread_mutex_unlock(void *);
static std::map<void *, int> *busy_mutexes;
int __wrap_pthread_mutex_lock(void *m) {
  if (!vrt::active()) return __real_pthread_mutex_lock(m);
  {
    vrt::Quiet q;
    if (!busy_mutexes) busy_mutexes = new std::map<void *, int>;
    do vrt::wait([m] { return !(*busy_mutexes)[m]; }); while ((*busy_mutexes)[m]);
    (*busy_mutexes)[m] = 1;
  }
  sync_on(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(void *m) {
  if (!vrt::active()) return __real_pthread_mutex_unlock(m);
  sync_on(m);
  vrt::Quiet q;
  if (busy_mutexes) (*busy_mutexes)[m] = 0;
  return 0;
}
}
void operator delete(void *) noexcept {}
void operator delete[](void *) noexcept {}
void operator delete(void *, size_t) noexcept {}
void operator delete[](void *, size_t) noexcept {}
namespace vrt {
void *stack_alloc(size_t n) {
  char *p = (char *)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == (char *)MAP_FAILED) abort();
  mprotect(p, 4096, PROT_NONE);
  return p + 4096;
}
void stack_free(void *p, size_t n) { madvise(p, n, MADV_DONTNEED); }
} // namespace vrt
