// Memory monitor: the code under test is compiled with -fsanitize=thread, but the
// call-backs are these.  They record, for every heap block the code touches, its
// size, the range of bytes touched while it lived, its release, and what was
// touched afterwards.  Nothing is reused; blocks lie far apart, and large ones
// end at an inaccessible page, so that accesses the compiler cannot see (inline
// assembly) do not go unnoticed.  Nothing is judged here.
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
}
namespace {
struct Blk {
  uintptr_t a;
  size_t n;
  int id; // 0: not mentioned yet
  bool live, pending, told_free;
  long lo, hi;
};
const size_t ARENA = 24ul << 30, TABLE = 1ul << 23, LOG = 1ul << 30, PAGE = 4096, SMALL = 1024, ZONE = 2048;
char *base, *top, *text;
size_t used;
Blk *blk;
size_t blks;
bool on;
int ids;
void *region(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    static const char m[] = "memory monitor: no address space\n";
    if (write(2, m, sizeof m)) {}
    _exit(96);
  }
  return p;
}
void setup() {
  base = top = (char *)region(ARENA);
  top += ZONE;
  blk = (Blk *)region(TABLE * sizeof(Blk));
  text = (char *)region(LOG);
}
void say(const char *f, ...) {
  if (used + 256 > LOG) _exit(96);
  va_list l;
  va_start(l, f);
  used += (size_t)vsnprintf(text + used, 256, f, l);
  va_end(l);
}
uintptr_t up(uintptr_t x, size_t al) { return (x + al - 1) / al * al; }
void *get(size_t n, size_t al) {
  if (!base) setup();
  if (al < 16) al = 16;
  uintptr_t a;
  if (n < SMALL) {
    a = up((uintptr_t)top + ZONE, al);
    top = (char *)(a + n + ZONE);
  } else {
    // as close to the inaccessible pages behind it as the alignment allows
    uintptr_t s = up((uintptr_t)top + ZONE + n, PAGE);
    uintptr_t e = up(s + al + n, PAGE);
    a = (e - n) / al * al;
    size_t guard = up(n, PAGE) + PAGE;
    mprotect((void *)e, guard, PROT_NONE);
    top = (char *)(e + guard);
  }
  if (top > base + ARENA || blks == TABLE) _exit(96);
  Blk &b = blk[blks++];
  b.a = a;
  b.n = n;
  b.live = true;
  // not zero: somebody else's data
  __real_memset((void *)a, 0x5a, n < 65536 ? n : 65536);
  return (void *)a;
}
size_t last[4];
unsigned turn;
// the block meant by an address: the one it is in, else the one it lies behind, else the one before which it lies
Blk *find(uintptr_t p) {
  if (!base || p < (uintptr_t)base || p >= (uintptr_t)top || !blks) return nullptr;
  for (size_t k : last) {
    Blk &b = blk[k];
    if (k < blks && p >= b.a && p < b.a + b.n) return &b;
  }
  size_t l = 0, h = blks;
  while (l < h) {
    size_t m = (l + h) / 2;
    if (blk[m].a <= p) l = m + 1;
    else h = m;
  }
  if (!l) return &blk[0];
  Blk *b = &blk[l - 1];
  if (p < b->a + b->n) last[turn++ & 3] = l - 1;
  else if (l < blks && blk[l].a - p < p - (b->a + b->n)) return &blk[l];
  return b;
}
void name(Blk *b) {
  if (b->id) return;
  b->id = ++ids;
  say("{\"e\":\"mnew\",\"b\":%d,\"n\":%ld}\n", b->id, (long)(b->n > 2000000000ul ? 2000000000ul : b->n));
}
void told(Blk *b) {
  if (!b->pending) return;
  name(b);
  say("{\"e\":\"muse\",\"b\":%d,\"lo\":%ld,\"hi\":%ld}\n", b->id, b->lo, b->hi);
  b->pending = false;
}
void gone(Blk *b) {
  if (b->live || b->told_free) return;
  name(b);
  b->told_free = true;
  say("{\"e\":\"mfree\",\"b\":%d}\n", b->id);
}
inline void access(const void *q, size_t n) {
  if (!on || !n) return;
  uintptr_t p = (uintptr_t)q;
  Blk *b = find(p);
  if (!b) return;
  if (!b->live) gone(b);
  long lo = (long)(p - b->a), hi = lo + (long)n;
  if (!b->pending) {
    b->pending = true;
    b->lo = lo;
    b->hi = hi;
  } else {
    if (lo < b->lo) b->lo = lo;
    if (hi > b->hi) b->hi = hi;
  }
}
void put(void *q) {
  if (!q) return;
  uintptr_t p = (uintptr_t)q;
  if (!base || p < (uintptr_t)base || p >= (uintptr_t)top) {
    __real_free(q);
    return;
  }
  Blk *b = find(p);
  if (!b || b->a != p) {
    if (on) say("{\"e\":\"mfree\",\"b\":0}\n");
    return;
  }
  if (!b->live) {
    if (on) {
      gone(b);
      say("{\"e\":\"mfree\",\"b\":%d}\n", b->id);
    }
    return;
  }
  if (on) told(b);
  b->live = false;
  if (on && b->id) gone(b);
  // what is read later is not what was there
  __real_memset((void *)b->a, 0xa5, b->n < 65536 ? b->n : 65536);
}
} // namespace
extern "C" {
void vf_mem_begin() {
  if (!base) setup();
  for (size_t k = 0; k < blks; k++) blk[k].pending = false;
  on = true;
}
void vf_mem_end(const char **t, size_t *n) {
  on = false;
  for (size_t k = 0; k < blks; k++) told(&blk[k]);
  *t = text;
  *n = used;
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                     \
  void __tsan_read##N(void *p) { access(p, N); }                  \
  void __tsan_write##N(void *p) { access(p, N); }                 \
  void __tsan_unaligned_read##N(void *p) { access(p, N); }        \
  void __tsan_unaligned_write##N(void *p) { access(p, N); }       \
  void __tsan_volatile_read##N(void *p) { access(p, N); }         \
  void __tsan_volatile_write##N(void *p) { access(p, N); }        \
  void __tsan_unaligned_volatile_read##N(void *p) { access(p, N); } \
  void __tsan_unaligned_volatile_write##N(void *p) { access(p, N); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n); }
void __tsan_write_range(void *p, size_t n) { access(p, n); }
void __tsan_vptr_update(void *p, void *) { access(p, 8); }
void __tsan_vptr_read(void *p) { access(p, 8); }
#define ATOM(N, T)                                                                                                   \
  T __tsan_atomic##N##_load(const volatile T *a, int) { access((void *)a, sizeof *a); return *a; }                    \
  void __tsan_atomic##N##_store(volatile T *a, T v, int) { access((void *)a, sizeof *a); *a = v; }                    \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { access((void *)a, sizeof *a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { access((void *)a, sizeof *a); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { access((void *)a, sizeof *a); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { access((void *)a, sizeof *a); T o = *a; *a = (T)(o & v); return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { access((void *)a, sizeof *a); T o = *a; *a = (T)(o | v); return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { access((void *)a, sizeof *a); T o = *a; *a = (T)(o ^ v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                                \
    access((void *)a, sizeof *a);                                                                                     \
    if (*a == *c) { *a = v; return 1; }                                                                               \
    *c = *a;                                                                                                          \
    return 0;                                                                                                         \
  }                                                                                                                   \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) {                              \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, x, y);                                                 \
  }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access(s, n);
  access(d, n);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  access(s, n);
  access(d, n);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  access(d, n);
  return __real_memset(d, c, n);
}
void *__wrap_malloc(size_t n) { return get(n, 16); }
void *__wrap_calloc(size_t n, size_t m) {
  void *p = get(n * m, 16);
  return __real_memset(p, 0, n * m);
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return get(n, al); }
void *__wrap_memalign(size_t al, size_t n) { return get(n, al); }
void *__wrap__mm_malloc(size_t n, size_t al) { return get(n, al); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) {
  if (al < sizeof(void *) || (al & (al - 1))) return EINVAL;
  *p = get(n, al);
  return 0;
}
void __wrap_free(void *p) { put(p); }
void *__wrap_realloc(void *p, size_t n) {
  void *r = get(n, 16);
  if (!p) return r;
  Blk *b = find((uintptr_t)p);
  if (b && b->a == (uintptr_t)p) __real_memcpy(r, p, b->n < n ? b->n : n);
  put(p);
  return r;
}
}
void *operator new(size_t n) { return get(n, 16); }
void *operator new[](size_t n) { return get(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n, 16); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
