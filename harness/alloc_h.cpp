// Replays lives of aligned_allocator objects over a heap that places blocks
// adversarially and records what is taken and given back.
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <sys/mman.h>
#include "aligned_allocator.hpp"
#include "kit.hpp"
using kit::Ev;
typedef alignment::aligned_allocator AA;
static const size_t TOP = 1u << 21, ROOM = 48u << 20;
static char *arena;
static size_t brk_;
static bool armed, oom;
static size_t shift_;
static std::map<size_t, size_t> live; // offset -> end
static std::vector<std::pair<long, long>> got, gone;
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
static bool inside(void *p) { return (char *)p >= arena && (char *)p < arena + ROOM; }
// blocks of more than 2^31 bytes: address space only, one at a time
struct Xl { char *map, *lo, *hi; size_t len; };
static std::vector<Xl> xls;
static bool xl;
static long xgot, xgone;
static void *takexl(size_t n, size_t al) {
  if (al < 16) al = 16;
  size_t len = n + 4 * al + 8192;
  char *m = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == (char *)MAP_FAILED) {
    kit::log(Ev("none"));
    _exit(0);
  }
  uintptr_t at = ((uintptr_t)m + al - 1) / al * al;
  if (at % (2 * al) == 0) at += al;
  xls.push_back({m, (char *)at, (char *)at + n, len});
  xgot++;
  return (char *)at;
}
static bool givexl(void *p) {
  for (size_t k = 0; k < xls.size(); k++)
    if (xls[k].lo == p) {
      munmap(xls[k].map, xls[k].len);
      xls.erase(xls.begin() + (long)k);
      xgone++;
      return true;
    }
  return false;
}
static void *take(size_t n, size_t al) {
  if (xl) return takexl(n, al);
  if (oom || n > ROOM / 4) return nullptr;
  if (al < 16) al = 16;
  // the first multiple of al that is no multiple of 2 al, and farther away as
  // told: no more aligned than promised
  size_t at = ((brk_ + al - 1) / al) * al;
  at += (shift_ % 64) * al;
  if (shift_ < 64 && at % (2 * al) == 0) at += al;
  if (at + n + 64 > ROOM) return nullptr;
  brk_ = at + n + 64;
  live[at] = at + n;
  got.push_back({(long)at, (long)(at + n)});
  return arena + at;
}
static void give(void *p) {
  size_t at = (size_t)((char *)p - arena);
  auto it = live.find(at);
  if (it == live.end()) {
    gone.push_back({(long)at, -1}); // not a live block
    return;
  }
  gone.push_back({(long)at, (long)it->second});
  memset(p, 0xdd, it->second - at);
  live.erase(it);
}
static void *gen(size_t n, size_t al, bool nothrow) {
  if (!armed) {
    void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1);
    return p;
  }
  armed = false; // bookkeeping is not recorded
  void *p = take(n, al);
  armed = true;
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static void rel(void *p) {
  if (!p) return;
  if (!xls.empty() && givexl(p)) return;
  if (inside(p)) {
    bool a = armed;
    armed = false;
    give(p);
    armed = a;
  } else
    __real_free(p);
}
void *operator new(size_t n) { return gen(n, 16, false); }
void *operator new[](size_t n) { return gen(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return gen(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return gen(n, 16, true); }
void operator delete(void *p) noexcept { rel(p); }
void operator delete[](void *p) noexcept { rel(p); }
void operator delete(void *p, size_t) noexcept { rel(p); }
void operator delete[](void *p, size_t) noexcept { rel(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { rel(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { rel(p); }
#ifdef __cpp_aligned_new
void *operator new(size_t n, std::align_val_t a) { return gen(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return gen(n, (size_t)a, false); }
void operator delete(void *p, std::align_val_t) noexcept { rel(p); }
void operator delete[](void *p, std::align_val_t) noexcept { rel(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { rel(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { rel(p); }
#endif
extern "C" {
void *__wrap_malloc(size_t n) { return armed ? gen(n, 16, true) : __real_malloc(n); }
void __wrap_free(void *p) { rel(p); }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t a, size_t b) {
  if (!armed) return __real_calloc(a, b);
  void *p = gen(a * b, 16, true);
  if (p) memset(p, 0, a * b);
  return p;
}
void *__real_aligned_alloc(size_t, size_t);
void *__wrap_aligned_alloc(size_t a, size_t n) { return armed ? gen(n, a, true) : __real_aligned_alloc(a, n); }
int __real_posix_memalign(void **, size_t, size_t);
int __wrap_posix_memalign(void **q, size_t a, size_t n) {
  if (!armed) return __real_posix_memalign(q, a, n);
  *q = gen(n, a, true);
  return *q ? 0 : 12;
}
}
struct B3 { char c[3]; };
struct B24 { double d[3]; };
struct B40 { char c[40]; };
struct alignas(32) V32 { double d[4]; };
struct Obj {
  alignas(AA) unsigned char mem[sizeof(AA)];
  AA *a = nullptr;
  unsigned char *p = nullptr;
  size_t len = 0;
  unsigned char pat = 0;
};
static std::map<int, Obj> objs;
static std::string prs(const std::vector<std::pair<long, long>> &v) {
  std::string s = "[";
  for (size_t k = 0; k < v.size(); k++) s += (k ? "," : "") + ("[" + std::to_string(v[k].first) + "," + std::to_string(v[k].second) + "]");
  return s + "]";
}
static Ev &heap(Ev &e) {
  e.raw("got", prs(got)).raw("gone", prs(gone));
  got.clear();
  gone.clear();
  return e;
}
static void *call(AA &a, const std::string &t, size_t n, size_t al, size_t &ts) {
#define T_(name, T) if (t == name) { ts = sizeof(T); armed = true; void *r = a.alloc<T>(n, al); armed = false; return r; }
  T_("char", char) T_("short", short) T_("float", float) T_("double", double) T_("b3", B3) T_("b24", B24) T_("b40", B40) T_("v32", V32)
#undef T_
  abort();
}
static size_t tsize(const std::string &t) {
  return t == "char" ? 1 : t == "short" ? 2 : t == "float" ? 4 : t == "double" ? 8 : t == "b3" ? 3 : t == "b24" ? 24 : t == "b40" ? 40 : 32;
}
static bool intact(Obj &o) {
  for (size_t k = 0; k < o.len; k++)
    if (o.p[k] != (unsigned char)(o.pat + k * 7)) return false;
  return true;
}
static void destroy(int id) {
  Obj &o = objs[id];
  armed = true;
  o.a->~AA();
  armed = false;
  Ev e("destroy");
  e.i("o", id);
  kit::log(heap(e));
  objs.erase(id);
}
static void run(const vj::V &cs) {
  char *m = (char *)mmap(nullptr, ROOM + TOP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == (char *)MAP_FAILED) abort();
  arena = (char *)(((uintptr_t)m + TOP - 1) / TOP * TOP);
  brk_ = 64;
  for (auto &op : cs["ops"].a) {
    const std::string k = op["op"].str();
    int id = (int)op["o"].i();
    if (k == "new") {
      Obj &o = objs[id];
      memset(o.mem, 0xab, sizeof o.mem);
      got.clear();
      gone.clear();
      armed = true;
      o.a = new ((void *)o.mem) AA;
      armed = false;
      Ev e("new");
      e.i("o", id);
      kit::log(heap(e));
    } else if (k == "alloc") {
      Obj &o = objs[id];
      const std::string t = op["t"].str();
      size_t n = op["n"].u(), al = op["a"].u(), ts = tsize(t);
      bool huge = op.has("huge") && op["huge"].t();
      // huge: an extent of more than 2^64 bytes that wraps around to a small one
      if (huge) n = (~(size_t)0) / ts - (ts > 1 ? n : 0) + (ts > 1 ? 2 * n : 0);
      oom = op.has("oom") && op["oom"].t();
      shift_ = op["shift"].u();
      kit::log(Ev("try").i("o", id).b("oom", oom || huge));
      void *r = nullptr;
      bool ex = false;
      auto go = [&] {
        try {
          r = call(*o.a, t, n, al, ts);
        } catch (...) {
          armed = false;
          ex = true;
        }
      };
      if (op["in"].str() == "catch") {
        try {
          throw 7;
        } catch (int) {
          go();
        }
      } else
        go();
      armed = oom = false;
      Ev e("alloc");
      e.i("o", id).b("ok", !ex && !huge).b("nothing", ex).i("ts", (long)ts).i("n", huge ? -1 : (long)n).i("a", (long)al);
      e.i("p", ex ? 0 : inside(r) ? (long)((char *)r - arena) : -1);
      if (!ex && inside(r) && !huge) o.p = (unsigned char *)r, o.len = ts * n;
      kit::log(heap(e));
    } else if (k == "xl") {
      size_t ts = 0, n = op["n"].u() << op["shl"].u(), al = op["a"].u();
      alignas(AA) unsigned char mem[sizeof(AA)];
      xl = true;
      xgot = xgone = 0;
      AA *a = new ((void *)mem) AA;
      char *r = nullptr;
      try {
        r = (char *)call(*a, op["t"].str(), n, al, ts);
      } catch (...) {
        armed = false;
      }
      long front = -1, back = -1;
      for (auto &b : xls)
        if (r >= b.lo && r < b.hi) {
          front = (long)std::min<size_t>((size_t)(r - b.lo), 1000000000);
          if ((size_t)(b.hi - r) >= ts * n) {
            back = (long)std::min<size_t>((size_t)(b.hi - r) - ts * n, 1000000000);
            r[0] = 1, r[ts * n - 1] = 2, r[ts * n / 2] = 3;
          }
        }
      kit::log(Ev("xl").b("ok", r != nullptr).i("mod", (long)((uintptr_t)r % al)).i("front", front).i("back", back).i("got", xgot).i("gone", xgone));
      armed = true;
      a->~AA();
      armed = false;
      xl = false;
      kit::log(Ev("xlend").i("got", xgot).i("gone", xgone).i("left", (long)xls.size()));
    } else if (k == "use") {
      Obj &o = objs[id];
      // only inside what was handed out and is owned: anything else is not touched
      bool ok = false;
      if (o.p) {
        size_t at = (size_t)((char *)o.p - arena);
        for (auto &b : live) ok = ok || (b.first <= at && at + o.len <= b.second);
      }
      if (ok) {
        o.pat += 31;
        for (size_t q = 0; q < o.len; q++) o.p[q] = (unsigned char)(o.pat + q * 7);
      }
      kit::log(Ev("use").i("o", id).b("ok", ok));
    } else if (k == "check") {
      kit::log(Ev("check").i("o", id).b("ok", intact(objs[id])));
    } else if (k == "destroy")
      destroy(id);
  }
  while (!objs.empty()) destroy(objs.begin()->first);
}
int main(int argc, char **argv) { return kit::run(argc, argv, run); }
