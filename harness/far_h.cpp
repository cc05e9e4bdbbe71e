// Views on arrays of more than 2^32 elements.  The array is address space
// without memory behind it (only elements that are accessed get some), so the
// harness tells where an access ends up: the position of the referenced element
// by its residues.
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include <sys/mman.h>
#include <vector>
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"
#include "kit.hpp"
using kit::Ev;
using kit::log;
template <class T> struct Space {
  typedef T value_type;
  Space() {}
  template <class U> Space(const Space<U> &) {}
  T *allocate(size_t n) {
    void *p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw std::bad_alloc();
    return (T *)p;
  }
  void deallocate(T *p, size_t n) { munmap(p, n * sizeof(T)); }
  template <class U> void construct(U *) {}
  template <class U, class... A> void construct(U *p, A &&... a) { ::new ((void *)p) U(std::forward<A>(a)...); }
  template <class U> void destroy(U *) {}
  bool operator==(const Space &) const { return true; }
  bool operator!=(const Space &) const { return false; }
};
typedef std::vector<char, Space<char>> Vec;
static const unsigned long primes[4] = {46337, 46327, 46309, 46307};
static std::string res(size_t v) {
  std::string s = "[";
  for (int j = 0; j < 4; j++) s += (j ? "," : "") + std::to_string(v % primes[j]);
  return s + "]";
}
template <size_t D, size_t... I> static char &call(memory_layout::tile_view<D, char, Space<char>> &v, const std::array<size_t, D> &c, std::index_sequence<I...>) {
  return v(c[I]...);
}
template <size_t D> static void far(const vj::V &cs) {
  auto t = cs["tile"].us(), e = cs["tiles"].us();
  std::vector<memory_layout::tiling_info_dim> info(D);
  size_t n = 1;
  for (size_t d = 0; d < D; d++) info[d].tile_size_dir = t[d], info[d].stride = e[d] *= t[d], n *= e[d];
  void *probe = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (probe == MAP_FAILED) { // no address space to try this with
    log(Ev("none"));
    return;
  }
  munmap(probe, n);
  Vec &a = *new Vec(n);
  const char *base = a.data();
  log(Ev("far").ints("tile", t).ints("tiles", cs["tiles"].us()));
  char next = 1;
  auto access = [&](memory_layout::tile_view<D, char, Space<char>> &v, const std::vector<size_t> &cv, int mode) {
    std::array<size_t, D> c;
    size_t flat = 0;
    for (size_t d = 0; d < D; d++) c[d] = cv[d], flat = flat * t[d] + cv[d];
    char &r = mode == 0 ? v[flat] : mode == 1 ? v[c] : call<D>(v, c, std::make_index_sequence<D>());
    size_t at = (size_t)(&r - base);
    bool in = &r >= base && at < n;
    bool seen = false;
    if (in) { // a write through the view is one to the array, and the other way round
      r = next;
      seen = a[at] == next;
      a[at] = (char)(next + 1);
      seen = seen && r == (char)(next + 1);
      next = (char)((next + 2) % 100);
    }
    log(Ev("at").ints("t", v.get_tile_index()).ints("dirs", v.get_tiles_dir()).ints("c", cv).raw("v", res(at)).raw("size", res(v.size())).b("in", in).b("seen", seen));
  };
  int mode = (int)cs.get("mode", 0);
  if (cs.has("views"))
    for (auto &w : cs["views"].a) {
      auto ti = w["t"].us();
      size_t x[D];
      for (size_t d = 0; d < D; d++) x[d] = ti[d];
      memory_layout::tile_view<D, char, Space<char>> v(a, x, info);
      log(Ev("bind").ints("t", ti));
      for (auto &c : w["c"].a) access(v, c.us(), mode++ % 3);
    }
  if (cs.has("all")) {
    size_t k = 0, cap = 1;
    for (size_t d = 0; d < D; d++) cap *= e[d] / t[d];
    memory_layout::iterate_tiles<D>(a, info, [&](auto view) {
      if (k++ > cap) {
        kit::lograw("{\"e\":\"fault\",\"what\":\"runaway iteration\"}");
        _exit(0);
      }
      log(Ev("visit"));
      for (auto &c : cs["all"].a) access(view, c.us(), mode++ % 3);
    });
    log(Ev("over"));
  }
}
int main(int argc, char **argv) {
  return kit::run(argc, argv, [](const vj::V &cs) {
    switch (cs["tile"].a.size()) {
    case 1: return far<1>(cs);
    case 2: return far<2>(cs);
    case 3: return far<3>(cs);
    case 4: return far<4>(cs);
    }
    abort();
  });
}
