// Loop nests and flat indices: logs every call of the body.
#include <array>
#include <cstddef>
#include <cstdint>
#include <vector>
#include "kit.hpp"
#ifdef H_LOOPS
#include "memory_layout/loop_nest.hpp"
#define index_iterator index_iterator_a
#include "memory_layout/index_iterator.hpp"
#undef index_iterator
#define index_iterator index_iterator_b
#include "variants/index_iterator.hpp"
#undef index_iterator
// in loops_learn.cpp
bool learn_run(size_t dim, const std::string &ty, long lo, long hi);
#endif
#ifdef H_FLAT
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_view.hpp"
#include "memory_layout/util.hpp"
#endif
using kit::Ev;
using kit::log;

static std::string buf;
static size_t nbuf, total;
static void flush() {
  if (nbuf) kit::lograw("{\"e\":\"calls\",\"pts\":[" + buf + "]}");
  buf.clear();
  nbuf = 0;
}
// bounds and steps are given relative to an origin and a unit (per dimension),
// so that the specification can count in small numbers
static std::vector<long> org, unit;
template <class V> void point(const V &p, size_t n) {
  buf += nbuf ? ",[" : "[";
  for (size_t d = 0; d < n; d++) {
    long v = (long)p[d], o = d < org.size() ? org[d] : 0, u = d < unit.size() ? unit[d] : 1;
    v = (long)((unsigned long)v - (unsigned long)o);
    v = v % u || v / u > 2000000000l || v / u < -2000000000l ? kit::BAD : v / u;
    buf += (d ? "," : "") + std::to_string(v);
  }
  buf += "]";
  if (++total > 60000) {
    flush();
    kit::lograw("{\"e\":\"fault\",\"what\":\"runaway loop\"}");
    _exit(0);
  }
  if (++nbuf == 40) flush();
}
#ifdef H_LOOPS
void learn_point(const long *p, size_t n) { point(p, n); }
template <size_t D, class T> void nest(const std::string &form, const std::vector<long> &lo, const std::vector<long> &hi,
                                       const std::vector<long> &st) {
  if (form == "carr") {
    T a[D], b[D], c[D];
    for (size_t d = 0; d < D; d++) a[d] = (T)lo[d], b[d] = (T)hi[d], c[d] = (T)st[d];
    util::loop_nest<D>(a, b, c, [](const T(&p)[D]) { point(p, D); });
  } else if (form == "sarr") {
    std::array<T, D> a, b, c;
    for (size_t d = 0; d < D; d++) a[d] = (T)lo[d], b[d] = (T)hi[d], c[d] = (T)st[d];
    util::loop_nest<D>(a, b, c, [](const std::array<T, D> &p) { point(p, D); });
  } else if (form == "learn") {
    abort();
  } else {
    std::vector<T> a, b, c;
    for (size_t d = 0; d < D; d++) a.push_back((T)lo[d]), b.push_back((T)hi[d]), c.push_back((T)st[d]);
    auto f = [](auto... x) {
      long p[] = {(long)x...};
      point(p, sizeof...(x));
    };
    if (form == "args1")
      index_iterator_a::loop_nest<D>(a, b, c, f);
    else
      index_iterator_b::loop_nest<D>(a, b, c, f);
  }
}
template <class T> void nestd(const std::string &form, const std::vector<long> &lo, const std::vector<long> &hi,
                              const std::vector<long> &st) {
  switch (lo.size()) {
  case 1: return nest<1, T>(form, lo, hi, st);
  case 2: return nest<2, T>(form, lo, hi, st);
  case 3: return nest<3, T>(form, lo, hi, st);
  case 4: return nest<4, T>(form, lo, hi, st);
  case 5: return nest<5, T>(form, lo, hi, st);
  case 6: return nest<6, T>(form, lo, hi, st);
  }
  abort();
}
static void loops(const vj::V &op) {
  auto lo = op["lo"].is(), hi = op["hi"].is(), st = op["st"].is();
  const std::string &f = op["form"].str(), &t = op["ty"].str();
  log(Ev("begin").ints("lo", lo).ints("hi", hi).ints("st", st));
  total = 0;
  org.clear();
  unit.clear();
  if (op.has("orgk"))
    for (long k : op["orgk"].is()) org.push_back(k << 30);
  if (op.has("unit")) unit = op["unit"].is();
  for (size_t d = 0; d < lo.size(); d++) {
    long o = d < org.size() ? org[d] : 0, u = d < unit.size() ? unit[d] : 1;
    lo[d] = o + lo[d] * u;
    hi[d] = o + hi[d] * u;
    st[d] *= u;
  }
  if (f == "learn") learn_run(lo.size(), t, lo[0], hi[0]);
  else if (t == "size") nestd<size_t>(f, lo, hi, st);
  else if (t == "int") nestd<int>(f, lo, hi, st);
  else if (t == "long") nestd<long>(f, lo, hi, st);
  else if (t == "short") nestd<short>(f, lo, hi, st);
  else nestd<unsigned>(f, lo, hi, st);
  flush();
  log(Ev("fin"));
}
#endif
#ifdef H_FLAT
static const unsigned long primes[4] = {46337, 46327, 46309, 46307};
template <size_t D> size_t flat(const std::string &form, const std::vector<size_t> &c, const std::vector<size_t> &e) {
  size_t ci[D], ei[D];
  std::array<size_t, D> ca, ea;
  for (size_t d = 0; d < D; d++) ci[d] = ca[d] = c[d], ei[d] = ea[d] = e[d];
  if (form == "carr") return memory_layout::flat_index(ci, ei);
  if (form == "sarr") return memory_layout::flat_index(ca, ea);
  std::vector<memory_layout::tiling_info_dim> info(D);
  for (size_t d = 0; d < D; d++) info[d].tile_size_dir = e[d], info[d].stride = e[d];
  std::vector<int> dummy(1);
  size_t t[D] = {};
  memory_layout::tile_view<D, int, std::allocator<int>> v(dummy, t, info);
  return v.flat_index(ca);
}
static size_t flatd(const std::string &f, const std::vector<size_t> &c, const std::vector<size_t> &e) {
  switch (e.size()) {
  case 1: return flat<1>(f, c, e);
  case 2: return flat<2>(f, c, e);
  case 3: return flat<3>(f, c, e);
  case 4: return flat<4>(f, c, e);
  case 5: return flat<5>(f, c, e);
  case 6: return flat<6>(f, c, e);
  }
  abort();
}
static void flats(const vj::V &op) {
  auto e = op["ext"].us();
  const std::string &f = op["form"].str();
  if (op["op"].str() == "flatall") {
    std::vector<long> out;
    std::vector<size_t> c(e.size(), 0);
    for (;;) {
      out.push_back(kit::unum(flatd(f, c, e)));
      size_t d = e.size();
      while (d > 0 && ++c[d - 1] == e[d - 1]) c[--d] = 0;
      if (d == 0) break;
    }
    log(Ev("flatall").ints("ext", e).ints("v", out));
    return;
  }
  std::string cs = "[", vs = "[";
  bool first = true;
  for (auto &cv : op["c"].a) {
    auto c = cv.us();
    size_t r = flatd(f, c, e);
    cs += first ? "[" : ",[";
    vs += first ? "[" : ",[";
    first = false;
    for (size_t d = 0; d < c.size(); d++) cs += (d ? "," : "") + std::to_string(c[d]);
    for (int j = 0; j < 4; j++) vs += (j ? "," : "") + std::to_string(r % primes[j]);
    cs += "]";
    vs += "]";
  }
  log(Ev("flat").ints("ext", e).raw("c", cs + "]").raw("v", vs + "]"));
}
#endif
int main(int argc, char **argv) {
  return kit::run(argc, argv, [](const vj::V &cs) {
    for (auto &op : cs["ops"].a) {
#ifdef H_LOOPS
      loops(op);
#endif
#ifdef H_FLAT
      flats(op);
#endif
    }
  });
}
