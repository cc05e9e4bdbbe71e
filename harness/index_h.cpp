// Replays index iterations (H_IMPL 1: memory_layout, 2: variants, 3: looped).
#include <array>
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include "kit.hpp"
#include "vrt.hpp"
#if H_IMPL == 1
#include "memory_layout/index_iterator.hpp"
#elif H_IMPL == 2
#include "variants/index_iterator.hpp"
#else
#include "variants/looped.hpp"
#endif
using kit::Ev;
using kit::log;
static int yields;
// positions are given relative to an origin and in a unit (per dimension)
static std::vector<size_t> org, unit;
static std::vector<size_t> far(std::vector<size_t> v, bool place) {
  for (size_t d = 0; d < v.size(); d++)
    v[d] = v[d] * (d < unit.size() ? unit[d] : 1) + (place && d < org.size() ? org[d] : 0);
  return v;
}
static void body(const std::vector<size_t> &p) {
  std::vector<long> v;
  for (size_t d = 0; d < p.size(); d++) {
    size_t x = p[d] - (d < org.size() ? org[d] : 0), u = d < unit.size() ? unit[d] : 1;
    v.push_back(x % u || x / u > 2000000000ul ? kit::BAD : (long)(x / u));
  }
  log(Ev("b").ints("p", v));
  for (int k = 0; k < yields; k++) vrt::yield();
  log(Ev("x").ints("p", v));
}
#if H_IMPL != 3
template <size_t... I> struct Idx {};
template <size_t N, size_t... I> struct Mk : Mk<N - 1, N - 1, I...> {};
template <size_t... I> struct Mk<0, I...> { typedef Idx<I...> type; };
template <size_t> using S = size_t;
template <class X> struct Body;
template <size_t... I> struct Body<Idx<I...>> {
  void operator()(S<I>... x) const { body(std::vector<size_t>{x...}); }
};
template <size_t D> void call(const vj::V &r) {
  index_iterator::blocking_pseudo_execution_policy<size_t> pol(r["pdim"].u());
  if (r["steps"].a.size()) pol.set_final_steps(far(r["steps"].us(), false));
  for (auto &l : r["levels"].a) {
    std::vector<bool> m;
    for (auto &x : l["p"].a) m.push_back(x.t());
    pol.add_blocking(far(l["b"].us(), false), m);
  }
  index_iterator::iterate_indices<D>(pol, far(r["lo"].us(), true), far(r["hi"].us(), true), Body<typename Mk<D>::type>());
}
#else
template <size_t D> void call(const vj::V &r) {
  looped::blocking_pseudo_execution_policy<size_t> pol(r["pdim"].u());
  for (auto &l : r["levels"].a) pol.add_blocking(far(l["b"].us(), false));
  looped::iterate_indices(pol, far(r["lo"].us(), true), far(r["hi"].us(), true), body);
}
#endif
static void stuck(const char *w) {
  log(Ev("stuck").str("what", w));
  _exit(96);
}
static void run(const vj::V &cs) {
  const vj::V &r = cs["r"];
  yields = (int)cs.get("yields", 0);
  org.clear();
  unit.clear();
  if (cs.has("orgk"))
    for (size_t k : cs["orgk"].us()) org.push_back(k << 30);
  if (cs.has("unit")) unit = cs["unit"].us();
  vrt::Opt o;
  o.strategy = cs["strategy"].str();
  o.seed = (unsigned)cs.get("seed", 1);
  o.chunk = (int)cs.get("chunk", 1);
  o.backwards = (int)cs.get("back", 0);
  vrt::on_stuck = stuck;
  std::exception_ptr err;
  vrt::run(o, [&] {
    try {
      log(Ev("request"));
      switch (r["dim"].u()) {
      case 1: call<1>(r); break;
      case 2: call<2>(r); break;
      case 3: call<3>(r); break;
      case 4: call<4>(r); break;
      case 5: call<5>(r); break;
      default: _exit(95);
      }
      log(Ev("ret"));
      vrt::drain();
    } catch (...) {
      err = std::current_exception();
    }
  });
  if (err) std::rethrow_exception(err);
}
int main(int argc, char **argv) { return kit::run(argc, argv, run); }
