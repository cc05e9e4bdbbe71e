// Replays calls of the block kernels (and of the component choosing them).
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#ifdef H_MULT
#include "variants/components/multiplier.cpp"
#else
#include "reference_kernels/kernel.hpp"
#endif
#include "prod.hpp"
static const long TAIL = 5;
// exact-size heap storage, so that a stray access shows under the sanitizer
template <class T> std::vector<T> fit(const std::vector<T> &v) {
  std::vector<T> r(v);
  r.shrink_to_fit();
  return r;
}
template <class T> void go(const prod::Case &c) {
  const vj::V &cs = c.cs;
  auto A = fit(c.A<std::vector<T>>()), B = fit(c.B<std::vector<T>>());
  const std::string form = cs["form"].str();
  size_t e = cs["e"].u(), ch = cs["ch"].u();
  c.in();
  for (auto &p : cs["at"].a) {
    size_t x = p.is()[0], y = p.is()[1];
    std::vector<T> C(e * e, T(0));
    if (form == "plain") kernel::kernel<T>(A, B, C, c.n, x, y, e);
    else if (form == "trans") kernel::kernel_transposed<T>(A, B, C, c.n, x, y, e);
    else if (form == "blocked") kernel::kernel_transposed_blocked<T>(A, B, C, c.n, x, y, e, ch);
    if (C.size() == e * e) {
      // an output vector longer than the block keeps its tail
      std::vector<T> D(e * e, T(0));
      for (long q = 0; q < TAIL; q++) D.push_back((T)(41 + q));
      if (form == "plain") kernel::kernel<T>(A, B, D, c.n, x, y, e);
      else if (form == "trans") kernel::kernel_transposed<T>(A, B, D, c.n, x, y, e);
      else if (form == "blocked") kernel::kernel_transposed_blocked<T>(A, B, D, c.n, x, y, e, ch);
      bool tail = D.size() == e * e + TAIL;
      for (long q = 0; tail && q < TAIL; q++) tail = D[e * e + q] == (T)(41 + q);
      D.resize(e * e);
      tail = tail && D == C;
      kit::log(kit::Ev("block").i("x", (long)x).i("y", (long)y).i("s", (long)e).b("tail", tail).ints("out", c.unscale(C, c.sa * c.sb)));
    }
  }
  c.ops(A, B);
}
#ifdef H_MULT
template <> void go<double>(const prod::Case &c) {
  const vj::V &cs = c.cs;
  auto A = c.A<std::vector<double>>(), B = c.B<std::vector<double>>();
  size_t e = cs["e"].u();
  c.in();
  {
    multiply_components::multiplier m(c.n, A, B, c.bt, cs["ch"].u(), (uint64_t)cs.get("verbose", 0));
    for (auto &p : cs["at"].a) {
      size_t x = p.is()[0], y = p.is()[1];
      auto C = m.calculate_submatrix(x, y, e);
      kit::log(kit::Ev("block").i("x", (long)x).i("y", (long)y).i("s", (long)e).b("tail", true).ints("out", c.unscale(C, c.sa * c.sb)));
    }
  }
  c.ops(A, B);
}
#endif
static void run(const vj::V &cs) {
  prod::Case c(cs);
#ifdef H_MULT
  go<double>(c);
#else
  const std::string &t = cs["ty"].str();
  if (t == "float") go<float>(c);
  else if (t == "int") go<int>(c);
  else if (t == "long") go<long>(c);
  else go<double>(c);
#endif
}
int main(int argc, char **argv) { return kit::run(argc, argv, run); }
