// Replays naive reference products.
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include "prod.hpp"
#include "reference_kernels/naive.hpp"
template <class T> void go(const prod::Case &c) {
  auto A = c.A<std::vector<T>>(), B = c.B<std::vector<T>>();
  int reps = (int)c.cs.get("reps", 1);
  c.in();
  for (int k = 0; k < reps; k++) {
    auto C = c.bt ? naive_matrix_multiply_transposed<T>(c.n, A, B) : naive_matrix_multiply<T>(c.n, A, B);
    c.out(C);
  }
  c.ops(A, B);
}
#ifdef REAL_OMP
extern "C" void omp_set_num_threads(int);
#endif
static void run(const vj::V &cs) {
  prod::Case c(cs);
  auto fn = [&] {
    const std::string &t = cs["ty"].str();
    if (t == "float") go<float>(c);
    else if (t == "int") go<int>(c);
    else if (t == "long") go<long>(c);
    else go<double>(c);
  };
#ifdef REAL_OMP
  omp_set_num_threads((int)cs.get("threads", 4));
  // within a parallel region of the caller's the team is of one thread
  if (cs.get("nested", 0)) {
#pragma omp parallel num_threads(2)
#pragma omp master
    fn();
  } else
    fn();
#else
  prod::on_runtime(cs, fn);
#endif
}
int main(int argc, char **argv) { return kit::run(argc, argv, run); }
