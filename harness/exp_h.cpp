// Replays the stand-alone kernels of otherExperiments.
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include "mult.hpp"
#include "prod.hpp"
#include <cstdlib>
extern "C" void omp_set_num_threads(int);
typedef void (*Fn)(double *, double *, double *, const uint32_t);
static Fn kernel_of(const std::string &k) {
  if (k == "naive") return multNaive;
  if (k == "transposed") return multTransposed;
  if (k == "counter") return multCounter;
  if (k == "exchanged") return multExchanged;
  if (k == "register") return multRegister;
  if (k == "intrinLoop") return multIntrinLoop;
  if (k == "blocked2") return multBlocked2;
  if (k == "blocked4") return multBlocked4;
  if (k == "gpu") return multGPU;
  if (k == "gpuasm") return multGPUASM;
  if (k == "asm") return multASM;
  abort();
}
// 64-byte aligned copy of exactly n elements, with a guard on both sides
struct Mat {
  size_t n;
  char *base;
  double *p;
  static size_t room(size_t n) { return GUARD ? ((n * 8 + 63) / 64 + 2) * 64 : n ? n * 8 : 1; }
  static char *get_mem(size_t s) {
    void *q = nullptr;
    if (posix_memalign(&q, 64, s)) abort();
    return (char *)q;
  }
  explicit Mat(const std::vector<double> &v) : n(v.size()), base(get_mem(room(n))), p((double *)(base + GUARD)) {
    memset(base, 0x5a, room(n));
    if (n) memcpy(p, v.data(), n * 8);
  }
  ~Mat() { free(base); }
  std::vector<double> get() const { return std::vector<double>(p, p + n); }
  bool guards() const {
    if (!GUARD) return true;
    size_t end = ((n * 8 + 63) / 64 + 2) * 64;
    for (size_t i = 0; i < end; i++)
      if ((i < 64 || i >= 64 + n * 8) && base[i] != 0x5a) return false;
    return true;
  }
#ifdef EXACT
  static const size_t GUARD = 0;
#else
  static const size_t GUARD = 64;
#endif
};
static void run(const vj::V &cs) {
  prod::Case c(cs);
  Fn f = kernel_of(cs["kernel"].str());
  auto fn = [&] {
    Mat A(c.A<std::vector<double>>()), B(c.B<std::vector<double>>());
    c.in();
    int reps = (int)cs.get("reps", 1);
    for (int k = 0; k < reps; k++) {
      Mat C(std::vector<double>(c.n * c.n, 0.0));
#ifdef REAL_OMP
      omp_set_num_threads((int)cs.get("threads", 4));
#endif
      f(A.p, B.p, C.p, (uint32_t)c.n);
      c.out(C.get());
      kit::log(kit::Ev("guards").b("ok", C.guards() && A.guards() && B.guards()));
    }
    c.ops(A.get(), B.get());
  };
#ifdef REAL_OMP
  // within a parallel region of the caller's the team is of one thread
  if (cs.get("nested", 0)) {
#pragma omp parallel num_threads(2)
#pragma omp master
    fn();
  } else
    fn();
#else
  prod::on_runtime(cs, fn);
#endif
}
int main(int argc, char **argv) { return kit::run(argc, argv, run); }
