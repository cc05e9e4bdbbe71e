// The multiplications that hand back how long they took, under a virtual clock:
// reading it takes a quarter of a second, a parallel loop a second.
#include <array>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <ctime>
#include <string>
#include <sys/time.h>
#include <tuple>
#include <vector>
#if defined(H_COMBINED)
#include "variants/combined.hpp"
#elif defined(H_KTILED)
#include "reference_kernels/kernel_tiled.hpp"
#endif
#include "prod.hpp"
#ifdef H_HPX
#include "hpxshim.hpp"
#endif
typedef std::vector<double> V;
static bool on;
static long quarters = 4000, work, reads;
static long now() {
  reads++;
  return ++quarters;
}
extern "C" {
void vf_region() {
  if (!on) return;
  quarters += 4;
  work += 4;
}
void __real_GOMP_parallel(void (*)(void *), void *, unsigned, unsigned) __attribute__((weak));
void __wrap_GOMP_parallel(void (*f)(void *), void *d, unsigned n, unsigned g) {
  vf_region();
  __real_GOMP_parallel(f, d, n, g);
}
long __real__ZNSt6chrono3_V212system_clock3nowEv();
long __real__ZNSt6chrono3_V212steady_clock3nowEv();
double __real_omp_get_wtime() __attribute__((weak));
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return on ? now() * 250000000l : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return on ? now() * 250000000l : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
double __wrap_omp_get_wtime() { return on ? (double)now() / 4 : __real_omp_get_wtime(); }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (!on) return __real_clock_gettime(c, t);
  long q = now();
  t->tv_sec = q / 4;
  t->tv_nsec = q % 4 * 250000000l;
  return 0;
}
int __wrap_gettimeofday(struct timeval *t, void *z) {
  if (!on) return __real_gettimeofday(t, z);
  long q = now();
  t->tv_sec = q / 4;
  t->tv_usec = q % 4 * 250000l;
  return 0;
}
}
static void go(const vj::V &cs) {
  prod::Case c(cs);
  V A = c.A<V>(), B = c.B<V>();
  uint64_t reps = cs.get("reps", 1);
#if defined(H_COMBINED)
  combined::combined m{c.n, A, B, reps, 0};
#else
  kernel_tiled::kernel_tiled m{c.n, A, B, c.bt, reps, 0};
#endif
  double d = cs.get("before", 0) / 4.0;
  for (long k = 0; k < cs.get("calls", 1); k++) {
    work = reads = 0;
    on = true;
    V C = m.matrix_multiply(d);
    on = false;
    double q = d * 4;
    vrt::Quiet z;
    if (k) kit::log(kit::Ev("again"));
    if (work) kit::log(kit::Ev("time").str("what", "multiply").i("d", work));
    if (reads) kit::log(kit::Ev("time").str("what", "read").i("d", reads));
    kit::log(kit::Ev("call").i("q", q > 0 && q < 1e6 && q == (long)q ? (long)q : -1));
  }
  vrt::Quiet z;
  kit::log(kit::Ev("end"));
}
static void run(const vj::V &cs) {
#ifdef H_HPX
  prod::on_runtime(cs, [&] { go(cs); });
#else
  go(cs);
#endif
}
int main(int argc, char **argv) { return kit::run(argc, argv, run); }
