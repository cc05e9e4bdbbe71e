// Linked with the whole program (built with -finstrument-functions, clocks
// wrapped): time stands still except that reading a clock takes a quarter of a
// second, multiplying a second, the reference ten, and printing a matrix
// twenty.  What took time is told in the file VF_CLI.
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#define NI __attribute__((no_instrument_function))
namespace {
enum { SLOTS = 1 << 14 };
void *seen[SLOTS];
thread_local bool busy;
long quarters = 4000; // since some beginning
NI void tell(const char *s, long d) {
  static int fd = -2;
  if (fd == -2) {
    const char *p = getenv("VF_CLI");
    fd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0600) : -1;
  }
  __atomic_add_fetch(&quarters, d, __ATOMIC_SEQ_CST);
  if (fd < 0) return;
  char b[200];
  int n = snprintf(b, sizeof b, "time %s %ld\n", s, d);
  ssize_t r = write(fd, b, (size_t)n);
  (void)r;
}
NI void look(void *fn) {
  Dl_info d;
  if (!dladdr(fn, &d) || !d.dli_sname || d.dli_saddr != fn) return;
  int st = 0;
  char *dem = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
  if (!dem) return;
  const char *s = strstr(dem, "::matrix_multiply");
  if ((s && s[17] == '(' && std::string(dem, s - dem).find_first_of(" <(") == std::string::npos) ||
      strstr(dem, "::recursive::distribute_recursively("))
    tell("multiply", 4);
  else if (strstr(dem, "naive_matrix_multiply"))
    tell("reference", 40);
  else if (strstr(dem, "print_matrix"))
    tell("print", 80);
  free(dem);
}
NI long now() {
  tell("read", 1);
  return quarters;
}
}
extern "C" {
NI void __cyg_profile_func_enter(void *fn, void *) {
  if (busy) return;
  size_t h = ((uintptr_t)fn >> 2) * 2654435761u % SLOTS;
  for (;; h = (h + 1) % SLOTS) {
    void *s = __atomic_load_n(&seen[h], __ATOMIC_RELAXED);
    if (s == fn) return;
    if (!s) {
      void *z = nullptr;
      if (__atomic_compare_exchange_n(&seen[h], &z, fn, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) break;
      if (z == fn) return;
    }
  }
  busy = true;
  look(fn);
  busy = false;
}
NI void __cyg_profile_func_exit(void *, void *) {}
// std::chrono's clocks return a single number of nanoseconds
NI long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return now() * 250000000l; }
NI long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return now() * 250000000l; }
NI double __wrap_omp_get_wtime() { return (double)now() / 4; }
NI int __wrap_clock_gettime(int, struct timespec *t) {
  long q = now();
  t->tv_sec = q / 4;
  t->tv_nsec = q % 4 * 250000000l;
  return 0;
}
NI int __wrap_gettimeofday(struct timeval *t, void *) {
  long q = now();
  t->tv_sec = q / 4;
  t->tv_usec = q % 4 * 250000l;
  return 0;
}
}
