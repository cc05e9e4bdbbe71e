// Linked with the whole program (built with -finstrument-functions): tells in
// the file VF_CLI which classes' multiplications were entered.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <unistd.h>
#define NI __attribute__((no_instrument_function))
namespace {
enum { SLOTS = 1 << 14 };
void *seen[SLOTS];
thread_local bool busy;
NI void tell(const char *s) {
  static int fd = -2;
  if (fd == -2) {
    const char *p = getenv("VF_CLI");
    fd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0600) : -1;
  }
  if (fd < 0) return;
  std::string l = std::string(s) + "\n";
  ssize_t r = write(fd, l.data(), l.size());
  (void)r;
}
NI void look(void *fn) {
  Dl_info d;
  if (!dladdr(fn, &d) || !d.dli_sname || d.dli_saddr != fn) return;
  int st = 0;
  char *dem = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
  if (!dem) return;
  const char *s = strstr(dem, "::matrix_multiply");
  if (s && s[17] == '(') {
    std::string q(dem, s - dem); // namespace::class
    if (q.find_first_of(" <(") == std::string::npos) tell(q.substr(q.rfind(':') + 1).c_str());
  } else if (strstr(dem, "::recursive::distribute_recursively(")) {
    tell("recursive");
  }
  free(dem);
}
}
extern "C" NI void __cyg_profile_func_enter(void *fn, void *) {
  if (busy) return;
  size_t h = ((uintptr_t)fn >> 2) * 2654435761u % SLOTS;
  for (;; h = (h + 1) % SLOTS) {
    void *s = __atomic_load_n(&seen[h], __ATOMIC_RELAXED);
    if (s == fn) return;
    if (!s) {
      void *z = nullptr;
      if (__atomic_compare_exchange_n(&seen[h], &z, fn, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) break;
      if (z == fn) return;
    }
  }
  busy = true;
  look(fn);
  busy = false;
}
extern "C" NI void __cyg_profile_func_exit(void *, void *) {}
