// Case runner: reads one JSON case per line, runs every case in a forked child
// under a time limit, and writes one JSON line per case with the events that
// the child observed.  It never judges anything.
#pragma once
#include "vj.hpp"
#include <csignal>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <ctime>

// rt/mem.cpp, when it is linked
extern "C" {
void vf_mem_begin() __attribute__((weak));
void vf_mem_end(const char **, size_t *) __attribute__((weak));
}
namespace kit {
// Value that no specification value equals: used for anything not exactly
// representable as a small integer.
static const long BAD = -2147483647L;
inline long num(double d) {
  if (!(d == std::floor(d)) || std::fabs(d) > 2.0e9) return BAD;
  return (long)d;
}
inline long unum(unsigned long d) { return d > 2000000000ul ? BAD : (long)d; }

// Event under construction
struct Ev {
  std::string s;
  explicit Ev(const char *e) { s = std::string("{\"e\":\"") + e + "\""; }
  Ev &i(const char *k, long v) {
    s += std::string(",\"") + k + "\":" + std::to_string(v);
    return *this;
  }
  Ev &b(const char *k, bool v) {
    s += std::string(",\"") + k + "\":" + (v ? "true" : "false");
    return *this;
  }
  Ev &str(const char *k, const std::string &v) {
    s += std::string(",\"") + k + "\":" + vj::quote(v);
    return *this;
  }
  template <class C> Ev &ints(const char *k, const C &c) {
    s += std::string(",\"") + k + "\":[";
    bool first = true;
    for (auto &&x : c) {
      if (!first) s += ",";
      first = false;
      s += std::to_string((long)x);
    }
    s += "]";
    return *this;
  }
  template <class C> Ev &nums(const char *k, const C &c) {
    s += std::string(",\"") + k + "\":[";
    bool first = true;
    for (auto &&x : c) {
      if (!first) s += ",";
      first = false;
      s += std::to_string(num((double)x));
    }
    s += "]";
    return *this;
  }
  Ev &raw(const char *k, const std::string &v) {
    s += std::string(",\"") + k + "\":" + v;
    return *this;
  }
};
inline int &outfd() {
  static int fd = -1;
  return fd;
}
// when set, events are collected here instead
inline std::string *&sink() {
  static std::string *s = nullptr;
  return s;
}
inline void wr(const std::string &x) {
  if (sink()) {
    *sink() += x;
    return;
  }
  size_t n = 0;
  while (n < x.size()) {
    ssize_t r = ::write(outfd(), x.data() + n, x.size() - n);
    if (r <= 0) _exit(97);
    n += (size_t)r;
  }
}
inline void log(const Ev &e) { wr(e.s + "}\n"); }
inline void lograw(const std::string &e) { wr(e + "\n"); }

typedef std::function<void(const vj::V &)> CaseFn;

// what the memory monitor saw
inline void memory() {
  if (!vf_mem_end) return;
  const char *t;
  size_t n;
  vf_mem_end(&t, &n);
  while (n) {
    ssize_t r = ::write(outfd(), t, n);
    if (r <= 0) _exit(97);
    t += r;
    n -= (size_t)r;
  }
}
inline void on_crash(int sig) {
  memory();
  ::signal(sig, SIG_DFL);
  ::raise(sig);
}
inline void watch_memory() {
  if (!vf_mem_begin) return;
  static char alt[1 << 18];
  stack_t ss;
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction a;
  a.sa_handler = on_crash;
  sigemptyset(&a.sa_mask);
  a.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &a, nullptr);
  sigaction(SIGBUS, &a, nullptr);
  vf_mem_begin();
}
inline void on_terminate() {
  // std::terminate: reached by `throw;` without an active exception as well.
  if (sink()) {
    std::string *s = sink();
    sink() = nullptr;
    wr(*s);
  }
  memory();
  wr("{\"e\":\"terminate\"}\n");
  _exit(98);
}
inline std::string child(const vj::V &cs, CaseFn fn, double limit) {
  int fd[2];
  if (pipe(fd)) abort();
  fflush(stdout);
  std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    outfd() = fd[1];
    std::set_terminate(on_terminate);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    watch_memory();
    try {
      if (cs.has("seq")) {
        // several cases one after the other in this process
        long k = 0;
        for (auto &c : cs["seq"].a) {
          wr("{\"e\":\"sub\",\"j\":" + std::to_string(k++) + "}\n");
          fn(c);
          memory();
          wr("{\"e\":\"end\"}\n");
        }
      } else {
        fn(cs);
        memory();
        wr("{\"e\":\"end\"}\n");
      }
    } catch (std::exception &e) {
      sink() = nullptr;
      memory();
      wr(std::string("{\"e\":\"exception\",\"what\":") + vj::quote(e.what()) + "}\n");
    } catch (...) {
      memory();
      wr("{\"e\":\"exception\",\"what\":\"unknown\"}\n");
    }
    _exit(0);
  }
  close(fd[1]);
  std::string out;
  char buf[65536];
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  bool timeout = false;
  for (;;) {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    double left = limit - ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9);
    if (left <= 0) {
      timeout = true;
      kill(pid, SIGKILL);
      break;
    }
    struct pollfd p = {fd[0], POLLIN, 0};
    int r = poll(&p, 1, (int)(left * 1000) + 1);
    if (r <= 0) continue;
    ssize_t n = read(fd[0], buf, sizeof buf);
    if (n <= 0) break;
    out.append(buf, (size_t)n);
    if (out.size() > 200u * 1024 * 1024) {
      kill(pid, SIGKILL);
      break;
    }
  }
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  // cut an incomplete last line
  size_t last = out.rfind('\n');
  out.resize(last == std::string::npos ? 0 : last + 1);
  if (timeout)
    out += "{\"e\":\"fault\",\"what\":\"time limit\"}\n";
  else if (WIFSIGNALED(st))
    out += "{\"e\":\"fault\",\"what\":\"signal " + std::to_string(WTERMSIG(st)) + "\"}\n";
  else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 98)
    out += "{\"e\":\"fault\",\"what\":\"exit " + std::to_string(WEXITSTATUS(st)) + "\"}\n";
  else {
    size_t e = out.size(), b = e >= 2 ? out.rfind('\n', e - 2) : std::string::npos;
    std::string lastl = out.substr(b == std::string::npos ? 0 : b + 1);
    if (lastl.compare(0, 10, "{\"e\":\"end\"") && lastl.compare(0, 10, "{\"e\":\"exce") &&
        lastl.compare(0, 10, "{\"e\":\"term") && lastl.compare(0, 10, "{\"e\":\"faul"))
      out += "{\"e\":\"fault\",\"what\":\"vanished\"}\n";
  }
  // join lines
  std::string r = "[";
  size_t pos = 0;
  bool first = true;
  while (pos < out.size()) {
    size_t nl = out.find('\n', pos);
    if (!first) r += ",";
    first = false;
    r += out.substr(pos, nl - pos);
    pos = nl + 1;
  }
  return r + "]";
}
// usage: harness CASES OUT [limit]
inline int run(int argc, char **argv, CaseFn fn) {
  if (argc < 3) return 2;
  double limit = argc > 3 ? atof(argv[3]) : 20;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    vj::V cs = vj::parse(line);
    std::string ev = child(cs, fn, limit);
    out << "{\"id\":" << cs["id"].i() << ",\"cfg\":" << line << ",\"ev\":" << ev << "}\n";
  }
  out.flush();
  return out.good() ? 0 : 2;
}
} // namespace kit
