// The result of a multiplication is changed before the program gets to see it,
// as VF_DEV says; what was changed is told in the file VF_CLI.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
namespace vf {
inline bool finite_bits(double d) { // holds under -ffast-math too
  uint64_t u;
  memcpy(&u, &d, 8);
  return (u >> 52 & 0x7ff) != 0x7ff;
}
inline std::vector<double> tamper(std::vector<double> v) {
  const char *ns = getenv("VF_N"), *ds = getenv("VF_DEV"), *cs = getenv("VF_CALL");
  size_t n = ns ? strtoul(ns, nullptr, 10) : 0;
  if (v.size() != n * n) return v; // part of a result
  static int calls = 0;
  ++calls;
  int want = cs ? atoi(cs) : 0;
  std::vector<double> w = v;
  if (ds && (!want || want == calls)) {
    std::stringstream ss(ds);
    std::string op;
    while (ss >> op) {
      long i = 0;
      std::string x;
      ss >> i >> x;
      if (op == "resize") { w.resize((size_t)i, x == "nan" ? NAN : strtod(x.c_str(), nullptr)); continue; }
      if (op == "transpose") { for (size_t r = 0; r < n; r++) for (size_t c = 0; c < n; c++) w[r * n + c] = v[c * n + r]; continue; }
      if (op == "addall") { for (double &d : w) d += strtod(x.c_str(), nullptr); continue; }
      if (op == "fill") { for (double &d : w) d = strtod(x.c_str(), nullptr); continue; }
      if ((size_t)i >= w.size()) continue;
      if (op == "swap") { size_t j = strtoul(x.c_str(), nullptr, 10); if (j < w.size()) std::swap(w[i], w[j]); }
      double val;
      if (x == "nan" || x == "-nan") { uint64_t u = x[0] == '-' ? 0xfff8000000000000ull : 0x7ff8000000000000ull; memcpy(&val, &u, 8); }
      else if (x == "inf" || x == "-inf") { uint64_t u = x[0] == '-' ? 0xfff0000000000000ull : 0x7ff0000000000000ull; memcpy(&val, &u, 8); }
      else val = strtod(x.c_str(), nullptr);
      if (op == "add") { if (finite_bits(val)) w[i] += val; else w[i] = val; }
      if (op == "set") w[i] = val;
    }
  }
  std::string l = "result " + std::to_string(w.size());
  for (size_t i = 0; i < w.size() && i < v.size(); i++) {
    if (!memcmp(&w[i], &v[i], 8)) continue;
    bool f = finite_bits(w[i]);
    double d = f ? (w[i] - v[i]) * 1e15 : 0;
    if (d > 1e9) d = 1e9;
    if (d < -1e9) d = -1e9;
    l += " " + std::to_string(i) + ":" + (f ? "1" : "0") + ":" + std::to_string((long)std::floor(d + 0.5));
  }
  l += "\n";
  const char *p = getenv("VF_CLI");
  int fd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0600) : -1;
  if (fd >= 0) {
    ssize_t r = write(fd, l.data(), l.size());
    (void)r;
    close(fd);
  }
  return w;
}
}
