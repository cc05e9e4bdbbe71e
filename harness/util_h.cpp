// Replays Matrices sessions against src/util and logs what it observes.
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <sstream>
#include <algorithm>
#include <functional>
#include "kit.hpp"
#include <boost/align/aligned_allocator.hpp>
#ifdef H_BUILD
#include "util/create_identity_matrix.hpp"
#include "util/create_random_matrix.hpp"
#include "util/pattern_matrices.hpp"
#include "util/transpose_matrix.hpp"
#endif
#ifdef H_PRINT
#include "util/util.hpp"
#endif
using kit::Ev;
using kit::log;
template <class T> struct Conv {
  static T mk(long v) { return (T)v; }
  static long val(const T &t) { return kit::num((double)t); }
};
template <> struct Conv<std::string> {
  static std::string mk(long v) { return "value:" + std::to_string(v); }
  static long val(const std::string &s) { return s.compare(0, 6, "value:") ? kit::BAD : atol(s.c_str() + 6); }
};
struct Quarter { long v; };
template <> struct Conv<Quarter> {
  static Quarter mk(long v) { return Quarter{v}; }
  static long val(const Quarter &q) { return q.v; }
};
template <class C> std::vector<long> vals(const C &c) {
  std::vector<long> r;
  for (auto &x : c) r.push_back(Conv<typename C::value_type>::val(x));
  return r;
}
static std::string list(const std::vector<std::vector<long>> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) {
    s += i ? ",[" : "[";
    for (size_t j = 0; j < v[i].size(); j++) s += (j ? "," : "") + std::to_string(v[i][j]);
    s += "]";
  }
  return s + "]";
}
#ifdef H_BUILD
static std::string fields(const std::vector<double> &v) {
  std::vector<std::vector<long>> r;
  for (double d : v) {
    uint64_t u;
    memcpy(&u, &d, 8);
    r.push_back({(long)(u >> 63), (long)((u >> 52) & 2047), (long)((u >> 26) & 0x3ffffff), (long)(u & 0x3ffffff)});
  }
  return list(r);
}
template <class T> std::vector<T> build(int kind, size_t n) {
  return kind ? util::create_enumerating_matrix<T>(n) : util::create_identity_matrix<T>(n);
}
template <> std::vector<std::string> build<std::string>(int kind, size_t n) {
  std::vector<std::string> r;
  for (double d : build<double>(kind, n)) r.push_back(Conv<std::string>::mk((long)d));
  return r;
}
// the overload without allocator takes std::vector<T> only
template <class T> std::vector<T> trsq(size_t n, const std::vector<T> &m) { return util::transpose_matrix<T>(n, m); }
template <class T, class A> std::vector<T, A> trsq(size_t n, const std::vector<T, A> &m) {
  std::vector<T> plain(m.begin(), m.end());
  auto r = util::transpose_matrix<T>(n, plain);
  return std::vector<T, A>(r.begin(), r.end());
}
template <class T, class A> void session(const vj::V &cs) {
  typedef std::vector<T, A> Vec;
  std::vector<Vec> ms;
  auto all = [&] {
    std::vector<std::vector<long>> v;
    for (auto &m : ms) v.push_back(vals(m));
    Ev e("all");
    e.raw("m", list(v));
    log(e);
  };
  for (auto &o : cs["ops"].a) {
    const std::string &op = o["op"].str();
    if (op == "load") {
      size_t n = o["rows"].u() * o["cols"].u();
      unsigned long x = o["seed"].u() * 7919 + n;
      Vec m;
      for (size_t k = 0; k < n; k++) {
        x = x * 6364136223846793005ul + 1442695040888963407ul;
        m.push_back(Conv<T>::mk((long)((x >> 33) % 2000) - (std::is_unsigned<T>::value ? 0 : 1000)));
      }
      ms.push_back(m);
      log(Ev("load").ints("out", vals(m)));
    } else if (op == "ident" || op == "enum") {
      auto r = build<T>(op == "enum", o["n"].u());
      ms.push_back(Vec(r.begin(), r.end()));
      log(Ev(op.c_str()).i("n", o["n"].i()).ints("out", vals(ms.back())));
    } else if (op == "big") {
      // too large to be written down: some elements, and how many are not zero
      const std::string &w = o["what"].str();
      size_t r = o["rows"].u(), c = o["cols"].u();
      std::vector<T> m;
      if (w == "tr") { // of the matrix with element (i, j) = (7 i + 11 j) mod 1009
        std::vector<T, A> x(r * c), keep;
        for (size_t i = 0; i < r; i++)
          for (size_t j = 0; j < c; j++) x[i * c + j] = Conv<T>::mk((long)((7 * i + 11 * j) % 1009));
        auto y = util::transpose_matrix(c, r, x);
        m.assign(y.begin(), y.end());
      } else
        m = build<T>(w == "enum", r);
      size_t nz = 0, rr = w == "tr" ? c : r, cc = w == "tr" ? r : c;
      const T zero = Conv<T>::mk(0);
      for (auto &x : m) nz += x != zero;
      std::vector<std::vector<long>> at;
      unsigned long q = 88172645463325252ul;
      for (size_t k = 0; k < 400; k++) {
        q ^= q << 13, q ^= q >> 7, q ^= q << 17;
        size_t i = k < 20 ? rr - 1 : q % rr, j = k < 10 ? cc - 1 : k % 7 == 3 && i < cc ? i : (q >> 32) % cc;
        at.push_back({(long)i, (long)j, i * cc + j < m.size() ? Conv<T>::val(m[i * cc + j]) : kit::BAD});
      }
      log(Ev("big").str("what", w).i("rows", (long)r).i("cols", (long)c).i("size", kit::unum(m.size())).i("nz", kit::unum(nz)).raw("at", list(at)));
    } else if (op == "rand") {
      auto r = util::create_random_matrix<double>(o["n"].u());
      log(Ev("rand").i("n", o["n"].i()).raw("v", fields(r)));
    } else {
      size_t k = o["k"].u() - 1, r = o["rows"].u(), c = o["cols"].u();
      Vec out = op == "trsq" ? trsq(r, ms[k]) : util::transpose_matrix(c, r, ms[k]);
      ms.push_back(out);
      log(Ev("tr").i("k", (long)k + 1).i("rows", (long)r).i("cols", (long)c).ints("out", vals(out)));
    }
    if (cs.get("every", 1)) all();
  }
  all();
}
static void run(const vj::V &cs) {
  const std::string &t = cs["ty"].str();
  if (t == "int") session<int, std::allocator<int>>(cs);
  else if (t == "float") session<float, std::allocator<float>>(cs);
  else if (t == "long") session<long, std::allocator<long>>(cs);
  else if (t == "string") session<std::string, std::allocator<std::string>>(cs);
  else if (t == "aligned") session<double, boost::alignment::aligned_allocator<double, 32>>(cs);
  else session<double, std::allocator<double>>(cs);
}
#endif
#ifdef H_PRINT
static std::ostream &operator<<(std::ostream &o, const Quarter &q) { return o << (double)q.v / 4; }
template <class T, class A> void one(const vj::V &o) {
  std::vector<T, A> m;
  for (long v : o["m"].is()) m.push_back(Conv<T>::mk(v));
  bool hpxc = o["ch"].str() == "hpx", tr = o["tr"].t(), sq = o["sq"].t(), exc = false;
  size_t r = o["rows"].u(), c = o["cols"].u();
  std::stringbuf a, b;
  auto *sa = std::cout.rdbuf(&a);
  auto *sb = hpx::cout.rdbuf(&b);
  try {
    if (!hpxc) {
      if (sq) tr ? print_matrix_transposed_host(r, m) : print_matrix_host(r, m);
      else tr ? print_matrix_transposed_host(r, c, m) : print_matrix_host(r, c, m);
    } else {
      if (sq) tr ? print_matrix_transposed(r, m) : print_matrix(r, m);
      else tr ? print_matrix_transposed(r, c, m) : print_matrix(r, c, m);
    }
  } catch (std::exception &) {
    exc = true;
  }
  std::cout.rdbuf(sa);
  hpx::cout.rdbuf(sb);
  log(Ev("print").str("ty", o["ty"].str()).ints("m", vals(m)).i("rows", (long)r).i("cols", (long)c).b("tr", tr)
          .b("exc", exc).str("text", hpxc ? b.str() : a.str()).str("other", hpxc ? a.str() : b.str()));
}
static void run(const vj::V &cs) {
  for (auto &o : cs["ops"].a) {
    const std::string &t = o["ty"].str();
    if (t == "int") one<int, std::allocator<int>>(o);
    else if (t == "float") one<float, std::allocator<float>>(o);
    else if (t == "long") one<long, std::allocator<long>>(o);
    else if (t == "string") one<std::string, std::allocator<std::string>>(o);
    else if (t == "quarter") one<Quarter, std::allocator<Quarter>>(o);
    else if (t == "aligned") one<double, boost::alignment::aligned_allocator<double, 32>>(o);
    else one<double, std::allocator<double>>(o);
  }
}
#endif
int main(int argc, char **argv) { return kit::run(argc, argv, run); }
