// Replays lives of library exceptions.
#include <array>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "kit.hpp"
#include "memory_layout/memory_layout_exception.hpp"
#include "util/matrix_multiplication_exception.hpp"
using kit::Ev;
using kit::log;
typedef memory_layout::memory_layout_exception ME;
typedef util::matrix_multiplication_exception XE;
struct Obj {
  std::unique_ptr<ME> m;
  std::unique_ptr<XE> x;
  std::exception &base() { return m ? (std::exception &)*m : (std::exception &)*x; }
};
static std::vector<Obj> objs;
static std::vector<const char *> ptrs;
static std::vector<int> codes(const char *p) {
  std::vector<int> r;
  for (size_t k = 0; k < 100000 && p[k]; k++) r.push_back((unsigned char)p[k]);
  return r;
}
static std::string message(size_t len, unsigned seed) {
  std::string s;
  for (size_t k = 0; k < len; k++) {
    seed = seed * 1103515245u + 12345u;
    unsigned c = (seed >> 16) & 255;
    s += (char)(c == 0 ? '%' : c);
  }
  return s;
}
template <class E> E caught(const E &e, const std::string &how) {
  if (how == "throw") {
    try { throw e; } catch (const E &c) { return c; }
  } else if (how == "base") {
    try { throw e; } catch (const std::exception &c) { return dynamic_cast<const E &>(c); }
  } else if (how == "later") {
    std::exception_ptr p;
    {
      std::unique_ptr<E> t(new E(e));
      try { throw *t; } catch (...) { p = std::current_exception(); }
    }
    std::vector<std::string> noise(50, std::string(60, '#'));
    try { std::rethrow_exception(p); } catch (const E &c) { return c; }
  } else if (how == "nested") {
    try {
      try { throw e; } catch (...) { throw; }
    } catch (E c) { return c; }
  } else if (how == "poly") {
    std::exception_ptr p = std::make_exception_ptr(e);
    try { std::rethrow_exception(p); } catch (const std::exception &c) { return dynamic_cast<const E &>(c); }
  }
  return e;
}
template <class E> std::unique_ptr<E> dup(const E &e, const std::string &how) { return std::unique_ptr<E>(new E(caught(e, how))); }
static volatile char sink;
static void __attribute__((noinline)) clobber(int n) {
  // reuse freed memory and the stack below
  char buf[6000];
  for (size_t k = 0; k < sizeof buf; k++) buf[k] = (char)('A' + (k + n) % 26);
  std::vector<std::string> v;
  for (int r = 0; r < 3; r++)
    for (size_t l = 1; l < 400; l += 7) v.push_back(std::string(l, (char)('a' + n % 26)));
  for (int r = 0; r < 10; r++) v.push_back(std::string(3000 + r * 13, 'z'));
  ME a("other message " + std::to_string(n));
  XE b("yet another message " + std::to_string(n));
  sink = buf[n % sizeof buf] + a.what()[0] + b.what()[0];
}
static void run(const vj::V &cs) {
  for (auto &o : cs["ops"].a) {
    const std::string &op = o["op"].str();
    if (op == "create") {
      Obj n;
      std::unique_ptr<std::string> s(new std::string(message(o["m"]["len"].u(), (unsigned)o["m"]["seed"].u())));
      std::vector<int> mc = codes(s->c_str());
      if (o["cls"].str() == "memory") n.m.reset(new ME(*s));
      else n.x.reset(new XE(*s));
      for (auto &c : *s) c = '!';
      s.reset();
      objs.push_back(std::move(n));
      log(Ev("create").str("cls", o["cls"].str()).ints("msg", mc));
    } else if (op == "copy") {
      Obj n;
      Obj &k = objs[o["k"].u() - 1];
      if (k.m) n.m = dup(*k.m, o["how"].str());
      else n.x = dup(*k.x, o["how"].str());
      objs.push_back(std::move(n));
      log(Ev("copy").i("k", o["k"].i()));
    } else if (op == "assign") {
      Obj &k = objs[o["k"].u() - 1], &j = objs[o["j"].u() - 1];
      if (k.m) *k.m = *j.m;
      else *k.x = *j.x;
      log(Ev("assign").i("k", o["k"].i()).i("j", o["j"].i()));
    } else if (op == "destroy") {
      Obj &k = objs[o["k"].u() - 1];
      k.m.reset();
      k.x.reset();
      log(Ev("destroy").i("k", o["k"].i()));
    } else if (op == "hold") {
      ptrs.push_back(objs[o["k"].u() - 1].base().what());
      log(Ev("hold").i("k", o["k"].i()));
    } else if (op == "clobber") {
      clobber(o["n"].i());
      log(Ev("clobber"));
    } else if (op == "read") {
      Obj &k = objs[o["k"].u() - 1];
      const char *p = o["base"].t() ? k.base().what() : k.m ? k.m->what() : k.x->what();
      log(Ev("read").i("k", o["k"].i()).ints("text", codes(p)));
    } else if (op == "held") {
      log(Ev("held").i("q", o["q"].i()).ints("text", codes(ptrs[o["q"].u() - 1])));
    }
  }
}
int main(int argc, char **argv) { return kit::run(argc, argv, run); }
