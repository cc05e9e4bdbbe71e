// Replays histories of multiplication objects.  One algorithm per binary
// (-DH_...), so that each is checked even if another does not build.
#include <array>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#if defined(H_ALGORITHMS)
#include "variants/algorithms.hpp"
#elif defined(H_LOOPED)
#include "variants/looped.hpp"
#elif defined(H_SEMI)
#include "variants/semi.hpp"
#elif defined(H_COMBINED)
#include "variants/combined.hpp"
#elif defined(H_KTILED)
#include "reference_kernels/kernel_tiled.hpp"
#elif defined(H_KTEST)
#include "reference_kernels/kernel_test.hpp"
#elif defined(H_SINGLE)
#include "variants/single.hpp"
#elif defined(H_PSEUDO)
#include "variants/pseudodynamic.hpp"
#elif defined(H_STATIC)
#include "variants/static_improved.hpp"
#endif
#include "prod.hpp"
#ifdef H_HPX
#include "hpxshim.hpp"
#endif
typedef std::vector<double> V;
struct Algo {
  size_t n;
  uint64_t br, bi, reps, verbose;
  bool bt;
  V &A, &B;
#if defined(H_ALGORITHMS)
  algorithms::algorithms m{n, A, B, bi, br};
#elif defined(H_LOOPED)
  looped::looped m{n, A, B, br, bi};
#elif defined(H_SEMI)
  semi::semi m{n, A, B, br, bi};
#elif defined(H_COMBINED)
  combined::combined m{n, A, B, reps, verbose};
#elif defined(H_KTILED)
  kernel_tiled::kernel_tiled m{n, A, B, bt, reps, verbose};
#elif defined(H_KTEST)
  kernel_test::kernel_test m{n, A, B, bt, reps, verbose};
#elif defined(H_SINGLE)
  single::single m{n, A, B, bt, br, bi, reps, verbose};
#elif defined(H_PSEUDO)
  const vj::V &cs;
  pseudodynamic::pseudodynamic m{n, A, B, bt, br, bi, (size_t)cs["mws"].u(), (size_t)cs["mwd"].u(), cs["rel"].d, reps, verbose};
#elif defined(H_STATIC)
  const vj::V &cs;
  multiply_components::static_improved m{n, A, B, bt, bi, br, (size_t)cs["mws"].u(), (size_t)cs["mwd"].u(), cs["rel"].d, reps, verbose};
#endif
  V mul() {
#if defined(H_COMBINED) || defined(H_KTILED)
    double d = 0;
    return m.matrix_multiply(d);
#else
    return m.matrix_multiply();
#endif
  }
};
#ifdef REAL_OMP
extern "C" void omp_set_num_threads(int);
#endif
struct Mats {
  prod::Case c;
  V A, B;
  explicit Mats(const vj::V &m) : c(m), A(c.A<V>()), B(c.B<V>()) {
    A.shrink_to_fit();
    B.shrink_to_fit();
  }
};
static Algo *make(const vj::V &cs, Mats &m, uint64_t reps) {
  uint64_t br = cs.get("br", 1), bi = cs.get("bi", 1), verbose = cs.get("verbose", 0);
  return new Algo{m.c.n, br, bi, reps, verbose, m.c.bt, m.A, m.B
#if defined(H_PSEUDO) || defined(H_STATIC)
                  , cs
#endif
  };
}
// one object, one call
static void once(const vj::V &cs) {
  Mats m(cs);
  {
    vrt::Quiet q;
    m.c.in();
  }
  std::unique_ptr<Algo> a(make(cs, m, cs.get("reps", 1)));
#ifdef H_STATIC
  {
    // the plan it would follow
    vrt::Quiet q;
    size_t nodes = (size_t)vrt::opt.localities;
    auto w = a->m.create_schedule(nodes > 1 ? nodes - 1 : nodes);
    std::string s = "[";
    for (size_t k = 0; k < w.size(); k++) {
      s += k ? ",[" : "[";
      for (size_t p = 0; p < w[k].size(); p++)
        s += std::string(p ? "," : "") + "[" + std::to_string(w[k][p].x) + "," + std::to_string(w[k][p].y) + "," + std::to_string(w[k][p].N) + "]";
      s += "]";
    }
    kit::log(kit::Ev("plan").i("nodes", (long)nodes).raw("work", s + "]"));
  }
#endif
  V C = a->mul();
  vrt::Quiet q;
  m.c.out(C);
  m.c.ops(m.A, m.B);
}
// a history of objects on one or more pairs of operands
static void history(const vj::V &cs) {
  std::vector<std::unique_ptr<Mats>> mats;
  for (auto &m : cs["mats"].a) {
    vrt::Quiet q;
    mats.emplace_back(new Mats(m));
    mats.back()->c.in();
  }
  std::unique_ptr<Algo> objs[4];
  int of[4] = {0, 0, 0, 0};
  for (auto &h : cs["hist"].a) {
    const std::string &op = h.a[0].str();
    long k = h.a[1].i();
    if (op == "new") {
      of[k] = (int)h.a[2].i() - 1;
      objs[k].reset(make(cs, *mats[of[k]], h.a[3].i()));
      vrt::Quiet q;
      kit::log(kit::Ev("new").i("o", k).i("m", of[k] + 1).i("r", h.a[3].i()));
    } else if (op == "del") {
      objs[k].reset();
      vrt::Quiet q;
      kit::log(kit::Ev("del").i("o", k));
    } else {
      V C = objs[k]->mul();
      vrt::Quiet q;
      auto &c = mats[of[k]]->c;
      kit::log(kit::Ev("mul").i("o", k).i("live", vrt::active() ? vrt::live() : 0).ints("out", c.unscale(C, c.sa * c.sb)));
    }
    vrt::Quiet q;
    for (size_t m = 0; m < mats.size(); m++) {
      auto &x = *mats[m];
      if (x.c.n <= 24)
        kit::log(kit::Ev("ops").i("m", (long)m + 1).ints("a", x.c.unscale(x.A, x.c.sa)).ints("b", x.c.unscale(x.B, x.c.sb)));
      else
        x.c.ops(x.A, x.B);
    }
  }
}
static void go(const vj::V &cs) {
  if (cs.has("hist")) history(cs);
  else once(cs);
}
static void run(const vj::V &cs) {
#ifdef REAL_OMP
  omp_set_num_threads((int)cs.get("threads", 4));
  go(cs);
#else
#ifdef H_HPX
  if (cs.get("place", 0))
    hpx::observer().action = [](int loc, const std::string &type, const std::vector<long> &a) {
      vrt::Quiet q;
      if (type.find("multiplier") == std::string::npos) return;
      if (a.size() < 3) return;
      kit::log(kit::Ev("piece").i("loc", loc).i("x", a[0]).i("y", a[1]).i("s", a[2]));
    };
#endif
  prod::explore(cs, [&] {
#ifdef H_HPX
    {
      vrt::Quiet q;
      hpx::names().clear();
    }
#endif
    go(cs);
  });
#endif
}
int main(int argc, char **argv) { return kit::run(argc, argv, run); }
