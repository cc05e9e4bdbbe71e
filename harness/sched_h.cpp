// Replays schedule construction.
#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include "variants/static_improved.hpp"
#include "prod.hpp"
using kit::Ev;
static void go(const vj::V &cs) {
  std::vector<double> A, B;
  uint64_t n = cs["n"].u(), min = cs["min"].u(), ad = cs["ad"].u(), rn = cs["rn"].u(), rd = cs["rd"].u();
  // limit and loads in units of so many elements, so that the specification
  // can count in small numbers
  uint64_t unit = (uint64_t)cs.get("unit", 1) * (uint64_t)cs.get("unit2", 1);
  multiply_components::static_improved m(n, A, B, true, 1, 1, min, cs.get("huge", 0) ? UINT64_MAX - ad : ad * unit, (double)rn / (double)rd, 1,
                                         cs.get("verbose", 0));
  kit::log(Ev("obj").i("n", n).i("min", min).i("ad", cs.get("huge", 0) ? 2000000000 : ad).i("rn", rn).i("rd", rd));
  for (auto &o : cs["ops"].a) {
    if (o.a[0].str() == "sched") {
      size_t nodes = o.a[1].u();
      auto w = m.create_schedule(nodes);
      std::string s = "[";
      for (size_t k = 0; k < w.size(); k++) {
        s += k ? ",[" : "[";
        for (size_t q = 0; q < w[k].size(); q++)
          s += std::string(q ? "," : "") + "[" + std::to_string(kit::unum(w[k][q].x)) + "," + std::to_string(kit::unum(w[k][q].y)) + "," +
               std::to_string(kit::unum(w[k][q].N)) + "]";
        s += "]";
      }
      kit::log(Ev("sched").i("nodes", nodes).raw("work", s + "]"));
      if (cs.get("print", 0)) m.print_schedule(w);
    } else {
      std::vector<uint64_t> l;
      for (long v : o.a[1].is()) l.push_back((uint64_t)v * unit);
      std::vector<uint64_t> l0 = l;
      bool r = m.fulfills_constraints(l);
      kit::log(Ev("fulf").ints("loads", o.a[1].is()).b("ok", r).b("same", l == l0));
    }
  }
}
static void run(const vj::V &cs) { prod::on_runtime(cs, [&] { go(cs); }); }
int main(int argc, char **argv) { return kit::run(argc, argv, run); }
