// Replays Layout sessions against src/memory_layout and logs what it observes.
#include <array>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include "memory_layout/tile_view.hpp"

#include "kit.hpp"
#include <boost/align/aligned_allocator.hpp>

using memory_layout::tiling_info_dim;
using kit::Ev;
using kit::log;

template <class T> struct Conv {
  static T mk(long v) { return (T)v; }
  static long val(const T &t) { return kit::num((double)t); }
};
template <> struct Conv<std::string> {
  static std::string mk(long v) { return "value:" + std::to_string(v); }
  static long val(const std::string &s) {
    if (s.compare(0, 6, "value:") != 0) return kit::BAD;
    return atol(s.c_str() + 6);
  }
};

template <class T, class A> struct Session {
  typedef std::vector<T, A> Vec;
  struct Arr {
    Vec data;
    std::vector<tiling_info_dim> info;
  };
  struct View {
    virtual ~View() {}
    virtual T &at(const std::vector<size_t> &c, int mode) = 0;
    virtual void describe(Ev &e) = 0;
    virtual size_t size() = 0;
  };
  std::deque<Arr> arrs;
  std::vector<std::unique_ptr<View>> views;

  static std::vector<long> vals(const Vec &v) {
    std::vector<long> r;
    for (auto &x : v) r.push_back(Conv<T>::val(x));
    return r;
  }
  template <size_t D> struct ViewD : View {
    memory_layout::tile_view<D, T, A> v;
    std::vector<tiling_info_dim> info;
    // a copy of a view is a view on the same tile; what it was made from may change afterwards
    static memory_layout::tile_view<D, T, A> make(Vec &d, size_t (&t)[D], std::vector<tiling_info_dim> i) {
      memory_layout::tile_view<D, T, A> w(d, t, i);
      for (size_t q = 0; q < D; q++) t[q] += 5, i[q].stride += 3 * i[q].tile_size_dir, i[q].tile_size_dir++;
      return w;
    }
    ViewD(Vec &d, size_t (&t)[D], const std::vector<tiling_info_dim> &i) : v(make(d, t, i)), info(i) {}
    template <size_t... I> T &call(const std::vector<size_t> &c, std::index_sequence<I...>) {
      return v(c[I]...);
    }
    T &at(const std::vector<size_t> &c, int mode) override {
      if (mode == 0) {
        size_t off = 0;
        for (size_t d = 0; d < D; d++) off = off * info[d].tile_size_dir + c[d];
        return v[off];
      }
      if (mode == 1) {
        std::array<size_t, D> a;
        for (size_t d = 0; d < D; d++) a[d] = c[d];
        return v[a];
      }
      return call(c, std::make_index_sequence<D>());
    }
    void describe(Ev &e) override {
      e.ints("idx", v.get_tile_index());
      e.ints("dirs", v.get_tiles_dir());
      e.i("size", kit::unum(v.size()));
    }
    size_t size() override { return v.size(); }
  };

  void keep(size_t h, const char *name, Vec out) {
    Arr &s = arrs[h];
    log(Ev(name).i("h", h + 1).ints("out", vals(out)).ints("src", vals(s.data)));
    Arr n;
    n.data = std::move(out);
    n.info = s.info;
    arrs.push_back(std::move(n));
  }
  template <size_t D> void tile(size_t h) {
    keep(h, "tile", memory_layout::make_tiled<D>(arrs[h].data, arrs[h].info));
  }
  template <size_t D> void untile(size_t h) {
    keep(h, "untile", memory_layout::undo_tiling<D>(arrs[h].data, arrs[h].info));
  }
  template <size_t D> void reject(size_t h, bool undo, size_t given) {
    Arr &s = arrs[h];
    std::vector<tiling_info_dim> info(given);
    for (size_t d = 0; d < given; d++) info[d] = s.info[d % s.info.size()];
    std::string res = "returned", what;
    try {
      if (undo)
        memory_layout::undo_tiling<D>(s.data, info);
      else
        memory_layout::make_tiled<D>(s.data, info);
    } catch (memory_layout::memory_layout_exception &e) {
      res = "library";
      what = e.what();
    } catch (...) {
      res = "other";
    }
    log(Ev("reject").i("h", h + 1).i("given", given).str("res", res).ints("src", vals(s.data)));
  }
  template <size_t D> void bind(size_t h, const std::vector<size_t> &t) {
    size_t ti[D];
    for (size_t d = 0; d < D; d++) ti[d] = t[d];
    views.emplace_back(new ViewD<D>(arrs[h].data, ti, arrs[h].info));
    Ev e("bind");
    e.i("h", h + 1).ints("t", t);
    views.back()->describe(e);
    log(e);
  }
  template <size_t D> void iter(size_t h, size_t k, size_t o, long x) {
    Arr &s = arrs[h];
    log(Ev("iterb").i("h", h + 1));
    size_t n = 0;
    size_t cap = s.data.size() + 8; // a runaway iteration is cut, and shows in the trace
    memory_layout::iterate_tiles<D>(s.data, s.info, [&](auto view) {
      if (n > cap) {
        kit::lograw("{\"e\":\"fault\",\"what\":\"runaway iteration\"}");
        _exit(0);
      }
      Ev e("visit");
      e.ints("idx", view.get_tile_index());
      e.ints("dirs", view.get_tiles_dir());
      e.i("size", kit::unum(view.size()));
      std::vector<long> c;
      size_t ts = 1;
      for (auto &i : s.info) ts *= i.tile_size_dir;
      for (size_t q = 0; q < ts; q++) c.push_back(Conv<T>::val(view[q]));
      e.ints("data", c);
      if (n == k) {
        view[o] = Conv<T>::mk(x);
        e.i("o", o).i("x", x);
      }
      e.b("wrote", n == k);
      log(e);
      n++;
    });
    log(Ev("itere").ints("data", vals(s.data)));
  }
#define DCASE(n, CALL) case n: CALL(n); break;
#ifdef H_ONLYDIM
#define DIMCASES(CALL) DCASE(H_ONLYDIM, CALL)
#else
#define DIMCASES(CALL) DCASE(1, CALL) DCASE(2, CALL) DCASE(3, CALL) DCASE(4, CALL) DCASE(5, CALL) DCASE(6, CALL) DCASE(7, CALL)
#endif
#define DISPATCH(D, CALL)                                                                          \
  switch (D) {                                                                                     \
    DIMCASES(CALL)                                                                                 \
  default: abort();                                                                                \
  }
  void run(const vj::V &cs) {
    for (auto &op : cs["ops"].a) {
      const std::string &o = op["op"].str();
      if (o == "new") {
        Arr n;
        auto t = op["tile"].us(), e = op["ext"].us();
        size_t sz = 1;
        for (size_t d = 0; d < t.size(); d++) {
          tiling_info_dim i;
          i.tile_size_dir = t[d];
          i.stride = e[d];
          n.info.push_back(i);
          sz *= e[d];
        }
        for (size_t p = 0; p < sz; p++) n.data.push_back(Conv<T>::mk(op["base"].i() + (long)p + 1));
        log(Ev("new").str("kind", op["kind"].str()).ints("tile", t).ints("ext", e).ints("data", vals(n.data)));
        arrs.push_back(std::move(n));
        continue;
      }
      if (o == "read" || o == "write") {
        View &v = *views.at(op["v"].u() - 1);
        auto c = op["c"].us();
        T &ref = v.at(c, (int)op["mode"].i());
        if (o == "read")
          log(Ev("read").i("v", op["v"].i()).ints("c", c).i("val", Conv<T>::val(ref)));
        else {
          ref = Conv<T>::mk(op["x"].i());
          // the whole state of all arrays, to see stray writes
          std::string all = "[";
          for (size_t h = 0; h < arrs.size(); h++) {
            all += h ? ",[" : "[";
            auto vv = vals(arrs[h].data);
            for (size_t q = 0; q < vv.size(); q++) all += (q ? "," : "") + std::to_string(vv[q]);
            all += "]";
          }
          log(Ev("write").i("v", op["v"].i()).ints("c", c).i("x", op["x"].i()).raw("all", all + "]"));
        }
        continue;
      }
      size_t h = op["h"].u() - 1;
      size_t D = arrs.at(h).info.size();
#define C_TILE(d) tile<d>(h)
#define C_UNTILE(d) untile<d>(h)
#define C_REJ(d) reject<d>(h, op["which"].str() == "untile", op["given"].u())
#define C_BIND(d) bind<d>(h, op["t"].us())
#define C_ITER(d) iter<d>(h, op["k"].u(), op["o"].u(), op["x"].i())
#ifdef H_TILE
      if (o == "tile") DISPATCH(D, C_TILE)
#endif
#ifdef H_UNTILE
      if (o == "untile") DISPATCH(D, C_UNTILE)
#endif
#ifdef H_REJECT
      if (o == "reject") DISPATCH(D, C_REJ)
#endif
#ifdef H_VIEW
      if (o == "bind") DISPATCH(D, C_BIND)
#endif
#ifdef H_ITER
      if (o == "iter") DISPATCH(D, C_ITER)
#endif
    }
  }
};
template <class T, class A> void go(const vj::V &cs) {
  Session<T, A> s;
  s.run(cs);
}
int main(int argc, char **argv) {
  return kit::run(argc, argv, [](const vj::V &cs) {
    const std::string &ty = cs["ty"].str();
    if (ty == "double") go<double, std::allocator<double>>(cs);
    else if (ty == "int") go<int, std::allocator<int>>(cs);
    else if (ty == "float") go<float, std::allocator<float>>(cs);
    else if (ty == "string") go<std::string, std::allocator<std::string>>(cs);
    else go<double, boost::alignment::aligned_allocator<double, 32>>(cs);
  });
}
