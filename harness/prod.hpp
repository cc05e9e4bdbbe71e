// Products: operands by formula (the same as in spec/Product.tla), running a
// case on the deterministic runtime, logging results.
#pragma once
#include "kit.hpp"
#include "vrt.hpp"
#ifdef VRT_MON
#include "mon.hpp"
#include <map>
#include <algorithm>
#endif
#include <algorithm>
#include <cstring>
#include <string>
#include <vector>
namespace prod {
using kit::Ev;
inline long ent(const vj::V &m, long i, long j) {
  const std::string &k = m["kind"].str();
  if (k == "poly") {
    static thread_local const vj::V *last = nullptr;
    static thread_local std::vector<long> c;
    if (last != &m) c = m["c"].is(), last = &m;
    return ((i * c[0] + j * c[1] + i * j * c[2] + i * i * c[3] + j * j * c[4] + c[5]) % 10007) % 19 - 9;
  }
  if (k == "res") {
    const std::vector<long> c = m["c"].is();
    i %= c[6], j %= c[6];
    return ((i * c[0] + j * c[1] + i * j * c[2] + i * i * c[3] + j * j * c[4] + c[5]) % 10007) % 19 - 9;
  }
  if (k == "unit") return i == m["c"].is()[0] && j == m["c"].is()[1] ? 3 : 0;
  if (k == "ident") return i == j;
  return 0; // zero
}
template <class V> V mat(const vj::V &m, size_t n, double scale) {
  V r(n * n);
  bool res = m["kind"].str() == "res", poly = res || m["kind"].str() == "poly";
  std::vector<long> c = m["c"].is();
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      long x = (long)i, y = (long)j;
      if (res) x %= c[6], y %= c[6];
      long v = poly ? ((x * c[0] + y * c[1] + x * y * c[2] + x * x * c[3] + y * y * c[4] + c[5]) % 10007) % 19 - 9 : ent(m, x, y);
      r[i * n + j] = (typename V::value_type)((double)v * scale);
    }
  return r;
}
struct Case {
  const vj::V &cs;
  size_t n;
  double sa, sb;
  bool bt;
  explicit Case(const vj::V &c) : cs(c), n(c["n"].u()), sa(1), sb(1), bt(false) {
    if (c.has("sa")) sa = c["sa"].d;
    if (c.has("sb")) sb = c["sb"].d;
    if (c.has("bt")) bt = c["bt"].t();
  }
  template <class V> V A() const { return mat<V>(cs["a"], n, sa); }
  template <class V> V B() const { return mat<V>(cs["b"], n, sb); }
  void in() const { kit::log(Ev("in").i("n", (long)n).b("bt", bt).raw("a", vj::dump(cs["a"])).raw("b", vj::dump(cs["b"]))); }
  template <class V> std::vector<long> unscale(const V &v, double s) const {
    std::vector<long> r;
    r.reserve(v.size());
    for (auto &x : v) {
      double q = (double)x / s;
      r.push_back(q * s == (double)x ? kit::num(q) : kit::BAD);
    }
    return r;
  }
  bool residues() const { return cs["a"]["kind"].str() == "res"; }
  // lowest and highest element of every residue class
  template <class V> void classes(const V &c) const {
    std::vector<long> v = unscale(c, sa * sb);
    size_t p = (size_t)cs["a"]["c"].is()[6];
    std::vector<long> lo(p * p, 0), hi(p * p, 0), cnt(p * p, 0);
    for (size_t k = 0; k < v.size(); k++) {
      size_t q = (n ? k / n % p : 0) * p + (n ? k % n % p : 0);
      lo[q] = cnt[q] ? std::min(lo[q], v[k]) : v[k];
      hi[q] = cnt[q] ? std::max(hi[q], v[k]) : v[k];
      cnt[q]++;
    }
    std::string s = "[";
    for (size_t q = 0; q < p * p; q++)
      s += std::string(q ? "," : "") + (cnt[q] ? "[" + std::to_string(lo[q]) + "," + std::to_string(hi[q]) + "]" : "[]");
    kit::log(Ev("prodres").i("live", vrt::active() ? vrt::live() : 0).i("size", (long)c.size()).raw("out", s + "]"));
  }
  template <class V> void out(const V &c, const char *name = "prod") const {
    if (residues()) {
      classes(c);
      return;
    }
    kit::log(Ev(name).i("live", vrt::active() ? vrt::live() : 0).ints("out", unscale(c, sa * sb)));
  }
  // the operands after the call
  template <class V> void ops(const V &a, const V &b) const {
    if (n <= 24 && !residues())
      kit::log(Ev("ops").ints("a", unscale(a, sa)).ints("b", unscale(b, sb)));
    else
      kit::log(Ev("opsame").b("a", a == A<V>()).b("b", b == B<V>()));
  }
};
inline void stuck(const char *w) {
  kit::sink() = nullptr;
  kit::log(Ev("stuck").str("what", w));
  _exit(96);
}
#ifdef VRT_MON
// The monitored accesses as a trace: addresses become ranks, bytes only one
// task ever touches are left out.
inline void log_access() {
  using mon::items;
  struct P { uintptr_t a; int k; };
  std::map<uintptr_t, std::vector<int>> dummy;
  // sweep: which parts are touched by more than one task
  struct E { uintptr_t a; int task; bool open; };
  std::vector<E> ev;
  for (auto &it : items)
    if (it.kind == 's')
      for (int w = 0; w < 2; w++)
        for (auto &x : w ? it.w : it.r) {
          ev.push_back({x.first, it.task, true});
          ev.push_back({x.second, it.task, false});
        }
  std::sort(ev.begin(), ev.end(), [](const E &x, const E &y) { return x.a < y.a; });
  std::vector<uintptr_t> pts; // boundaries of shared parts
  std::vector<std::pair<uintptr_t, uintptr_t>> shared;
  std::map<int, int> cnt;
  for (size_t k = 0; k < ev.size();) {
    uintptr_t a = ev[k].a;
    while (k < ev.size() && ev[k].a == a) {
      int &c = cnt[ev[k].task];
      c += ev[k].open ? 1 : -1;
      if (!c) cnt.erase(ev[k].task);
      k++;
    }
    if (cnt.size() > 1 && k < ev.size()) {
      if (!shared.empty() && shared.back().second == a) shared.back().second = ev[k].a;
      else shared.push_back({a, ev[k].a});
    }
  }
  auto clip = [&](const std::vector<std::pair<uintptr_t, uintptr_t>> &v) {
    std::vector<std::pair<uintptr_t, uintptr_t>> r;
    for (auto &x : v) {
      auto s = std::upper_bound(shared.begin(), shared.end(), std::make_pair(x.first, (uintptr_t)-1));
      if (s != shared.begin()) --s;
      for (; s != shared.end() && s->first < x.second; ++s) {
        uintptr_t a = std::max(s->first, x.first), b = std::min(s->second, x.second);
        if (a < b) r.push_back({a, b});
      }
    }
    return r;
  };
  for (auto &it : items)
    if (it.kind == 's') {
      it.r = clip(it.r);
      it.w = clip(it.w);
      for (int w = 0; w < 2; w++)
        for (auto &x : w ? it.w : it.r) {
          pts.push_back(x.first);
          pts.push_back(x.second);
        }
    }
  std::sort(pts.begin(), pts.end());
  pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
  auto rank = [&](uintptr_t a) { return (long)(std::lower_bound(pts.begin(), pts.end(), a) - pts.begin()); };
  auto list = [&](const std::vector<std::pair<uintptr_t, uintptr_t>> &v) {
    std::string s = "[";
    long pa = -1, pb = -1;
    bool first = true;
    auto put = [&] {
      if (pa < 0) return;
      s += (first ? "[" : ",[") + std::to_string(pa) + "," + std::to_string(pb) + "]";
      first = false;
    };
    for (auto &x : v) {
      long a = rank(x.first), b = rank(x.second);
      if (a == pb) { pb = b; continue; }
      put();
      pa = a;
      pb = b;
    }
    put();
    return s + "]";
  };
  kit::log(Ev("tasks").i("n", vrt::tasks()));
  std::vector<int> objs;
  for (auto &it : items)
    if (it.kind != 's') objs.push_back(it.obj);
  std::sort(objs.begin(), objs.end());
  objs.erase(std::unique(objs.begin(), objs.end()), objs.end());
  for (auto &it : items) {
    if (it.kind == 's') {
      if (it.r.empty() && it.w.empty()) continue;
      kit::log(Ev("seg").i("t", it.task).raw("r", list(it.r)).raw("w", list(it.w)));
    } else
      kit::log(Ev(it.kind == 'r' ? "rel" : "acq").i("t", it.task).i("o", std::lower_bound(objs.begin(), objs.end(), it.obj) - objs.begin() + 1));
  }
}
#endif
// Runs fn as the main task of the runtime with the options of the case.
template <class F> void on_runtime(const vj::V &cs, F fn) {
  vrt::Opt o;
  if (cs.has("strategy")) o.strategy = cs["strategy"].str();
  o.seed = (unsigned)cs.get("seed", 1);
  o.chunk = (int)cs.get("chunk", 1);
  o.backwards = (int)cs.get("back", 0);
  o.threads = (int)cs.get("threads", 3);
  o.limit = (int)cs.get("limit", 0);
  o.preempt = (int)cs.get("preempt", 0);
  o.localities = (int)cs.get("localities", 1);
  if (cs.has("script"))
    for (long x : cs["script"].is()) o.script.push_back((int)x);
  vrt::on_stuck = stuck;
  std::exception_ptr err;
  vrt::run(o, [&] {
#ifdef VRT_MON
    mon::record = cs.get("race", 0) != 0;
    mon::start();
#endif
    try {
      fn();
      vrt::drain();
    } catch (...) {
      err = std::current_exception();
    }
#ifdef VRT_MON
    mon::stop();
#endif
  });
#ifdef VRT_MON
  if (cs.get("race", 0)) log_access();
#endif
  if (err) std::rethrow_exception(err);
}
// Runs fn under many schedules: as many as there are or "explore" of them, all
// choices systematically ("dfs") or at random.  Equal runs are logged once.
template <class F> void explore(const vj::V &cs, F fn) {
  long max = cs.get("explore", 0);
  if (max <= 0) {
    on_runtime(cs, fn);
    return;
  }
  bool dfs = cs.get("dfs", 0) != 0, all = false;
  std::vector<int> script;
  std::vector<std::string> seen;
  long n = 0;
  unsigned seed0 = (unsigned)cs.get("seed", 1);
  for (; n < max && !all; n++) {
    vrt::Opt o;
    o.strategy = dfs ? "script" : n == 0 ? "fifo" : n == 1 ? "lifo" : n == 2 ? "eager" : "random";
    o.seed = seed0 + (unsigned)n;
    o.chunk = (int)cs.get("chunk", 1);
    o.backwards = (int)cs.get("back", 0);
    o.threads = (int)cs.get("threads", 3);
    o.localities = (int)cs.get("localities", 1);
    o.script = script;
    vrt::on_stuck = stuck;
    std::string ev;
    std::exception_ptr err;
    kit::sink() = &ev;
    vrt::run(o, [&] {
      try {
        fn();
        vrt::drain();
      } catch (...) {
        err = std::current_exception();
      }
    });
    kit::sink() = nullptr;
    if (err) {
      kit::wr(ev);
      std::rethrow_exception(err);
    }
    if (seen.size() < 6 && std::find(seen.begin(), seen.end(), ev) == seen.end()) {
      if (!seen.empty()) kit::log(Ev("again"));
      kit::wr(ev);
      seen.push_back(ev);
    }
    if (dfs) {
      // next script: the last choice that has another alternative
      const std::vector<int> &c = vrt::choices();
      script.resize(c.size(), 0);
      while (!script.empty() && script.back() + 1 >= c[script.size() - 1]) script.pop_back();
      if (script.empty()) all = true;
      else script.back()++;
    }
  }
  kit::log(Ev("schedules").i("n", n).b("all", all));
}
} // namespace prod
