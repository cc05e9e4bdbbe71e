// Stand-in for the part of HPX that the repository uses, on top of vrt.  Tasks
// are fibers, localities are numbers, components live in this process.
#pragma once
#include "vrt.hpp"
#include <algorithm>
#include <array>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <functional>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <boost/program_options.hpp>

#define VRT_NS __attribute__((no_sanitize("thread")))
// told of every parallel loop, when it is linked
extern "C" void vf_region() __attribute__((weak));

namespace hpx {
// ---- shared state of futures; reference counted without atomics -------------
namespace detail {
template <class T> struct Ref {
  T *p = nullptr;
  VRT_NS Ref() {}
  VRT_NS explicit Ref(T *q) : p(q) { if (p) p->refs++; }
  VRT_NS Ref(const Ref &o) : p(o.p) { if (p) p->refs++; }
  VRT_NS Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
  VRT_NS Ref &operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
  VRT_NS ~Ref() {
    if (p && --p->refs == 0) {
      vrt::Quiet q;
      delete p;
    }
  }
  VRT_NS T *operator->() const { return p; }
  VRT_NS explicit operator bool() const { return p != nullptr; }
};
struct StateBase {
  int refs = 0;
  bool ready = false;
  int obj = 0;
  std::exception_ptr err;
  StateBase() : obj(vrt::newobj()) {}
  virtual ~StateBase() {}
};
template <class T> struct State : StateBase {
  typename std::aligned_storage<sizeof(T), alignof(T)>::type mem;
  bool has = false;
  T &val() { return *reinterpret_cast<T *>(&mem); }
  template <class U> void set(U &&u) { new (&mem) T(std::forward<U>(u)); has = true; }
  ~State() { if (has) val().~T(); }
};
template <> struct State<void> : StateBase {};
template <class T> VRT_NS void mark_ready(State<T> *s) {
  vrt::Quiet q;
  vrt::rel(s->obj);
  s->ready = true;
}
VRT_NS inline void await(StateBase *s) {
  vrt::Quiet q;
  vrt::wait([s]() VRT_NS { return s->ready; });
  vrt::acq(s->obj);
}
template <class R> struct Call {
  template <class F> static void into(State<R> *s, F &&f) {
    try {
      s->set(f());
    } catch (...) {
      s->err = std::current_exception();
    }
    mark_ready(s);
  }
};
template <> struct Call<void> {
  template <class F> static void into(State<void> *s, F &&f) {
    try {
      f();
    } catch (...) {
      s->err = std::current_exception();
    }
    mark_ready(s);
  }
};
template <class F> struct Box {
  int refs = 0;
  F f;
  explicit Box(F g) : f(std::move(g)) {}
};
template <class F> Ref<Box<F>> box(F f) { return Ref<Box<F>>(new Box<F>(std::move(f))); }
struct Access {
  template <class F> static auto &st(F &f) { return f.s; }
};
} // namespace detail

template <class T> class future;
template <class T> class shared_future;
template <class X> struct is_future : std::false_type {};
template <class T> struct is_future<future<T>> : std::true_type {};
template <class T> struct is_future<shared_future<T>> : std::true_type {};

struct launch_t { int k; };
namespace launch { static const launch_t async{0}, sync{1}, deferred{2}, fork{3}, all{4}; }

template <class R, class F> future<R> spawn_future(F f, int loc = -1);
template <class R, class F, class S> future<R> spawn_after(S dep, F f);

template <class T> class future_base {
protected:
  detail::Ref<detail::State<T>> s;
  friend struct detail::Access;
public:
  typedef T result_type;
  future_base() {}
  explicit future_base(detail::Ref<detail::State<T>> r) : s(std::move(r)) {}
  bool valid() const { return (bool)s; }
  VRT_NS bool is_ready() const { return s->ready; }
  VRT_NS bool has_exception() const { return s->ready && s->err; }
  void wait() const { detail::await(s.p); }
};
template <class T> class future : public future_base<T> {
public:
  future() {}
  explicit future(detail::Ref<detail::State<T>> r) : future_base<T>(std::move(r)) {}
  future(future &&) = default;
  future &operator=(future &&) = default;
  future(const future &) = delete;
  future &operator=(const future &) = delete;
  future(future<future<T>> &&o) : future(spawn_future<T>([st = detail::Access::st(o)]() mutable {
      future<future<T>> x(st);
      return x.get().get();
    })) {}
  T get() {
    if (!this->s) throw std::runtime_error("future has no state");
    detail::await(this->s.p);
    auto r = std::move(this->s);
    if (r->err) std::rethrow_exception(r->err);
    return std::move(r->val());
  }
  template <class F> auto then(F f) {
    typedef decltype(f(std::declval<future<T>>())) R;
    auto dep = std::move(this->s);
    return spawn_after<R>(dep, [f = std::move(f), dep]() mutable { return f(future<T>(dep)); });
  }
  template <class F> auto then(launch_t, F f) { return then(std::move(f)); }
  shared_future<T> share();
};
template <> class future<void> : public future_base<void> {
public:
  future() {}
  explicit future(detail::Ref<detail::State<void>> r) : future_base<void>(std::move(r)) {}
  future(future &&) = default;
  future &operator=(future &&) = default;
  future(const future &) = delete;
  future &operator=(const future &) = delete;
  template <class U> future(future<U> &&o);
  void get() {
    if (!this->s) throw std::runtime_error("future has no state");
    detail::await(this->s.p);
    auto r = std::move(this->s);
    if (r->err) std::rethrow_exception(r->err);
  }
  template <class F> auto then(F f) {
    typedef decltype(f(std::declval<future<void>>())) R;
    auto dep = std::move(this->s);
    return spawn_after<R>(dep, [f = std::move(f), dep]() mutable { return f(future<void>(dep)); });
  }
  template <class F> auto then(launch_t, F f) { return then(std::move(f)); }
  shared_future<void> share();
};
template <class T> class shared_future : public future_base<T> {
public:
  shared_future() {}
  explicit shared_future(detail::Ref<detail::State<T>> r) : future_base<T>(std::move(r)) {}
  shared_future(future<T> &&f) : future_base<T>(std::move(detail::Access::st(f))) {}
  typename std::add_lvalue_reference<const T>::type get() const {
    detail::await(this->s.p);
    if (this->s->err) std::rethrow_exception(this->s->err);
    return ret(std::is_void<T>());
  }
  template <class F> auto then(F f) const {
    typedef decltype(f(std::declval<shared_future<T>>())) R;
    auto dep = this->s;
    return spawn_after<R>(dep, [f = std::move(f), dep]() mutable { return f(shared_future<T>(dep)); });
  }
private:
  void ret(std::true_type) const {}
  template <class B> auto ret(B) const -> typename std::add_lvalue_reference<const T>::type { return this->s->val(); }
};
template <class T> shared_future<T> future<T>::share() { return shared_future<T>(std::move(*this)); }
inline shared_future<void> future<void>::share() { return shared_future<void>(std::move(*this)); }

template <class R, class F> future<R> spawn_future(F f, int loc) {
  detail::Ref<detail::State<R>> s(new detail::State<R>);
  vrt::spawn([s, f = detail::box(std::move(f))]() mutable { detail::Call<R>::into(s.p, f->f); }, loc);
  return future<R>(s);
}
template <class R, class F, class S> future<R> spawn_after(S dep, F f) {
  detail::Ref<detail::State<R>> s(new detail::State<R>);
  vrt::spawn([s, dep, f = detail::box(std::move(f))]() mutable {
    detail::await(dep.p);
    detail::Call<R>::into(s.p, f->f);
  });
  return future<R>(s);
}
template <class U> future<void>::future(future<U> &&o)
    : future(spawn_after<void>(detail::Access::st(o), [] {})) {
  o = future<U>();
}
template <class T> future<typename std::decay<T>::type> make_ready_future(T &&t) {
  typedef typename std::decay<T>::type D;
  detail::Ref<detail::State<D>> s(new detail::State<D>);
  s->set(std::forward<T>(t));
  detail::mark_ready(s.p);
  return future<D>(s);
}
inline future<void> make_ready_future() {
  detail::Ref<detail::State<void>> s(new detail::State<void>);
  detail::mark_ready(s.p);
  return future<void>(s);
}
template <class T> class promise {
  detail::Ref<detail::State<T>> s{new detail::State<T>};
public:
  future<T> get_future() { return future<T>(s); }
  template <class U> void set_value(U &&u) { s->set(std::forward<U>(u)); detail::mark_ready(s.p); }
};
template <> class promise<void> {
  detail::Ref<detail::State<void>> s{new detail::State<void>};
public:
  future<void> get_future() { return future<void>(s); }
  void set_value() { detail::mark_ready(s.p); }
};
namespace lcos {
template <class T> using future = hpx::future<T>;
template <class T> using shared_future = hpx::shared_future<T>;
namespace local { template <class T> using promise = hpx::promise<T>; }
} // namespace lcos

// waiting
template <class F> void wait_all(std::vector<F> &v) { for (auto &f : v) if (f.valid()) f.wait(); }
template <class F> void wait_all(std::vector<F> &&v) { for (auto &f : v) if (f.valid()) f.wait(); }
template <class F> void wait_all(const std::vector<F> &v) { for (auto &f : v) if (f.valid()) f.wait(); }
template <class F, size_t n> void wait_all(std::array<F, n> &v) { for (auto &f : v) if (f.valid()) f.wait(); }
template <class It, class = typename std::iterator_traits<It>::iterator_category>
void wait_all(It b, It e) { for (; b != e; ++b) if (b->valid()) b->wait(); }
template <class T, class... R> void wait_all(future<T> &a, R &&... r) {
  a.wait();
  int x[] = {0, (r.wait(), 0)...};
  (void)x;
}
template <class F> void wait_each(std::vector<F> &v) { wait_all(v); }
template <class T> future<std::vector<future<T>>> when_all(std::vector<future<T>> &v) {
  std::vector<future<T>> w = std::move(v);
  auto sp = detail::box(std::move(w));
  return spawn_future<std::vector<future<T>>>([sp]() {
    wait_all(sp->f);
    return std::move(sp->f);
  });
}
template <class T> future<std::vector<future<T>>> when_all(std::vector<future<T>> &&v) { return when_all(v); }
template <class T> future<std::vector<future<T>>> when_all(const std::vector<future<T>> &) = delete;
template <class T> future<std::vector<shared_future<T>>> when_all(const std::vector<shared_future<T>> &v) {
  return spawn_future<std::vector<shared_future<T>>>([v]() { wait_all(v); return v; });
}

template <class T> future<std::vector<shared_future<T>>> when_all(std::vector<shared_future<T>> &v) {
  return when_all(const_cast<const std::vector<shared_future<T>> &>(v));
}
template <class T> future<std::vector<shared_future<T>>> when_all(std::vector<shared_future<T>> &&v) {
  return when_all(const_cast<const std::vector<shared_future<T>> &>(v));
}
template <class It, class F = typename std::iterator_traits<It>::value_type>
future<std::vector<F>> when_all(It b, It e) {
  std::vector<F> w(std::make_move_iterator(b), std::make_move_iterator(e));
  return when_all(std::move(w));
}
namespace detail {
template <class F> F take(F &&f) { return std::move(f); }
template <class T> future<T> take(future<T> &f) { return std::move(f); }
template <class T> shared_future<T> take(shared_future<T> &f) { return f; }
template <class T> shared_future<T> take(const shared_future<T> &f) { return f; }
template <class Tup, size_t... I> void wait_tuple(Tup &t, std::index_sequence<I...>) {
  int x[] = {0, (std::get<I>(t).wait(), 0)...};
  (void)x;
}
template <class X> struct Wait { static void on(X &) {} };
template <class T> struct Wait<future<T>> { static void on(future<T> &f) { if (f.valid()) f.wait(); } };
template <class T> struct Wait<shared_future<T>> { static void on(shared_future<T> &f) { if (f.valid()) f.wait(); } };
template <class X> struct Wait<std::vector<X>> { static void on(std::vector<X> &v) { for (auto &x : v) Wait<X>::on(x); } };
template <class Tup, size_t... I> void wait_any_tuple(Tup &t, std::index_sequence<I...>) {
  int x[] = {0, (Wait<typename std::tuple_element<I, Tup>::type>::on(std::get<I>(t)), 0)...};
  (void)x;
}
template <class F, class Tup, size_t... I> auto call_tuple(F &f, Tup &t, std::index_sequence<I...>) { return f(std::move(std::get<I>(t))...); }
} // namespace detail
template <class F0, class... F, class = typename std::enable_if<is_future<typename std::decay<F0>::type>::value>::type>
auto when_all(F0 &&f0, F &&... f) {
  typedef std::tuple<typename std::decay<F0>::type, typename std::decay<F>::type...> Tup;
  auto sp = detail::box(Tup(detail::take(std::forward<F0>(f0)), detail::take(std::forward<F>(f))...));
  return spawn_future<Tup>([sp]() {
    detail::wait_tuple(sp->f, std::make_index_sequence<std::tuple_size<Tup>::value>());
    return std::move(sp->f);
  });
}
template <class F> void wait_any(std::vector<F> &v) {
  if (v.empty()) return;
  vrt::wait([&v]() VRT_NS { for (auto &f : v) if (!f.valid() || f.is_ready()) return true; return false; });
  for (auto &f : v) if (f.valid() && f.is_ready()) f.wait();
}
// the arguments are waited for in a task and handed over as they are
template <class Fn, class... A> auto dataflow(Fn fn, A &&... a) {
  typedef std::tuple<typename std::decay<A>::type...> Tup;
  typedef decltype(fn(std::declval<typename std::decay<A>::type>()...)) R;
  auto sp = detail::box(std::make_pair(std::move(fn), Tup(std::forward<A>(a)...)));
  return spawn_future<R>([sp]() {
    typedef std::make_index_sequence<std::tuple_size<Tup>::value> I;
    detail::wait_any_tuple(sp->f.second, I());
    return detail::call_tuple(sp->f.first, sp->f.second, I());
  });
}
namespace lcos {
using hpx::wait_all; using hpx::when_all; using hpx::wait_any; using hpx::wait_each;
namespace local {
using hpx::dataflow;
class mutex {
  bool held = false;
  int obj = vrt::newobj();
public:
  mutex() {}
  mutex(const mutex &) = delete;
  VRT_NS void lock() {
    vrt::Quiet q;
    do vrt::wait([this]() VRT_NS { return !held; }); while (held);
    held = true;
    vrt::acq(obj);
  }
  VRT_NS bool try_lock() {
    vrt::Quiet q;
    if (held) return false;
    held = true;
    vrt::acq(obj);
    return true;
  }
  VRT_NS void unlock() {
    vrt::Quiet q;
    vrt::rel(obj);
    held = false;
  }
};
typedef mutex spinlock;
class latch {
  std::ptrdiff_t n;
  int obj = vrt::newobj();
public:
  explicit latch(std::ptrdiff_t k) : n(k) {}
  VRT_NS void count_down(std::ptrdiff_t k = 1) {
    vrt::Quiet q;
    vrt::rel(obj);
    n -= k;
  }
  VRT_NS bool is_ready() const { return n <= 0; }
  VRT_NS void wait() {
    vrt::Quiet q;
    vrt::wait([this]() VRT_NS { return n <= 0; });
    vrt::acq(obj);
  }
  void count_down_and_wait() { count_down(); wait(); }
  void arrive_and_wait() { count_down(); wait(); }
};
class barrier {
  std::size_t n, here = 0, gen = 0;
  int obj = vrt::newobj();
public:
  explicit barrier(std::size_t k) : n(k) {}
  VRT_NS void wait() {
    vrt::Quiet q;
    vrt::rel(obj);
    std::size_t g = gen;
    if (++here == n) {
      here = 0;
      gen++;
    } else
      vrt::wait([this, g]() VRT_NS { return gen != g; });
    vrt::acq(obj);
  }
};
class counting_semaphore {
  std::int64_t n;
  int obj = vrt::newobj();
public:
  explicit counting_semaphore(std::int64_t k = 0) : n(k) {}
  VRT_NS void signal(std::int64_t k = 1) {
    vrt::Quiet q;
    vrt::rel(obj);
    n += k;
  }
  VRT_NS void wait(std::int64_t k = 1) {
    vrt::Quiet q;
    do vrt::wait([this, k]() VRT_NS { return n >= k; }); while (n < k);
    n -= k;
    vrt::acq(obj);
  }
};
} // namespace local
} // namespace lcos
using lcos::local::mutex;
using lcos::local::spinlock;
using lcos::local::latch;
namespace this_thread {
inline void yield() { if (vrt::active()) vrt::yield(); }
template <class D> void sleep_for(const D &) { yield(); }
} // namespace this_thread

namespace util {
template <class F> struct unwrapped_t {
  F f;
  template <class T> static decltype(auto) un(T &&t, std::true_type) { return t.get(); }
  template <class T> static T &&un(T &&t, std::false_type) { return std::forward<T>(t); }
  template <class T> auto one(future<T> &&a) { return f(a.get()); }
  auto one(future<void> &&a) { a.get(); return f(); }
  auto operator()() { return f(); }
  template <class T> auto operator()(future<T> &&a) { return call(std::move(a), std::is_void<T>()); }
  template <class T> auto operator()(future<T> &a) { return call(std::move(a), std::is_void<T>()); }
  template <class T> auto operator()(shared_future<T> a) { return f(a.get()); }
  // several arguments: each is unwrapped
  template <class T> static T strip(future<T> &&a) { return a.get(); }
  template <class T> static T strip(future<T> &a) { return a.get(); }
  template <class T> static T strip(shared_future<T> a) { return a.get(); }
  template <class A, class B, class... C> auto operator()(A &&a, B &&b, C &&... c) {
    return f(strip(std::forward<A>(a)), strip(std::forward<B>(b)), strip(std::forward<C>(c))...);
  }
  template <class T> auto call(future<T> &&a, std::true_type) { a.get(); return f(); }
  template <class T> auto call(future<T> &&a, std::false_type) { return val(a.get()); }
  template <class T> auto val(T &&t) { return f(std::forward<T>(t)); }
  template <class T> auto val(std::vector<future<T>> &&v) {
    std::vector<T> r;
    for (auto &x : v) r.push_back(x.get());
    return f(std::move(r));
  }
  auto val(std::vector<future<void>> &&v) {
    for (auto &x : v) x.get();
    return f();
  }
};
template <class F> unwrapped_t<typename std::decay<F>::type> unwrapped(F &&f) { return {std::forward<F>(f)}; }
template <class F> unwrapped_t<typename std::decay<F>::type> unwrapping(F &&f) { return {std::forward<F>(f)}; }

class high_resolution_timer {
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
public:
  void restart() { t0 = std::chrono::steady_clock::now(); }
  double elapsed() const {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() + 1e-9;
  }
  static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }
};

struct high_resolution_clock {
  static std::uint64_t now() {
    return (std::uint64_t)std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }
};

class iterator_core_access {
public:
  template <class I> static void increment(I &i) { i.increment(); }
  template <class I> static void decrement(I &i) { i.decrement(); }
  template <class I, class D> static void advance(I &i, D n) { i.advance(n); }
  template <class I> static bool equal(const I &a, const I &b) { return a.equal(b); }
  template <class I> static decltype(auto) dereference(const I &i) { return i.dereference(); }
};
template <class Derived, class T, class Category, class Reference = T &, class Distance = std::ptrdiff_t>
class iterator_facade {
public:
  typedef Category iterator_category;
  typedef typename std::remove_const<T>::type value_type;
  typedef Distance difference_type;
  typedef Reference reference;
  typedef typename std::add_pointer<typename std::remove_reference<Reference>::type>::type pointer;
  Derived &self() { return static_cast<Derived &>(*this); }
  const Derived &self() const { return static_cast<const Derived &>(*this); }
  Reference operator*() const { return iterator_core_access::dereference(self()); }
  pointer operator->() const { return std::addressof(iterator_core_access::dereference(self())); }
  Derived &operator++() { iterator_core_access::increment(self()); return self(); }
  Derived operator++(int) { Derived r(self()); ++*this; return r; }
  friend bool operator==(const Derived &a, const Derived &b) { return iterator_core_access::equal(a, b); }
  friend bool operator!=(const Derived &a, const Derived &b) { return !iterator_core_access::equal(a, b); }
};
using std::tuple;
using std::make_tuple;
using std::get;
using std::tie;
using std::forward_as_tuple;
template <class T> using function = std::function<T>;
template <class T> using function_nonser = std::function<T>;
template <class T> using unique_function = std::function<T>;
using std::bind;
namespace placeholders { using namespace std::placeholders; }
using std::to_string;
} // namespace util

// ---- localities, components, names ------------------------------------------
namespace components {
namespace detail_ {
struct Holder {
  int refs = 0;
  int loc = 0;
  int serial = 0;
  std::shared_ptr<void> p;
};
} // namespace detail_
}
class id_type {
public:
  detail::Ref<components::detail_::Holder> h;
  int loc = -1; // locality id when h is empty
  id_type() {}
  explicit id_type(int l) : loc(l) {}
  VRT_NS int locality() const { return h ? h->loc : loc; }
  VRT_NS int serial() const { return h ? h->serial : 0; }
  explicit operator bool() const { return h || loc >= 0; }
  friend bool operator==(const id_type &a, const id_type &b) { return a.locality() == b.locality() && a.serial() == b.serial(); }
  friend bool operator!=(const id_type &a, const id_type &b) { return !(a == b); }
  friend bool operator<(const id_type &a, const id_type &b) {
    return std::make_pair(a.locality(), a.serial()) < std::make_pair(b.locality(), b.serial());
  }
  friend std::ostream &operator<<(std::ostream &o, const id_type &i) {
    return o << "{0000000" << i.locality() + 1 << "00000000, 000000000000000" << i.serial() << "}";
  }
};
// observation points for the harness
struct Observer {
  std::function<void(int loc, const std::string &type)> created;
  std::function<void(int loc, const std::string &type, const std::vector<long> &args)> action;
};
Observer &observer();
std::map<std::string, id_type> &names();

inline id_type find_here() { return id_type(vrt::locality()); }
inline id_type find_root_locality() { return id_type(0); }
inline std::vector<id_type> find_all_localities() {
  std::vector<id_type> v;
  for (int i = 0; i < vrt::opt.localities; i++) v.push_back(id_type(i));
  // the calling locality is not necessarily first; HPX lists them by number
  return v;
}
inline std::vector<id_type> find_remote_localities() {
  std::vector<id_type> v;
  for (int i = 0; i < vrt::opt.localities; i++)
    if (i != vrt::locality()) v.push_back(id_type(i));
  return v;
}
inline std::uint32_t get_locality_id() { return (std::uint32_t)vrt::locality(); }
inline future<std::uint32_t> get_num_localities() { return make_ready_future((std::uint32_t)vrt::opt.localities); }
inline std::uint32_t get_initial_num_localities() { return (std::uint32_t)vrt::opt.localities; }
inline std::size_t get_os_thread_count() { return (std::size_t)vrt::opt.threads; }
inline std::size_t get_num_worker_threads() { return (std::size_t)vrt::opt.threads; }
namespace naming {
using hpx::id_type;
inline std::uint32_t get_locality_id_from_id(const id_type &i) { return (std::uint32_t)i.locality(); }
inline std::uint32_t get_locality_id_from_gid(const id_type &i) { return (std::uint32_t)i.locality(); }
} // namespace naming

int next_serial();
template <class T, class... A> id_type create_component(int loc, const A &... a) {
  id_type i;
  i.h = detail::Ref<components::detail_::Holder>(new components::detail_::Holder);
  i.h->loc = loc;
  i.h->serial = next_serial();
  i.h->p = std::make_shared<T>(a...);
  vrt::Quiet q;
  if (observer().created) observer().created(loc, typeid(T).name());
  return i;
}
template <class T> T *component_ptr(const id_type &i) { return static_cast<T *>(i.h->p.get()); }

namespace components {
template <class T> struct component_base {
  typedef T wrapped_type;
  id_type get_id() const { return id_type(vrt::locality()); }
};
template <class T> struct simple_component_base : component_base<T> {};
template <class T> struct locking_hook : T {};
template <class T> struct component { typedef T type; };
template <class T> struct simple_component { typedef T type; };
template <class T> class client {
  id_type id_;
public:
  typedef T server_component_type;
  client() {}
  explicit client(id_type i) : id_(i) {}
  client(future<id_type> &&f) : id_(f.get()) {}
  id_type get_id() const { return id_; }
  id_type const &get() const { return id_; }
  bool valid() const { return (bool)id_; }
  bool is_ready() const { return true; }
  void wait() const {}
  future<bool> register_as(const std::string &name, bool = true) {
    bool fresh;
    {
      vrt::Quiet q;
      fresh = names().emplace(name, id_).second;
    }
    return make_ready_future(fresh);
  }
  void connect_to(const std::string &name) {
    // resolves once the name is known
    vrt::wait([&name]() VRT_NS { return names().count(name) > 0; });
    vrt::Quiet q;
    id_ = names()[name];
  }
};
template <class T, class S = T> using client_base_t = client<T>;
} // namespace components

struct default_distribution_policy {
  std::vector<id_type> ids;
  default_distribution_policy operator()(const std::vector<id_type> &v) const { return {v}; }
  default_distribution_policy operator()(const id_type &v) const { return {{v}}; }
  std::vector<id_type> where() const { return ids.empty() ? std::vector<id_type>{find_here()} : ids; }
};
static const default_distribution_policy default_layout{};
typedef default_distribution_policy binpacking_distribution_policy;

namespace detail {
template <class X> struct New;
template <class T> struct New<components::client<T>> {
  template <class... A> static components::client<T> make(const id_type &i, A &&... a) {
    return components::client<T>(create_component<T>(i.locality(), std::forward<A>(a)...));
  }
  template <class... A> static components::client<T> make(const default_distribution_policy &p, A &&... a) {
    return components::client<T>(create_component<T>(p.where()[0].locality(), std::forward<A>(a)...));
  }
};
template <class T> struct New<components::client<T>[]> {
  template <class... A>
  static future<std::vector<components::client<T>>> make(const default_distribution_policy &p, std::size_t n, A &&... a) {
    auto w = p.where();
    std::vector<components::client<T>> v;
    for (std::size_t k = 0; k < w.size(); k++) {
      std::size_t c = n / w.size() + (k < n % w.size() ? 1 : 0);
      for (std::size_t q = 0; q < c; q++) v.push_back(components::client<T>(create_component<T>(w[k].locality(), a...)));
    }
    return make_ready_future(std::move(v));
  }
  template <class... A>
  static future<std::vector<components::client<T>>> make(const id_type &i, std::size_t n, A &&... a) {
    return make(default_distribution_policy{{i}}, n, std::forward<A>(a)...);
  }
};
template <class T> struct NewPlain {
  template <class... A> static future<id_type> make(const id_type &i, A &&... a) {
    return make_ready_future(create_component<T>(i.locality(), std::forward<A>(a)...));
  }
};
template <class X, class = void> struct Pick { typedef NewPlain<X> type; };
template <class T> struct Pick<components::client<T>> { typedef New<components::client<T>> type; };
template <class T> struct Pick<components::client<T>[]> { typedef New<components::client<T>[]> type; };
} // namespace detail
template <class X, class P, class... A> auto new_(const P &p, A &&... a) {
  return detail::Pick<X>::type::make(p, std::forward<A>(a)...);
}
template <class X, class... A> auto local_new(A &&... a) {
  return detail::Pick<X>::type::make(find_here(), std::forward<A>(a)...);
}

// ---- actions -------------------------------------------------------------------
namespace actions {
template <class F, F f> struct component_action;
template <class A> inline typename std::enable_if<std::is_integral<A>::value>::type note(std::vector<long> &v, const A &a) { v.push_back((long)a); }
template <class A> inline typename std::enable_if<!std::is_integral<A>::value>::type note(std::vector<long> &, const A &) {}
template <class C, class R, class... P, R (C::*f)(P...)> struct component_action<R (C::*)(P...), f> {
  typedef R result_type;
  typedef C component_type;
  static future<R> launch(const id_type &id, typename std::decay<P>::type... a) {
    auto args = detail::box(std::tuple<typename std::decay<P>::type...>(std::move(a)...));
    id_type keep = id;
    return spawn_future<R>([keep, args]() mutable { return call(keep, args->f, std::index_sequence_for<P...>()); },
                           id.locality());
  }
  template <class Tup, size_t... I> static R call(const id_type &id, Tup &t, std::index_sequence<I...>) {
    {
      vrt::Quiet q;
      if (observer().action) {
        std::vector<long> v;
        int x[] = {0, (note(v, std::get<I>(t)), 0)...};
        (void)x;
        observer().action(vrt::locality(), typeid(C).name(), v);
      }
    }
    return (component_ptr<C>(id)->*f)(std::move(std::get<I>(t))...);
  }
};
template <class C, class R, class... P, R (C::*f)(P...) const> struct component_action<R (C::*)(P...) const, f> {
  typedef R result_type;
  typedef C component_type;
  static future<R> launch(const id_type &id, typename std::decay<P>::type... a) {
    id_type keep = id;
    return spawn_future<R>([keep, a...]() mutable { return (component_ptr<C>(keep)->*f)(a...); }, id.locality());
  }
};
} // namespace actions

template <class Action, class... A> auto async(const id_type &id, A &&... a) -> future<typename Action::result_type> {
  return Action::launch(id, std::forward<A>(a)...);
}
template <class Action, class T, class... A>
auto async(const components::client<T> &c, A &&... a) -> future<typename Action::result_type> {
  return Action::launch(c.get_id(), std::forward<A>(a)...);
}
template <class Action, class... A> auto async(launch_t, const id_type &id, A &&... a) -> future<typename Action::result_type> {
  return Action::launch(id, std::forward<A>(a)...);
}
template <class Action, class... A,
          class = typename std::enable_if<!std::is_void<typename Action::component_type>::value>::type>
auto async(Action, const id_type &id, A &&... a) -> future<typename Action::result_type> {
  return Action::launch(id, std::forward<A>(a)...);
}
template <class Action, class... A> void apply(const id_type &id, A &&... a) { Action::launch(id, std::forward<A>(a)...); }
template <class F, class T, size_t... I> auto std_apply(F &f, T &t, std::index_sequence<I...>) { return f(std::move(std::get<I>(t))...); }
template <class F, class... A>
auto async(F f, A... a) -> future<decltype(f(std::move(a)...))> {
  typedef decltype(f(std::move(a)...)) R;
  auto t = detail::box(std::tuple<A...>(std::move(a)...));
  return spawn_future<R>([f, t]() mutable { return std_apply(f, t->f, std::index_sequence_for<A...>()); });
}
template <class F, class... A, class = decltype(std::declval<F>()(std::declval<A>()...))> void apply(F f, A... a) {
  async(std::move(f), std::move(a)...);
}
template <class F, class... A> auto async(launch_t, F f, A... a) { return async(std::move(f), std::move(a)...); }

// ---- parallel algorithms ----------------------------------------------------------
namespace parallel {
struct task_tag {};
static const task_tag task{};
struct sequenced_policy {
  template <class X> const sequenced_policy &with(X &&) const { return *this; }
  template <class X> const sequenced_policy &on(X &&) const { return *this; }
};
struct parallel_task_policy {
  template <class X> const parallel_task_policy &with(X &&) const { return *this; }
  template <class X> const parallel_task_policy &on(X &&) const { return *this; }
};
struct parallel_policy {
  parallel_task_policy operator()(task_tag) const { return {}; }
  template <class X> const parallel_policy &with(X &&) const { return *this; }
  template <class X> const parallel_policy &on(X &&) const { return *this; }
};
typedef sequenced_policy sequential_execution_policy;
typedef parallel_policy parallel_execution_policy;
typedef parallel_policy parallel_unsequenced_policy;
typedef parallel_policy parallel_vector_execution_policy;
static const sequenced_policy seq{};
static const parallel_policy par{};
static const parallel_policy par_vec{}, par_unseq{};
template <class P> struct is_par : std::false_type {};
template <> struct is_par<parallel_policy> : std::true_type {};
struct static_chunk_size { explicit static_chunk_size(std::size_t = 0) {} };
struct dynamic_chunk_size { explicit dynamic_chunk_size(std::size_t = 0) {} };
struct auto_chunk_size { auto_chunk_size() {} };
struct execution_policy { // type-erased, as in early HPX
  bool p;
  execution_policy(const sequenced_policy &) : p(false) {}
  execution_policy(const parallel_policy &) : p(true) {}
};
namespace execution {
using parallel::par; using parallel::seq; using parallel::par_unseq; using parallel::task;
using parallel::static_chunk_size; using parallel::dynamic_chunk_size; using parallel::auto_chunk_size;
using parallel::sequenced_policy; using parallel::parallel_policy;
}
namespace detail {
// Runs body(k) for k in 0..n-1: chunks of iterations are tasks.
template <class Body> void fan_out(std::size_t n, Body body) {
  std::size_t c = vrt::opt.chunk > 0 ? (std::size_t)vrt::opt.chunk : n;
  if (c == 0) return;
  if (vf_region) vf_region();
  std::vector<future<void>> fs;
  std::size_t m = (n + c - 1) / c;
  for (std::size_t q = 0; q < m; q++) {
    std::size_t k = vrt::opt.backwards ? m - 1 - q : q;
    std::size_t b = k * c, e = std::min(n, b + c);
    fs.push_back(spawn_future<void>(body(b, e)));
  }
  wait_all(fs);
  for (auto &f : fs) f.get();
}
template <class It, class F> void each_n(std::true_type, It it, std::size_t n, F f) {
  // start of every chunk, by stepping once through the range
  std::vector<It> starts;
  std::size_t c = vrt::opt.chunk > 0 ? (std::size_t)vrt::opt.chunk : n;
  It w = it;
  for (std::size_t k = 0; k < n; k++) {
    if (k % c == 0) starts.push_back(w);
    ++w; // the last step ends behind the range
  }
  fan_out(n, [&](std::size_t b, std::size_t e) {
    It s = starts[b / c];
    return [s, b, e, f]() mutable {
      for (std::size_t k = b; k < e; k++) {
        f(*s);
        ++s;
      }
    };
  });
}
template <class It, class F> void each_n(std::false_type, It it, std::size_t n, F f) {
  for (std::size_t k = 0; k < n; k++) {
    f(*it);
    ++it;
  }
}
template <class I, class F> void loop(std::true_type, I first, std::size_t n, long step, F f) {
  fan_out(n, [&](std::size_t b, std::size_t e) {
    return [first, b, e, f, step]() mutable {
      for (std::size_t k = b; k < e; k++) f(static_cast<I>(first + static_cast<I>((long)k * step)));
    };
  });
}
template <class I, class F> void loop(std::false_type, I first, std::size_t n, long step, F f) {
  for (std::size_t k = 0; k < n; k++) f(static_cast<I>(first + static_cast<I>((long)k * step)));
}
} // namespace detail
template <class P, class It, class N, class F> It for_each_n(const P &, It it, N n, F f) {
  if (n > N(0)) detail::each_n(is_par<P>(), it, (std::size_t)n, f);
  return it;
}
template <class It, class N, class F> It for_each_n(const execution_policy &p, It it, N n, F f) {
  if (n > N(0)) {
    if (p.p) detail::each_n(std::true_type(), it, (std::size_t)n, f);
    else detail::each_n(std::false_type(), it, (std::size_t)n, f);
  }
  return it;
}
template <class P, class It, class F> It for_each(const P &, It b, It e, F f) {
  std::size_t n = 0;
  for (It x = b; x != e; ++x) n++;
  if (n) detail::each_n(is_par<P>(), b, n, f);
  return e;
}
template <class P, class I, class F>
typename std::enable_if<std::is_integral<I>::value>::type for_loop(const P &, I first, typename std::common_type<I>::type last, F f) {
  if (first < last) detail::loop(is_par<P>(), first, (std::size_t)(last - first), 1, f);
}
template <class P, class I, class S, class F>
typename std::enable_if<std::is_integral<I>::value>::type
for_loop_strided(const P &, I first, typename std::common_type<I>::type last, S step, F f) {
  if (first < last) detail::loop(is_par<P>(), first, (std::size_t)((last - first + (I)step - 1) / (I)step), (long)step, f);
}
template <class I, class N, class F> void for_loop_n(const sequenced_policy &, I first, N n, F f) { detail::loop(std::false_type(), first, (std::size_t)n, 1, f); }
template <class I, class N, class F> void for_loop_n(const parallel_policy &, I first, N n, F f) { detail::loop(std::true_type(), first, (std::size_t)n, 1, f); }
// with the task policy: the whole algorithm is a task of its own
template <class It, class N, class F> future<It> for_each_n(const parallel_task_policy &, It it, N n, F f) {
  return spawn_future<It>([it, n, f]() { return for_each_n(parallel_policy(), it, n, f); });
}
template <class It, class F> future<It> for_each(const parallel_task_policy &, It b, It e, F f) {
  return spawn_future<It>([b, e, f]() { return for_each(parallel_policy(), b, e, f); });
}
template <class I, class F> future<void> for_loop(const parallel_task_policy &, I b, typename std::common_type<I>::type e, F f) {
  return spawn_future<void>([b, e, f]() { for_loop(parallel_policy(), b, e, f); });
}
template <class P, class I, class F>
typename std::enable_if<!std::is_integral<I>::value && !std::is_same<P, parallel_task_policy>::value>::type
for_loop(const P &, I first, typename std::common_type<I>::type last, F f) {
  // over iterators: the body gets the iterator
  detail::loop(is_par<P>(), std::size_t(0), (std::size_t)std::distance(first, last), 1,
               [first, f](std::size_t k) mutable { f(std::next(first, (std::ptrdiff_t)k)); });
}
template <class P, class It, class Out, class F> Out transform(const P &, It b, It e, Out o, F f) {
  detail::loop(is_par<P>(), std::size_t(0), (std::size_t)std::distance(b, e), 1,
               [b, o, f](std::size_t k) mutable { *std::next(o, (std::ptrdiff_t)k) = f(*std::next(b, (std::ptrdiff_t)k)); });
  return std::next(o, std::distance(b, e));
}
template <class P, class It, class T> void fill(const P &, It b, It e, const T &v) {
  detail::loop(is_par<P>(), std::size_t(0), (std::size_t)std::distance(b, e), 1,
               [b, v](std::size_t k) mutable { *std::next(b, (std::ptrdiff_t)k) = v; });
}
template <class P, class It, class Out> Out copy(const P &p, It b, It e, Out o) {
  typedef typename std::iterator_traits<It>::reference Ref;
  return transform(p, b, e, o, [](Ref x) -> Ref { return x; });
}
inline namespace v1 {
using parallel::for_each; using parallel::for_each_n;
}
namespace v2 { using parallel::for_loop; using parallel::for_loop_n; using parallel::for_loop_strided; }
} // namespace parallel

// ---- output, start-up --------------------------------------------------------------
extern std::ostream &cout_ref();
class ostream_proxy : public std::ostream {
public:
  ostream_proxy();
};
extern ostream_proxy cout, cerr;
inline std::ostream &flush(std::ostream &o) { return o.flush(); }
inline std::ostream &endl(std::ostream &o) { return o << std::endl; }
inline std::ostream &async_flush(std::ostream &o) { return o.flush(); }

int init(boost::program_options::options_description const &desc, int argc, char **argv);
int init(int argc, char **argv);
inline int start(int, char **) { return 0; }
inline int finalize() { return 0; }
inline int stop() { return 0; }
inline int disconnect() { return 0; }
} // namespace hpx

#define HPX_PP_PICK3(_1, _2, _3, N, ...) N
#define HPX_DEFINE_COMPONENT_ACTION3(C, F, A) struct A : hpx::actions::component_action<decltype(&C::F), &C::F> {}
#define HPX_DEFINE_COMPONENT_ACTION2(C, F) HPX_DEFINE_COMPONENT_ACTION3(C, F, F##_action)
#define HPX_DEFINE_COMPONENT_ACTION(...) HPX_PP_PICK3(__VA_ARGS__, HPX_DEFINE_COMPONENT_ACTION3, HPX_DEFINE_COMPONENT_ACTION2)(__VA_ARGS__)
#define HPX_DEFINE_COMPONENT_DIRECT_ACTION(...) HPX_DEFINE_COMPONENT_ACTION(__VA_ARGS__)
#define HPX_REGISTER_COMPONENT(...) struct hpx_unused_decl
#define HPX_REGISTER_MINIMAL_COMPONENT_FACTORY(...) struct hpx_unused_decl
#define HPX_REGISTER_COMPONENT_MODULE() struct hpx_unused_decl
#define HPX_REGISTER_ACTION(...) struct hpx_unused_decl
#define HPX_REGISTER_ACTION_DECLARATION(...) struct hpx_unused_decl
#define HPX_ASSERT(x) ((void)0)
