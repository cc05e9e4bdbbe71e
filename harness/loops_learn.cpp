// The loop nest of the learning example, behind a function.
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#define main learn_main
#include VF_LEARN
#undef main
void learn_point(const long *p, size_t n);
template <size_t D, class T> void go(long lo, long hi) {
  Looper<D, T> l((T)lo, (T)hi);
  l.iterate_simple([](auto... x) {
    long p[] = {(long)x...};
    learn_point(p, sizeof...(x));
  });
}
template <class T> void god(size_t dim, long lo, long hi) {
  switch (dim) {
  case 1: return go<1, T>(lo, hi);
  case 2: return go<2, T>(lo, hi);
  case 3: return go<3, T>(lo, hi);
  case 4: return go<4, T>(lo, hi);
  case 5: return go<5, T>(lo, hi);
  case 6: return go<6, T>(lo, hi);
  }
  abort();
}
bool learn_run(size_t dim, const std::string &t, long lo, long hi) {
  if (t == "size") god<size_t>(dim, lo, hi);
  else if (t == "int") god<int>(dim, lo, hi);
  else if (t == "long") god<long>(dim, lo, hi);
  else if (t == "short") god<short>(dim, lo, hi);
  else god<unsigned>(dim, lo, hi);
  return true;
}
