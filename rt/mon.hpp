// What the monitor (tsan.cpp) collects.
#pragma once
#include <cstddef>
#include <cstdint>
#include <utility>
#include <vector>
namespace mon {
struct Item {
  char kind; // s: accesses of a stretch, r: release, a: acquire
  int task = 0, obj = 0;
  std::vector<std::pair<uintptr_t, uintptr_t>> r, w;
};
extern bool on, record;
extern std::vector<Item> items;
void start();
void stop();
void mem(const void *p, size_t n, bool write);
} // namespace mon
