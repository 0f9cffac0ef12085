// Simulated threads: real threads, of which exactly one runs at a time. At every allocation, release, QP and contended lock the
// seeded scheduler may hand the processor to another thread.
#pragma once
#include "core.h"
#include <functional>
#include <vector>

namespace sim
{
namespace thr
{
struct Policy
{
  uint64_t seed = 1;
  double p_switch = 0.01;  // chance of a switch at each point where one is possible
  int stalled = -1;        // a thread left waiting...
  long stall_from = 0, stall_len = 0;  // ...between these points (unless it is the only one left)
};
struct Result
{
  long points = 0, switches = 0;
  bool stalled = false;  // the stall mattered
  uint64_t trace = 1469598103934665603ull;
};
Result run(const std::vector<std::function<void()>>& jobs, const Policy& p);
}  // namespace thr
}  // namespace sim
