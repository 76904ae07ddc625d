#pragma once
// Controlled scheduler and happens-before race detector. The code under test is compiled with
// -fsanitize=thread but linked against harness/race_rt.cc instead of libtsan, so that every memory
// access, atomic operation and mutex operation of the real code is seen. Threads run one at a time;
// a context switch may happen at every atomic and mutex operation (and race::Yield); which thread
// goes on is drawn from mc::Choices, so all schedules within the preemption bound are explored, and
// in each of them every pair of conflicting plain accesses must be ordered by synchronisation.
#include <functional>
#include <string>
#include <vector>
#include "mc.h"
namespace race {
struct Report { std::vector<std::string> races; uint64_t points = 0, switches = 0, accesses = 0; };
// Runs the bodies to completion under one schedule.
Report Run(mc::Choices& c, const std::vector<std::function<void()>>& bodies, int preemption_bound);
void Yield();
}  // namespace race
