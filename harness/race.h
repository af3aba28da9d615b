// Watches the memory accesses of the members of OpenMP teams.  The code under
// test is compiled with the compiler's access instrumentation
// (-fsanitize=thread), whose entry points race.cpp provides; no ThreadSanitizer
// runtime is linked.  race.cpp itself is compiled without instrumentation.
#pragma once
#include <functional>
#include <string>
namespace race
{
struct Report {
  std::string conflict;  // empty: none
  unsigned long regions = 0, accesses = 0, decisions = 0;
  int largest = 0;  // team
};
// pick(n): which of n members goes on; grant(n): how many members a team gets
void start(std::function<int(int)> pick, std::function<int(int)> grant);
Report stop();
}
