// Simulated threads: fibers that are preempted at memory accesses of instrumented code, as the plan says.
#pragma once
#include "core.hpp"
namespace sim { namespace fib {
const int MAX = 4;
void run(int n, const std::function<void(int)>& body, const std::vector<long>& sched); // entry of sched: accesses to go * 8 + fiber
void share(const void* p, size_t n);   // memory whose accesses are preemption points, besides the arena and static data
void note(int op);                     // the running fiber begins operation op
int self();                            // running fiber, -1 outside
struct Counters { long switches = 0, accesses = 0, cells = 0, guards = 0; };
extern Counters N;
void account();                        // adds the counters to the statistics
} }
