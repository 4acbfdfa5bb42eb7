// Counts the basic blocks that instrumented code (-fsanitize-coverage=trace-pc) executes: the simulator's clock for work.
namespace sim { long work_steps = 0; }
extern "C" void __sanitizer_cov_trace_pc() { ++sim::work_steps; }
#include "work_limits.hpp"
