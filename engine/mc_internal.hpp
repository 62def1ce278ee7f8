// Interface between the driver (mc_core.cpp) and the controlled scheduler (mc_sched.cpp).
#pragma once
#include "mc.hpp"
namespace mc::detail
{
int choose_raw(int n, const char* label);      // records/replays a choice
bool in_replay_prefix();                       // next choice is still given by the prefix
bool branching();                              // false once this execution was pruned
bool cache_seen(std::uint64_t key, int budget); // shared visited table (true: already explored)
void count_state();
int current_bound();
const Scenario& scenario();
[[noreturn]] void end_execution_fail(const std::string& msg);
extern std::uint64_t g_transitions;

// provided by mc_sched.cpp (weak in mc_core.cpp)
void sched_begin();
void sched_end();
bool sched_active();
void sched_mix(std::uint64_t v);   // data choice made by current thread
} // namespace mc::detail
