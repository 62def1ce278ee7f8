// mc: a small bounded-exhaustive exploration engine.
//
// A *scenario body* is executed once per path through its choice tree.  Choices come from mc::choose()
// (data choices: operations, arguments, injected faults) and - when the binary is linked with
// mc_sched.cpp - from the controlled scheduler (which thread runs next).  The driver enumerates the
// complete tree (up to the stated bounds) on several worker processes, replays every failing path before
// reporting it, and writes the evidence file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc
{
/// Explore both/all branches: returns each of 0..n-1 on some execution.
int choose(int n, const char* label = nullptr);

/// Property violated on this execution. Does not return.
[[noreturn]] void fail(const std::string& msg);

/// A violation which may be listed in known_findings.txt under `key`; returns if it is, fails otherwise.
void fail_or_known(const std::string& key, const std::string& msg);

/// The execution explored something outside the stated space; end it without verdict (counted as pruned).
[[noreturn]] void discard();

inline void check(bool ok, const char* msg) { if (!ok) fail(msg); }
inline void check(bool ok, const std::string& msg) { if (!ok) fail(msg); }

/// Records an observable outcome of this execution (distinct outcomes are counted).
void outcome(const std::string& s);
void outcome_hash(std::uint64_t h);

/// Adds a line to the execution's trace (kept only in replays and samples).
void note(const std::string& s);
bool tracing();

/// Counts operations performed against the implementation.
void transition(std::uint64_t n = 1);

/// Sequential search: call when a state is reached, with a canonical hash of *everything* the future can
/// depend on and the remaining depth. Returns false if the same state was already reached with at least
/// as much remaining depth, in which case the body should return.
bool visit(std::uint64_t canonicalHash, int remainingDepth);

/// Stops branching for the rest of this execution (used after a successful prune).
void no_more_branching();

bool thorough();   // VERIF_TIER=thorough
std::uint64_t seed();
/// A scratch directory of this process, emptied by clear_scratch().
const std::string& scratch();
void clear_scratch();

struct Scenario
{
    std::string name;
    std::function<void()> body;
    int bound = 0;            // preemption/deviation bound (scheduler only)
    double budget_s = 600;    // stop deepening after this long (completed bounds are reported)
    bool sched = false;       // run under the controlled scheduler
    bool spurious = false;    // explore spurious condition variable wake-ups (cost 1 each)
    bool unlock_points = false; // make unlocks scheduling points too (needed with try_lock)
    bool refcount_points = false; // make shared_ptr reference counting a scheduling point
    bool fs_points = false;   // make file system calls scheduling points
    bool time_jumps = false;  // allow sleepers to be woken early relative to others (cost 1)
    bool races = true;        // data race detection
    bool caching = true;      // happens-before state caching
    int workers = 0;          // 0: number of cores
    int max_steps = 200000;   // horizon per execution
};

/// Implemented by each harness: returns the property id it decides and adds its scenarios.
struct Suite
{
    std::string property;
    std::string level = "model_checking";
    std::vector<Scenario> scenarios;
    std::vector<std::string> assumptions;
    std::string rule;
    Scenario& add(const std::string& name, std::function<void()> body)
    {
        scenarios.emplace_back();
        scenarios.back().name = name;
        scenarios.back().body = std::move(body);
        return scenarios.back();
    }
};

// --- convenience -------------------------------------------------------------------------------------
template<typename T>
const T& pick(const std::vector<T>& v, const char* label = nullptr) { return v[choose((int)v.size(), label)]; }

struct Str
{
    std::ostringstream s;
    template<typename T> Str& operator<<(const T& t) { s << t; return *this; }
    operator std::string() const { return s.str(); }
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
inline std::uint64_t hash_str(const std::string& s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h, s.size());
}

// --- scheduler API (no-ops in sequential builds) --------------------------------------------------------
/// Threads created from now on by this thread (and this thread itself) belong to simulated process `p`.
void set_process(int p);
int thread_id();
/// Scheduling point: something another thread might observe happens here.
void point();
/// A totally ordered event: returns an increasing number. The order of stamps is part of what is explored.
long stamp();
/// While quiet, the scheduler follows its default schedule without branching.
void quiet(bool q);
/// From now on the scheduler is quiet except between the a'th and b'th call of point() after this one.
void window(long a, long b);
/// Number of calls of point() in this execution.
long points();
/// Virtual time in nanoseconds (scheduler builds).
std::int64_t virtual_now();

} // namespace mc

/// Each harness implements this.
void mc_register(mc::Suite& suite);
