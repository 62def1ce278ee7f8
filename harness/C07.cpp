// C07: stop requests are never lost, running state is truthful, runs can follow each other.
#include "sim.hpp"
#include <atomic>
#include <thread>
using namespace sim;

namespace
{
struct World
{
    std::shared_ptr<Slave> sl;
    std::shared_ptr<fixed_step_algorithm> algo;
    std::unique_ptr<execution> exe;
    std::atomic<int> begun{0}, completed{0}; // steps
    bool failNext = false;
    explicit World(unsigned workers = 0)
    {
        quiet_logs();
        algo = std::make_shared<fixed_step_algorithm>(duration(10), workers);
        exe = std::make_unique<execution>(tp(0), algo);
        sl = make_slave(0, {T_REAL});
        sl->keepLog = false;
        sl->hook = [this](Slave&, char op) {
            if (op == 'D') {
                begun.fetch_add(1);
                std::this_thread::yield(); // steps take time: let others run, so that runs without end are fair
                if (failNext) throw failing_slave("boom");
            }
        };
        exe->add_slave(sl, "s");
        auto o = std::make_shared<Obs>();
        o->onStep = [this](step_number, duration, time_point) { completed.fetch_add(1); };
        exe->add_observer(o);
    }
    long long now() { return ns(exe->current_time()); }
};

// A run without end must be ended by a stop request at any moment, and take at most one more step after it.
void stop_async(int runs)
{
    World w;
    for (int r = 0; r < runs; ++r) {
        auto f = w.exe->simulate_until_async(std::nullopt);
        const int waitFor = mc::choose(2, "let a step begin before stopping");
        const int base = w.completed.load();
        if (waitFor)
            while (w.begun.load() <= base) std::this_thread::yield();
        mc::check(w.exe->is_running(), "a requested run that was not stopped is reported as not running");
        const int b = w.begun.load();
        w.exe->stop_simulation();
        const int after = w.begun.load();
        const bool reached = f.get();
        mc::check(!reached, "a run without end time reports having reached it");
        mc::check(w.begun.load() <= after + 1, mc::Str() << w.begun.load() - after << " steps were begun after the stop request");
        mc::check(!w.exe->is_running(), "reported as running after the run has ended");
        mc::check(w.now() == 10 * w.completed.load(), "time does not match the steps completed");
        (void)b;
        mc::outcome(std::to_string(w.completed.load() - base));
    }
    // a stop request issued while nothing runs does not affect the next run
    w.exe->stop_simulation();
    const int c = w.completed.load();
    mc::check(w.exe->simulate_until(w.exe->current_time() + duration(20)), "an old stop request affected a later run");
    mc::check(w.completed.load() == c + 2, "an old stop request shortened a later run");
}

// Runs with an end time and a stop request racing with their end.
void stop_vs_end()
{
    World w;
    auto f = w.exe->simulate_until_async(tp(20));
    w.exe->stop_simulation();
    const bool reached = f.get();
    mc::check(reached == (w.now() >= 20), mc::Str() << "run reports " << (reached ? "end reached" : "stopped") << " at time " << w.now());
    mc::check(!w.exe->is_running(), "running after the end");
    // the request (whenever it came) does not affect the next run
    auto g = w.exe->simulate_until_async(w.exe->current_time() + duration(20));
    mc::check(g.get(), "a stop request for an earlier run stopped a later one");
    mc::outcome(std::to_string(w.completed.load()));
}

// While a run is in progress, is_running is true until the loop has ended.
void state_during_run()
{
    World w;
    mc::check(!w.exe->is_running(), "running before anything was requested");
    const int how = mc::choose(3, "ending: end time, stop, failure");
    if (how == 2) w.failNext = true;
    auto f = w.exe->simulate_until_async(how == 1 ? std::optional<time_point>() : tp(10));
    if (how == 1) w.exe->stop_simulation();
    const bool r = w.exe->is_running();
    // if it says "not running", no step may begin or be in progress any more
    const int b = w.begun.load();
    if (!r) {
        mc::check(b >= 1, "reported as not running although the requested run has not begun");
        mc::check(how == 2 || w.completed.load() == b, "reported as not running in the middle of a step");
    }
    bool threw = false;
    try {
        f.get();
    } catch (const std::exception&) {
        threw = true;
    }
    if (!r) mc::check(w.begun.load() == b, "steps begun although reported as not running");
    mc::check(threw == (how == 2), "failure not reported");
    mc::check(!w.exe->is_running(), "running after the run has ended");
    mc::outcome(r ? "running" : "ended");
}

// Synchronous run stopped from another thread, followed by another run.
void stop_sync()
{
    World w;
    std::thread t([&] {
        while (w.begun.load() < 1) std::this_thread::yield();
        mc::check(w.exe->is_running() , "a run in progress is reported as not running");
        w.exe->stop_simulation();
    });
    const bool r = w.exe->simulate_until(std::nullopt);
    t.join();
    mc::check(!r && !w.exe->is_running(), "wrong state after stop");
    const int c = w.completed.load();
    const long long t0 = w.now();
    mc::check(t0 == 10 * c, "time does not match the steps completed");
    mc::check(w.exe->simulate_until(tp(t0 + 10)), "second run did not reach its end");
    mc::check(w.completed.load() == c + 1 && w.now() == t0 + 10, "second run did not continue from the current time");
    mc::outcome(std::to_string(c));
}

// Sequences of runs of all kinds from one thread.
void histories(int depth)
{
    World w;
    bool failed = false;
    long long t = 0;
    for (int d = 0; d < depth; ++d) {
        switch (mc::choose(6, "operation")) {
            case 0: {
                if (failed) { mc::check(!completes([&] { w.exe->step(); }), "continued after failure"); break; }
                w.exe->step();
                t += 10;
                break;
            }
            case 1:
            case 2: {
                const bool async = mc::choose(2, "async");
                bool ok = completes([&] {
                    const bool r = async ? w.exe->simulate_until_async(tp(t + 20)).get() : w.exe->simulate_until(tp(t + 20));
                    mc::check(r, "run reports it was stopped");
                });
                mc::check(ok == !failed && true, "run after a failure succeeded, or run failed");
                if (ok) t += 20;
                break;
            }
            case 3: {
                auto f = w.exe->simulate_until_async(std::nullopt);
                w.exe->stop_simulation();
                bool ok = completes([&] { mc::check(!f.get(), "endless run reports its end reached"); });
                mc::check(ok == !failed, "run after a failure succeeded, or run failed");
                t = w.now();
                break;
            }
            case 4: w.exe->stop_simulation(); break;
            case 5: {
                if (failed) mc::discard();
                w.failNext = true;
                auto f = w.exe->simulate_until_async(tp(t + 10));
                mc::check(!completes([&] { f.get(); }), "failure not reported");
                failed = true;
                break;
            }
        }
        mc::check(!w.exe->is_running(), "running although no run is in progress");
        mc::check(w.now() == t && t == 10 * w.completed.load(), mc::Str() << "time " << w.now() << " instead of " << t);
    }
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C07";
    s.assumptions = {"sequentially consistent interleavings; mock slave"};
    const bool t = mc::thorough();
    auto add = [&](const char* n, std::function<void()> f, int bound) {
        auto& x = s.add(n, f);
        x.sched = true;
        x.bound = bound;
    };
    add("stop_async", [] { stop_async(1); }, t ? 9 : 6);
    add("stop_async_twice", [] { stop_async(2); }, t ? 6 : 4);
    add("stop_vs_end", stop_vs_end, t ? 9 : 6);
    add("state_during_run", state_during_run, t ? 9 : 6);
    add("stop_sync", stop_sync, t ? 9 : 6);
    add("histories", [t] { histories(t ? 5 : 4); }, t ? 2 : 1);
}
