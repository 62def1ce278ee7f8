// C08: running until a time performs exactly the steps needed, and runs may be split in any way.
#include "sim.hpp"
using namespace sim;

namespace
{
struct Sys
{
    std::shared_ptr<fixed_step_algorithm> algo;
    std::unique_ptr<execution> exe;
    std::vector<std::shared_ptr<Slave>> sl;
    std::shared_ptr<Fun> fun;
    std::vector<std::string> events;
    long steps = 0;
    long stopAfter = -1; // stop from within the notification of this step
    Sys(long long start, long long base, std::vector<int> factors, bool wired = true)
    {
        quiet_logs();
        algo = std::make_shared<fixed_step_algorithm>(duration(base), 0u);
        exe = std::make_unique<execution>(tp(start), algo);
        for (std::size_t i = 0; i < factors.size(); ++i) {
            auto s = make_slave((int)i, {T_REAL});
            s->out = [](const Slave& x, int type, unsigned) { return x.val[type][1] * 3 % 1009 + x.id * 100 + x.steps; };
            sl.push_back(s);
            exe->add_slave(s, "s" + std::to_string(i));
            algo->set_stepsize_decimation_factor((int)i, factors[i]);
        }
        if (wired && sl.size() > 1) {
            exe->connect_variables(variable_id{0, T_REAL, 0}, variable_id{1, T_REAL, 1});
            fun = std::make_shared<Fun>();
            auto f = exe->add_function(fun);
            exe->connect_variables(variable_id{1, T_REAL, 0}, function_io_id{f, T_REAL, Fun::in_ref(T_REAL)});
            exe->connect_variables(function_io_id{f, T_REAL, Fun::out_ref(T_REAL)}, variable_id{0, T_REAL, 1});
        }
        auto o = std::make_shared<Obs>();
        o->onStep = [this](step_number, duration, time_point) {
            if (++steps == stopAfter) exe->stop_simulation();
        };
        o->on = [this](const std::string& e) { events.push_back(e); };
        exe->add_observer(o);
    }
    std::string trace()
    {
        std::string t;
        for (auto& e : events) t += e + " ";
        for (auto& s : sl) t += "\n" + log_str(s->log);
        return t;
    }
    long long now() { return ns(exe->current_time()); }
};

bool until(Sys& s, long long t, bool async)
{
    return async ? s.exe->simulate_until_async(tp(t)).get() : s.exe->simulate_until(tp(t));
}

// one run to a target anywhere, after some steps
void target()
{
    static const std::vector<long long> starts{0, 7, -1005, 1000000000ll * 86400 * 365 * 30}; // incl. 30 years
    static const std::vector<long long> bases{1, 7, 100, 1000, 1000000, 333333333, 3600000000000ll};
    const long long start = mc::pick(starts, "start time"), base = mc::pick(bases, "base step");
    Sys s(start, base, {1}, false);
    const int before = mc::choose(3, "steps before");
    for (int i = 0; i < before; ++i) s.exe->step();
    const int whole = mc::choose(4, "whole steps ahead");
    // fraction of a step beyond that, in 1/1000 of a step
    static const std::vector<int> fr{0, 1, 5, 9, 11, 15, 100, 250, 500, 750, 900, 985, 989, 995, 999};
    const int f = mc::pick(fr, "fraction");
    const long long residual = base >= 1000 ? base / 1000 * f : base * f / 1000;
    if (base < 1000 && residual * 1000 != base * f) mc::discard();
    if (whole == 0 && residual == 0) mc::discard();
    long long expect = whole;
    if (residual * 100 >= base) ++expect;       // not within a hundredth of a step
    if (expect == 0) expect = 1;                // a run always makes a step
    const long long t0 = start + before * base;
    const bool r = until(s, t0 + whole * base + residual, mc::choose(2, "async"));
    mc::check(r, "run reports that it was stopped");
    mc::check(s.now() == t0 + expect * base, mc::Str() << "start " << start << " base " << base << " target +" << whole << " steps +" << residual << "ns: " << (s.now() - t0) / base << " steps instead of " << expect);
    mc::check(s.steps == before + expect && (long)s.sl[0]->steps == before + expect, "number of steps differs from the time passed");
    mc::outcome(std::to_string(expect));
    // and on from there
    const long long t1 = s.now();
    mc::check(until(s, t1 + 2 * base, false) && s.now() == t1 + 2 * base, "a following run does not end at its target");
}

// every way of dividing n steps into runs and single steps
void split(int n)
{
    static const std::vector<std::vector<int>> rates{{1}, {1, 2}, {3, 1}, {2, 3}};
    const auto& f = mc::pick(rates, "rates");
    static const std::vector<std::pair<long long, long long>> grid{{0, 1000}, {-500, 1000}, {12345, 777000}};
    const auto [start, base] = mc::pick(grid, "start and base step");
    Sys ref(start, base, f);
    mc::check(until(ref, start + n * base, false), "run reports that it was stopped");
    mc::check(ref.now() == start + n * base, "run does not end at its target");
    Sys s(start, base, f);
    int done = 0;
    std::string how;
    while (done < n) {
        const int kind = mc::choose(6, "kind of run");
        const int k = kind == 0 ? 1 : 1 + mc::choose(n - done, "number of steps");
        const long long t = s.now();
        switch (kind) {
            case 0: mc::check(s.exe->step() == duration(base), "step() returned something else than the step size"); break;
            case 1: mc::check(until(s, t + k * base, false), "run reports that it was stopped"); break;
            case 2: mc::check(until(s, t + k * base, true), "run reports that it was stopped"); break;
            case 3: mc::check(until(s, t + k * base - base / 3, false), "run reports that it was stopped"); break; // between steps
            case 4: mc::check(until(s, t + k * base + base / 125, true), "run reports that it was stopped"); break;    // just after
            case 5: // stopped before its end
                s.stopAfter = s.steps + k;
                mc::check(!s.exe->simulate_until(mc::choose(2, "with end time") ? std::optional<time_point>(tp(t + (k + 5) * base)) : std::nullopt), "a stopped run reports that it reached its end");
                break;
        }
        how += mc::Str() << kind << ":" << k << " ";
        done += k;
        mc::check(s.now() == start + done * base, mc::Str() << "after " << how << ": time " << s.now() << " instead of " << start + done * base);
    }
    if (s.trace() != ref.trace()) mc::fail("splitting " + how + " gives\n" + s.trace() + "\nand one run gives\n" + ref.trace());
    mc::outcome(how.substr(0, 8));
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C08";
    s.assumptions = {"fixed-step algorithm; mock slaves; wall-clock pacing off"};
    const bool t = mc::thorough();
    s.add("target", target);
    s.add("split", [t] { split(t ? 7 : 5); });
}
