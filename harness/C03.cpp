// C03: each simulator is stepped at its own rate, over contiguous intervals.
#include "sim.hpp"

#include "cosim/slave_simulator.hpp"

#include <algorithm>
#include <set>

using namespace sim;

namespace
{
int expected_factor(long long base, long long hint)
{
    if (hint == 0) return 1;
    return (int)std::max<long long>(1, hint / base);
}

struct Plan
{
    long long base, start;
    std::vector<int> factors; // effective factors
    int steps;
};

// checks the log of one slave: exactly the steps of length f*base at multiples of f
void check_log(const Plan& p, int i, const Slave& s, int stepsDone)
{
    std::vector<std::pair<long long, long long>> got, want;
    for (auto& c : s.log)
        if (c.op == 'D') got.emplace_back(c.t, c.dt);
    for (int k = 0; k < stepsDone; k += p.factors[i]) want.emplace_back(p.start + k * p.base, p.base * p.factors[i]);
    if (got != want) {
        mc::Str m;
        m << "simulator " << i << " with factor " << p.factors[i] << " after " << stepsDone << " steps of " << p.base << " from " << p.start << " was stepped:";
        for (auto& g : got) m << " " << g.first << "+" << g.second;
        mc::fail(m);
    }
}

void through_execution(int maxSims, int steps)
{
    quiet_logs();
    static const std::vector<long long> bases{1, 10, 100'000'000, 333'333'333};
    static const std::vector<long long> starts{0, 5, -1'000'000'007};
    Plan p;
    p.base = mc::pick(bases, "base");
    p.start = mc::pick(starts, "start");
    const int n = 1 + mc::choose(maxSims, "sims");
    auto algo = std::make_shared<fixed_step_algorithm>(duration(p.base), 0u);
    execution exe(tp(p.start), algo);
    std::vector<std::shared_ptr<Slave>> sl;
    // hints relative to the base step: none, smaller, equal, not a multiple, multiples
    static const std::vector<std::pair<int, int>> hints{{0, 1}, {1, 2}, {1, 1}, {5, 2}, {2, 1}, {3, 1}, {4, 1}, {6, 1}};
    for (int i = 0; i < n; ++i) {
        auto h = mc::pick(hints, "hint");
        const long long hint = p.base * h.first / h.second;
        sl.push_back(make_slave(i, {T_REAL}));
        auto idx = exe.add_slave(sl.back(), "s" + std::to_string(i), duration(hint));
        mc::check(idx == i, "indices are not consecutive");
        int f = expected_factor(p.base, hint);
        if (mc::choose(2, "explicit factor")) {
            f = 1 + mc::choose(4, "factor");
            algo->set_stepsize_decimation_factor(idx, f);
        }
        p.factors.push_back(f);
    }
    std::set<int> finished;
    auto obs = std::make_shared<Obs>();
    obs->onSimStep = [&](simulator_index i, step_number k, duration, time_point) {
        if (!finished.insert(i).second) mc::fail(mc::Str() << "simulator " << i << " reported finished twice in step " << k);
    };
    exe.add_observer(obs);
    for (int k = 0; k < steps; ++k) {
        finished.clear();
        const auto d = exe.step();
        mc::check(d.count() == p.base, "step returned something other than the base step size");
        mc::check(ns(exe.current_time()) == p.start + (k + 1) * p.base, mc::Str() << "time after " << k + 1 << " steps is " << ns(exe.current_time()));
        for (int i = 0; i < n; ++i) {
            check_log(p, i, *sl[i], k + 1);
            const bool ends = (k + 1) % p.factors[i] == 0;
            mc::check(ends == (finished.count(i) == 1), mc::Str() << "simulator " << i << " with factor " << p.factors[i] << (ends ? " not reported" : " reported") << " finished in step " << k + 1);
        }
        mc::transition();
    }
    mc::outcome(std::to_string(n) + ":" + std::to_string(p.base));
}

// The algorithm alone: factors change at times that are multiples of the old and the new factor, simulators are removed.
void algorithm_alone(int steps, int changes)
{
    quiet_logs();
    const long long base = 7, start = 100;
    const int n = 2;
    fixed_step_algorithm algo(duration(base), 0u);
    std::vector<std::shared_ptr<Slave>> sl;
    std::vector<std::unique_ptr<slave_simulator>> ss;
    std::vector<int> f(n, 1), left(n, 0);
    std::vector<bool> present(n, true);
    std::vector<std::vector<std::pair<long long, long long>>> want(n);
    algo.setup(tp(start), std::nullopt);
    for (int i = 0; i < n; ++i) {
        sl.push_back(make_slave(i, {T_REAL}));
        ss.push_back(std::make_unique<slave_simulator>(sl.back(), "s" + std::to_string(i)));
        algo.add_simulator(i, ss.back().get(), duration(0));
        f[i] = 1 + mc::choose(3, "factor");
        algo.set_stepsize_decimation_factor(i, f[i]);
    }
    algo.initialize();
    for (int k = 0; k < steps; ++k) {
        if (changes > 0) {
            switch (mc::choose(3, "change")) {
                case 1: {
                    const int i = mc::choose(n, "which"), nf = 1 + mc::choose(4, "new factor");
                    if (!present[i] || nf == f[i] || k % nf != 0 || left[i] != 0) mc::discard();
                    algo.set_stepsize_decimation_factor(i, nf);
                    f[i] = nf;
                    --changes;
                    break;
                }
                case 2: {
                    const int i = mc::choose(n, "which");
                    if (!present[i]) mc::discard();
                    algo.remove_simulator(i);
                    present[i] = false;
                    --changes;
                    break;
                }
                default: break;
            }
        }
        const auto t = start + k * base;
        auto [d, finished] = algo.do_step(tp(t));
        mc::transition();
        mc::check(d.count() == base, "step size differs from the base step size");
        for (int i = 0; i < n; ++i) {
            if (!present[i]) {
                mc::check(finished.count(i) == 0, "removed simulator reported finished");
            } else {
                if (left[i] == 0) {
                    want[i].emplace_back(t, f[i] * base);
                    left[i] = f[i];
                }
                --left[i];
                mc::check((left[i] == 0) == (finished.count(i) == 1), mc::Str() << "simulator " << i << " with factor " << f[i] << " in step " << k + 1 << (left[i] == 0 ? " not" : "") << " reported finished");
            }
            std::vector<std::pair<long long, long long>> got;
            for (auto& c : sl[i]->log)
                if (c.op == 'D') got.emplace_back(c.t, c.dt);
            mc::check(got == want[i], mc::Str() << "simulator " << i << " with factor " << f[i] << " was stepped wrongly: " << log_str(sl[i]->log));
        }
    }
    mc::outcome(std::to_string(f[0]) + "," + std::to_string(f[1]));
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C03";
    s.assumptions = {"simulators are mock slaves; step size factors change only where old and new steps share a boundary"};
    s.add("through_execution_2", [] { through_execution(2, 13); });
    s.add("algorithm_alone", [] { algorithm_alone(13, mc::thorough() ? 3 : 2); });
    if (mc::thorough()) s.add("through_execution_3", [] { through_execution(3, 13); });
}
