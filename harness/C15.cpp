// C15: the last value observer returns the values of the last completed step.
#include "sim.hpp"
#include "cosim/manipulator/override_manipulator.hpp"
#include "cosim/observer/last_value_observer.hpp"
#include <thread>
using namespace sim;

namespace
{
struct World
{
    std::unique_ptr<execution> exe;
    std::vector<std::shared_ptr<Slave>> sl;
    std::vector<int> factors;
    std::shared_ptr<override_manipulator> man = std::make_shared<override_manipulator>();
    // values at each slave's last completed step (or initialisation)
    long known[3][4][NREF] = {};
    int steps = 0;
    World(std::vector<int> f, std::vector<variable_type> types = all_types(), unsigned workers = 0) : factors(f)
    {
        quiet_logs();
        auto alg = std::make_shared<fixed_step_algorithm>(duration(10), workers);
        exe = std::make_unique<execution>(tp(500), alg);
        for (std::size_t i = 0; i < f.size(); ++i) {
            auto s = make_slave((int)i, types);
            s->keepLog = false;
            s->out = [](const Slave& x, int type, unsigned ref) {
                const long n = x.id * 1000 + (long)ref * 100 + type * 10 + x.steps;
                return type == 2 ? (n / 3 + n / 100) % 2 : n;
            };
            for (auto t : types) {
                s->var("out2", 3, t, variable_causality::output);
                s->var("par", 2, t, variable_causality::parameter, 7);
                s->var("loc", 5, t, variable_causality::local);
            }
            sl.push_back(s);
            exe->add_slave(s, "s" + std::to_string(i));
            alg->set_stepsize_decimation_factor((int)i, f[i]);
        }
        exe->add_manipulator(man);
    }
    void know(int i)
    {
        for (auto& v : sl[i]->vars) if (v.type != variable_type::enumeration) known[i][(int)v.type][v.reference] = as_seen(v.type, sl[i]->number((int)v.type, v.reference));
    }
    void step()
    {
        mc::transition();
        exe->step();
        ++steps;
        for (std::size_t i = 0; i < sl.size(); ++i)
            if (steps % factors[i] == 0) know((int)i);
    }
};

std::vector<long> ask(last_value_observer& o, int i, variable_type t, const std::vector<value_reference>& r)
{
    const auto n = r.size();
    std::vector<long> x;
    mc::transition();
    switch (t) {
        case T_REAL: {
            std::vector<double> v(n);
            o.get_real(i, r, v);
            for (auto y : v) x.push_back(to_num(y));
            break;
        }
        case T_INT: {
            std::vector<int> v(n);
            o.get_integer(i, r, v);
            for (auto y : v) x.push_back(y);
            break;
        }
        case T_BOOL: {
            auto v = std::make_unique<bool[]>(n);
            o.get_boolean(i, r, gsl::make_span(v.get(), n));
            for (std::size_t k = 0; k < n; ++k) x.push_back(v[k]);
            break;
        }
        default: {
            std::vector<std::string> v(n);
            o.get_string(i, r, v);
            for (auto& y : v) x.push_back(to_num(y));
        }
    }
    return x;
}

// Sequences of steps, overrides and connections; then every read of up to `len` references in any order.
void sequences(std::vector<int> factors, int depth, int len)
{
    World w(factors);
    const int when = mc::choose(3, "observer added after steps");
    auto obs = std::make_shared<last_value_observer>();
    const auto t = mc::pick(all_types(), "type");
    if (mc::choose(2, "connected")) w.exe->connect_variables(variable_id{0, t, 0}, variable_id{1, t, 1});
    int lcm = factors[0] * factors[1];
    bool added = false, over = false;
    auto add = [&] {
        w.exe->add_observer(obs);
        added = true;
    };
    if (when == 0) add();
    if (when == 1) {
        // at a time all simulators have reached (in between, the slower ones are ahead of the simulation time)
        for (int k = 0; k < lcm; ++k) w.step();
        add();
    }
    if (when == 2) {
        w.step();
        if (factors[1] != 1) w.step();
        add();
    }
    const bool ahead = when == 2 && w.steps % lcm;
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose(4, "end, step, override, reset");
        if (!op) break;
        if (op == 1) w.step();
        if (op == 2 || op == 3) {
            over = op == 2;
            // an output which is overridden is observed as such
            if (op == 3) w.man->reset_variable(0, t, 3);
            else if (t == T_REAL) w.man->override_real_variable(0, 3, 90 + k);
            else if (t == T_INT) w.man->override_integer_variable(0, 3, 90 + k);
            else if (t == T_BOOL) w.man->override_boolean_variable(0, 3, k % 2);
            else w.man->override_string_variable(0, 3, std::to_string(90 + k));
            w.step();
            w.known[0][(int)t][3] = over ? as_seen(t, t == T_BOOL ? k % 2 : 90 + k) : w.known[0][(int)t][3];
            w.man->reset_variable(0, t, 3);
        }
    }
    if (w.steps < lcm || ahead) {
        while (w.steps % lcm || !w.steps) w.step();
    }
    for (int i = 0; i < 2; ++i)
        for (auto ty : all_types()) {
            const std::vector<value_reference> refs{0, 1, 2, 3, 5};
            std::vector<value_reference> r;
            std::function<void()> go = [&] {
                auto v = ask(*obs, i, ty, r);
                for (std::size_t k = 0; k < r.size(); ++k)
                    if (v[k] != w.known[i][(int)ty][r[k]])
                        mc::fail(mc::Str() << "after " << w.steps << " steps " << i << "." << "ribs"[(int)ty] << r[k] << " at position " << k << " is " << v[k] << ", should be " << w.known[i][(int)ty][r[k]]);
                if ((int)r.size() == len) return;
                for (auto x : refs) {
                    r.push_back(x);
                    go();
                    r.pop_back();
                }
            };
            go();
        }
    mc::outcome(mc::Str() << w.steps << over);
}

// Before the first step and right after initialisation.
void initial()
{
    World w({1, 2});
    auto obs = std::make_shared<last_value_observer>();
    const bool early = mc::choose(2, "observer added before first step");
    struct Peek : observer
    {
        std::function<void()> f;
        void simulator_added(simulator_index, observable*, time_point) override {}
        void simulator_removed(simulator_index, time_point) override {}
        void variables_connected(variable_id, variable_id, time_point) override {}
        void variable_disconnected(variable_id, time_point) override {}
        void simulation_initialized(step_number, time_point) override { f(); }
        void step_complete(step_number, duration, time_point) override {}
        void simulator_step_complete(simulator_index, step_number, duration, time_point) override {}
    };
    auto peek = std::make_shared<Peek>();
    int peeked = 0;
    if (early) {
        w.exe->add_observer(obs);
        peek->f = [&] {
            ++peeked;
            for (int i = 0; i < 2; ++i) {
                w.know(i);
                for (auto t : all_types())
                    for (value_reference r : {0u, 1u, 2u, 3u, 5u})
                        mc::check(ask(*obs, i, t, {r})[0] == w.known[i][(int)t][r], "wrong value after initialisation");
            }
        };
        w.exe->add_observer(peek);
        w.step();
        mc::check(peeked == 1, "initialisation was not observed");
    } else {
        w.step();
        w.step();
        w.exe->add_observer(obs);
        w.step();
        w.step();
    }
    for (int i = 0; i < 2; ++i)
        for (auto t : all_types())
            for (value_reference r : {0u, 1u, 2u, 3u, 5u})
                mc::check(ask(*obs, i, t, {r})[0] == w.known[i][(int)t][r], mc::Str() << "wrong value: " << i << "." << "ribs"[(int)t] << r);
    mc::outcome(early ? "early" : "late");
}

// A simulator with variables of some types only, enumerations, and impossible requests.
void refusals()
{
    std::vector<variable_type> types;
    const int mask = mc::choose(15, "types") + 1;
    for (auto t : all_types()) if (mask >> (int)t & 1) types.push_back(t);
    World w({1}, types);
    w.sl[0]->vars.push_back(variable_description{"e", 8, variable_type::enumeration, variable_causality::output, variable_variability::discrete, std::nullopt});
    auto obs = std::make_shared<last_value_observer>();
    w.exe->add_observer(obs);
    w.step();
    for (auto t : all_types()) {
        const bool has = mask >> (int)t & 1;
        if (has) mc::check(ask(*obs, 0, t, {3})[0] == w.known[0][(int)t][3], "wrong value");
        else mc::check(!completes([&] { ask(*obs, 0, t, {3}); }), "a variable which does not exist was read");
        mc::check(!completes([&] { ask(*obs, 0, t, {9}); }), "a variable which does not exist was read");
        if (has) mc::check(!completes([&] { ask(*obs, 0, t, {0, 9}); }), "a variable which does not exist was read");
        mc::check(!completes([&] { ask(*obs, 1, t, {0}); }), "a simulator which does not exist was read");
        mc::check(!completes([&] { ask(*obs, -1, t, {0}); }), "a simulator which does not exist was read");
    }
    double d[2];
    value_reference r[1] = {0};
    mc::check(!completes([&] { obs->get_real(0, gsl::make_span(r, 1), gsl::make_span(d, 2)); }), "buffers of different sizes were accepted");
}

#ifdef MC_SCHED
void concurrent(variable_type t, int steps, int queries, int readers, int factor, unsigned workers)
{
    World w({1, factor}, {t}, workers);
    auto obs = std::make_shared<last_value_observer>();
    w.exe->add_observer(obs);
    mc::quiet(true);
    w.exe->step();
    if (factor > 1) w.exe->step();
    mc::quiet(false);
    const int i = factor > 1 ? 1 : 0;
    const int first = factor > 1 ? 1 : 1;
    std::vector<std::pair<long, long>> span; // stamps before and after each step
    struct Q { long a, b; long n; };
    std::vector<std::vector<Q>> q(readers);
    std::vector<std::thread> th;
    for (int k = 0; k < readers; ++k)
        th.emplace_back([&, k] {
            for (int j = 0; j < queries; ++j) {
                Q x;
                x.a = mc::stamp();
                auto v = ask(*obs, i, t, k % 2 ? std::vector<value_reference>{3, 0} : std::vector<value_reference>{0, 3});
                x.b = mc::stamp();
                if (k % 2) std::swap(v[0], v[1]);
                mc::check(v[1] - v[0] == 300, mc::Str() << "values of different steps in one call: " << v[0] << " and " << v[1]);
                x.n = v[0] - i * 1000 - (long)t * 10;
                q[k].push_back(x);
            }
        });
    for (int k = 0; k < steps; ++k) {
        const long a = mc::stamp();
        w.exe->step();
        span.push_back({a, mc::stamp()});
    }
    for (auto& x : th) x.join();
    mc::Str o;
    for (auto& v : q) {
        long prev = 0;
        for (auto& x : v) {
            // steps of this simulator completed before the call / begun before its end
            int lo = first, hi = first;
            for (int k = 0; k < steps; ++k) {
                if ((k + 1) % factor) continue;
                if (span[k].second < x.a) ++lo;
                if (span[k].first < x.b) ++hi;
            }
            mc::check(x.n >= lo && x.n <= hi, mc::Str() << "values of step " << x.n << " of the simulator, should be of step " << lo << " to " << hi);
            mc::check(x.n >= prev, "an earlier call returned more recent values");
            prev = x.n;
            o << x.n << " ";
        }
        o << "/ ";
    }
    mc::outcome(o);
}
#endif
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C15";
    s.assumptions = {"sequentially consistent interleavings with data race detection; mock slaves"};
    const bool t = mc::thorough();
#ifdef MC_SCHED
    auto add = [&](std::string n, variable_type ty, int steps, int q, int readers, int factor, unsigned workers, int bound) {
        auto& x = s.add(n, [=] { concurrent(ty, steps, q, readers, factor, workers); });
        x.sched = true;
        x.bound = bound;
    };
    add("real", T_REAL, 3, 2, 1, 1, 0, t ? 8 : 6);
    add("integer", T_INT, 3, 2, 1, 1, 0, t ? 8 : 6);
    add("string", T_STR, 2, 2, 1, 1, 0, t ? 8 : 6);
    add("two_readers", T_REAL, 2, 2, 2, 1, 0, t ? 5 : 4);
    add("slow_simulator", T_REAL, 4, 2, 1, 2, 0, t ? 8 : 5);
    add("worker_threads", T_REAL, 2, 2, 1, 1, t ? 2u : 1u, 2);
#else
    s.add("sequences", [=] { sequences({1, 1}, t ? 6 : 4, 2); });
    s.add("sequences_slow", [=] { sequences({1, 2}, t ? 6 : 4, 2); });
    s.add("sequences_long_requests", [=] { sequences({1, 1}, 2, 4); });
    s.add("initial", initial);
    s.add("refusals", refusals);
#endif
}
