// C12: scenario events fire at their time, in order, and are undone at the end.
#include "sim.hpp"
#include "cosim/manipulator/override_manipulator.hpp"
#include "cosim/manipulator/scenario_manager.hpp"
#include "cosim/observer/last_value_observer.hpp"
#include <algorithm>
#include <map>
using namespace sim;

namespace
{
constexpr int STEP = 10;
constexpr long T0 = 1000;

// what a modifier makes of a value
struct Mod { int kind; long v; }; // 0 none, 1 constant, 2 add
long apply(variable_type t, const Mod& m, long x) { return m.kind == 0 ? x : as_seen(t, m.kind == 1 ? m.v : x + m.v); }

using Modifier = std::variant<scenario::real_modifier, scenario::integer_modifier, scenario::boolean_modifier, scenario::string_modifier>;
Modifier make(variable_type t, const Mod& m)
{
    switch (t) {
        case T_REAL: return m.kind ? scenario::real_modifier{[m](double x, duration) { return (double)apply(T_REAL, m, (long)x); }} : scenario::real_modifier{nullptr};
        case T_INT: return m.kind ? scenario::integer_modifier{[m](int x, duration) { return (int)apply(T_INT, m, x); }} : scenario::integer_modifier{nullptr};
        case T_BOOL: return m.kind ? scenario::boolean_modifier{[m](bool x, duration) { return apply(T_BOOL, m, x) != 0; }} : scenario::boolean_modifier{nullptr};
        default: return m.kind ? scenario::string_modifier{[m](std::string_view x, duration) { return std::to_string(apply(T_STR, m, to_num(x))); }} : scenario::string_modifier{nullptr};
    }
}

struct Target { int sim; variable_type type; unsigned ref; bool input; };
struct Ev { long time; Target to; Mod m; };

struct World
{
    std::unique_ptr<execution> exe;
    std::vector<std::shared_ptr<Slave>> sl;
    std::shared_ptr<scenario_manager> man = std::make_shared<scenario_manager>();
    std::shared_ptr<override_manipulator> over = std::make_shared<override_manipulator>();
    std::shared_ptr<last_value_observer> obs = std::make_shared<last_value_observer>();
    std::vector<variable_type> types;
    // model
    std::map<std::tuple<int, int, unsigned>, Mod> inForce;
    std::vector<Ev> pending, fired;
    bool running = false;
    long started = 0;
    std::optional<long> end;
    long now = T0;
    std::vector<int> factors;
    int steps = 0;
    std::uint64_t h = 0;

    World(std::vector<variable_type> ty, std::vector<int> f) : types(ty), factors(f)
    {
        quiet_logs();
        auto alg = std::make_shared<fixed_step_algorithm>(duration(STEP), 0u);
        exe = std::make_unique<execution>(tp(T0), alg);
        for (std::size_t i = 0; i < f.size(); ++i) {
            auto s = make_slave((int)i, types);
            s->keepLog = false;
            for (auto t : types) s->var("par" + std::to_string((int)t), 2, t, variable_causality::parameter, 7);
            sl.push_back(s);
            exe->add_slave(s, "s" + std::to_string(i));
            alg->set_stepsize_decimation_factor((simulator_index)i, f[i]);
        }
        exe->add_manipulator(man);
        exe->add_manipulator(over);
        exe->add_observer(obs);
    }
    long observed(int i, variable_type t, unsigned ref)
    {
        const value_reference r[] = {ref};
        double d[1];
        int n[1];
        bool b[1];
        std::string s[1];
        switch (t) {
            case T_REAL: obs->get_real(i, r, d); return to_num(d[0]);
            case T_INT: obs->get_integer(i, r, n); return n[0];
            case T_BOOL: obs->get_boolean(i, r, b); return b[0];
            default: obs->get_string(i, r, s); return to_num(s[0]);
        }
    }
    void revert()
    {
        for (auto& e : fired) inForce.erase({e.to.sim, (int)e.to.type, e.to.ref});
        fired.clear();
    }
    void load(const std::vector<Ev>& ev, std::optional<long> e)
    {
        scenario::scenario s;
        for (auto& x : ev) s.events.push_back({tp(x.time), {x.to.sim, x.to.ref, make(x.to.type, x.m), x.to.input}});
        if (e) s.end = tp(*e);
        if (mc::tracing()) {
            mc::Str t;
            t << "load at " << now << ":";
            for (auto& x : ev) t << " [" << x.time << " " << x.to.sim << "." << "ribs"[(int)x.to.type] << x.to.ref << " kind " << x.m.kind << " " << x.m.v << "]";
            t << " end " << (e ? *e : -1);
            mc::note(t);
        }
        man->load_scenario(s, tp(now));
        if (running) revert();
        pending = ev;
        std::stable_sort(pending.begin(), pending.end(), [](const Ev& a, const Ev& b) { return a.time < b.time; });
        fired.clear();
        running = true;
        started = now;
        end = e;
        checkRunning();
    }
    void abort()
    {
        if (mc::tracing()) mc::note(mc::Str() << "abort at " << now);
        man->abort_scenario();
        if (running) revert();
        running = false;
        pending.clear();
        checkRunning();
    }
    void checkRunning()
    {
        mc::check(man->is_scenario_running() == running, mc::Str() << "at " << now << " the scenario is reported " << (running ? "not " : "") << "running");
    }
    void step()
    {
        // model: beginning of a step at `now`
        const long rel = now - started;
        if (running) {
            if (pending.empty() && (!end || rel >= *end)) {
                revert();
                running = false;
            } else {
                while (!pending.empty() && pending.front().time <= rel) {
                    auto e = pending.front();
                    pending.erase(pending.begin());
                    const std::tuple<int, int, unsigned> k{e.to.sim, (int)e.to.type, e.to.ref};
                    inForce[k] = e.m;
                    if (e.m.kind == 0) inForce.erase(k);
                    fired.push_back(e);
                }
            }
        }
        mc::transition();
        exe->step();
        auto eff = [&](int i, variable_type t, unsigned ref, long raw) {
            auto it = inForce.find({i, (int)t, ref});
            return it == inForce.end() ? raw : apply(t, it->second, raw);
        };
        for (std::size_t i = 0; i < sl.size(); ++i) {
            if (steps % factors[i]) continue; // this slave was not stepped
            for (auto t : types) {
                auto report = [&](const char* w, unsigned ref, long is, long should) {
                    h = mc::mix(h, (std::uint64_t)is);
                    if (is != should) mc::fail(mc::Str() << "step from " << now << ": " << w << " " << i << "." << "ribs"[(int)t] << ref << " is " << is << ", should be " << should);
                };
                report("input", 1, sl[i]->val[(int)t][1], eff((int)i, t, 1, 0));
                report("parameter", 2, sl[i]->val[(int)t][2], eff((int)i, t, 2, as_seen(t, 7)));
                if (factors[i] == 1) report("output", 0, observed((int)i, t, 0), eff((int)i, t, 0, sl[i]->number((int)t, 0)));
            }
        }
        auto mod = exe->get_modified_variables();
        mc::check(mod.size() == inForce.size(), mc::Str() << "step from " << now << ": " << mod.size() << " variables modified, should be " << inForce.size());
        for (auto& m : mod) mc::check(inForce.count({m.simulator, (int)m.type, m.reference}), "a variable is modified which should not be");
        now += STEP;
        ++steps;
        checkRunning();
    }
};

std::optional<long> pick_end(const std::vector<long>& ends)
{
    const long e = mc::pick(ends, "end");
    return e < 0 ? std::optional<long>() : e;
}

// All scenarios of up to `n` events; loaded before the first step or between steps.
void scenarios(variable_type t, int n, std::vector<Target> targets, std::vector<long> times, std::vector<long> ends, std::vector<int> loadAt, std::vector<int> factors, std::vector<Mod> mods, int steps)
{
    World w({t, t == T_REAL ? T_INT : T_REAL}, factors);
    // an unrelated override, which must stay in force throughout
    const auto o = t == T_REAL ? T_INT : T_REAL;
    if (o == T_REAL) w.over->override_real_variable(0, 1, 55);
    else w.over->override_integer_variable(0, 1, 55);
    w.inForce[{0, (int)o, 1}] = {1, 55};
    const int at = mc::pick(loadAt, "steps before loading");
    for (int i = 0; i < at; ++i) w.step();
    std::vector<Ev> ev;
    for (int i = 0; i < n; ++i) ev.push_back({mc::pick(times, "time"), mc::pick(targets, "variable"), mc::pick(mods, "modifier")});
    for (int i = 0; i < n; ++i) if (ev[i].m.kind) ev[i].m.v += i * 2;
    w.load(ev, pick_end(ends));
    for (int i = 0; i < steps; ++i) w.step();
    mc::outcome_hash(w.h);
}

void request(World& w, const Target& x)
{
    switch (x.type) {
        case T_REAL: w.over->override_real_variable(x.sim, x.ref, 77); break;
        case T_INT: w.over->override_integer_variable(x.sim, x.ref, 77); break;
        case T_BOOL: w.over->override_boolean_variable(x.sim, x.ref, true); break;
        default: w.over->override_string_variable(x.sim, x.ref, "77");
    }
    w.inForce[{x.sim, (int)x.type, x.ref}] = {1, 77};
}

// A scenario which is aborted, replaced or reloaded at any step; possibly overridden by the user after its end.
void interruptions(variable_type t, int n, std::vector<long> times, int steps, int at2max)
{
    World w({t}, {1, 1});
    const std::vector<Target> targets{{0, t, 1, true}, {0, t, 0, false}, {1, t, 1, true}};
    auto ev = [&](int k, long base) {
        std::vector<Ev> e;
        for (int i = 0; i < k; ++i) {
            const int m = mc::choose(2, "modifier");
            e.push_back({mc::pick(times, "time"), mc::pick(targets, "variable"), m ? Mod{2, base + 10 * i} : Mod{1, base + 10 * i}});
        }
        return e;
    };
    w.load(ev(n, 101), pick_end({-1, 20}));
    const int at = mc::choose(at2max, "interrupted after steps");
    for (int i = 0; i < at; ++i) w.step();
    const int what = mc::choose(4, "abort, replace, abort+load, override+abort");
    if (what == 0) w.abort();
    if (what == 2) w.abort();
    if (what == 1 || what == 2) w.load(ev(1, 201), pick_end({-1, 10}));
    if (what == 3) {
        if (!w.running) {
            // the scenario has ended, what is set now is no business of its any more
            const Target x = mc::pick(targets, "variable");
            request(w, x);
            w.step();
        }
        w.abort();
    }
    for (int i = 0; i < steps - at; ++i) w.step();
    if (mc::choose(2, "abort at the end")) {
        w.abort();
        w.step();
    }
    mc::outcome_hash(w.h);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C12";
    s.assumptions = {"the scenario manager is only used between steps, as its documentation requires", "mock slaves; small event sets"};
    const bool th = mc::thorough();
    const std::vector<Mod> all{{1, 3}, {2, 1}, {0, 0}};
    for (auto t : all_types()) {
        const std::string c(1, "ribs"[(int)t]);
        const std::vector<Target> targets{{0, t, 1, true}, {0, t, 2, true}, {0, t, 0, false}, {1, t, 1, true}};
        s.add("two_events_" + c, [=] { scenarios(t, 2, targets, {0, 5, 10, 20, 25}, {-1, 0, 15, 30}, {0, 1}, {1, 1}, all, 6); });
        if (t == T_REAL || th)
            s.add("three_events_" + c, [=] { scenarios(t, 3, {targets[0], targets[2], targets[3]}, {0, 9, 10, 20}, {-1, 20}, th ? std::vector<int>{0, 1, 3} : std::vector<int>{1}, {1, 1}, th ? all : std::vector<Mod>{{1, 3}, {2, 1}}, 5); });
        s.add("interruptions_" + c, [=] { interruptions(t, th ? 2 : t == T_REAL ? 2 : 1, {0, 10, 15}, 5, 5); });
    }
    s.add("slow_simulator", [=] { scenarios(T_REAL, 2, {{0, T_REAL, 1, true}, {1, T_REAL, 1, true}, {1, T_REAL, 2, true}}, {0, 10, 15, 30, 35}, {-1, 10, 50}, {0, 1, 2}, {1, 3}, all, 9); });
    s.add("four_events_one_variable", [=] { scenarios(T_REAL, 4, {{0, T_REAL, 1, true}}, {0, 5, 10, 20}, {-1, 15, 40}, {0, 2}, {1}, th ? all : std::vector<Mod>{{1, 3}, {0, 0}}, 6); });
}
