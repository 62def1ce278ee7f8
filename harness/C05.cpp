// C05: slaves only see the documented call protocol, whatever the user does and whatever fails.
#include "sim.hpp"

#include "cosim/manipulator/override_manipulator.hpp"
#include "cosim/observer/last_value_observer.hpp"
#include "cosim/observer/time_series_observer.hpp"

using namespace sim;
namespace
{
// The protocol itself is monitored by sim::Slave on every call.
struct World
{
    std::shared_ptr<fixed_step_algorithm> algo;
    std::unique_ptr<execution> exe;
    std::vector<std::shared_ptr<Slave>> sl;
    std::shared_ptr<last_value_observer> last;
    std::shared_ptr<time_series_observer> series;
    std::shared_ptr<override_manipulator> over;
    bool initTried = false;
    bool badOverride = false; // steps may fail
    bool failed = false; // a slave's call has failed
};

// operations the user may perform, in any order
const char* const OPS[] = {"step", "connect 0->1 real", "connect 1->0 string", "initial value", "add observer", "override input", "override output",
    "reset input", "observe series", "simulate_until", "add function", "read", "bad connect", "bad initial value", "add slave", "bad override"};
constexpr int NOPS = sizeof OPS / sizeof *OPS;

void perform(World& w, int op)
{
    auto& e = *w.exe;
    switch (op) {
        case 0: e.step(); break;
        case 1: e.connect_variables(variable_id{0, T_REAL, 0}, variable_id{1, T_REAL, 1}); break;
        case 2: e.connect_variables(variable_id{1, T_STR, 0}, variable_id{0, T_STR, 1}); break;
        case 3: e.set_integer_initial_value(0, 1, 3); break;
        case 4:
            if (w.last) mc::discard();
            w.last = std::make_shared<last_value_observer>();
            e.add_observer(w.last);
            break;
        case 5:
            if (!w.over) {
                w.over = std::make_shared<override_manipulator>();
                e.add_manipulator(w.over);
            }
            w.over->override_boolean_variable(1, 1, true);
            break;
        case 6:
            if (!w.over) {
                w.over = std::make_shared<override_manipulator>();
                e.add_manipulator(w.over);
            }
            w.over->override_string_variable(0, 0, "x");
            break;
        case 7:
            if (!w.over) mc::discard();
            w.over->reset_variable(1, T_BOOL, 1);
            break;
        case 8:
            if (!w.series) {
                w.series = std::make_shared<time_series_observer>();
                e.add_observer(w.series);
            } else {
                mc::discard();
            }
            w.series->start_observing(variable_id{1, T_INT, 0});
            break;
        case 9: e.simulate_until(e.current_time() + duration(20)); break;
        case 10: {
            auto f = std::make_shared<Fun>();
            auto i = e.add_function(f);
            e.connect_variables(variable_id{0, T_INT, 0}, function_io_id{i, T_INT, Fun::in_ref(T_INT)});
            e.connect_variables(function_io_id{i, T_INT, Fun::out_ref(T_INT)}, variable_id{1, T_INT, 1});
            break;
        }
        case 11: {
            if (!w.last) mc::discard();
            const value_reference r[] = {0, 1};
            double v[2];
            w.last->get_real(1, r, v);
            break;
        }
        case 12: e.connect_variables(variable_id{0, T_REAL, 0}, variable_id{1, T_INT, 1}); break;
        case 13: e.set_real_initial_value(0, 7, 1.0); break;
        case 14: {
            auto s = make_slave((int)w.sl.size(), {T_REAL});
            s->keepLog = false;
            w.sl.push_back(s);
            e.add_slave(s, "extra" + std::to_string(w.sl.size()));
            // (it is either refused, or the monitor in Slave checks that it is set up and started before any step)
            break;
        }
        case 15: // there is an integer with this reference, but no boolean
            if (!w.over) mc::discard();
            w.badOverride = true;
            w.over->override_boolean_variable(1, 6, true);
            break;
    }
}

void run(int depth, bool faults, const std::vector<int>& prefix = {})
{
    quiet_logs();
    World w;
    w.algo = std::make_shared<fixed_step_algorithm>(duration(10), 0u);
    w.exe = std::make_unique<execution>(tp(5), w.algo);
    // the call at which a slave fails: counted over all calls to that slave
    const int who = faults ? mc::choose(2, "failing slave") : -1;
    bool fired = false;
    int incomplete = 0;
    for (int i = 0; i < 2; ++i) {
        auto s = make_slave(i);
        s->keepLog = false;
        s->var("loc", 5, T_REAL, variable_causality::local).var("other", 6, T_INT, variable_causality::input);
        if (i == who) {
            // at each call: go on, or fail
            s->hook = [&](Slave& x, char op) {
                if (fired) return;
                if (const int how = mc::choose(op == 'D' ? 4 : 2, "failure")) {
                    fired = true;
                    if (how == 1) throw failing_slave("planned failure");
                    incomplete = how - 1;
                }
            };
            s->result = [&](Slave& x) { return incomplete == 1 ? step_result::failed : incomplete == 2 ? step_result::canceled : step_result::complete; };
        }
        w.sl.push_back(s);
        w.exe->add_slave(s, "s" + std::to_string(i), duration(i == 0 ? 10 : 20));
    }
    std::string trail;
    bool failedStep = false;
    for (int d = 0; d < depth + (int)prefix.size(); ++d) {
        const int op = d < (int)prefix.size() ? prefix[d] : mc::choose(NOPS, "operation");
        trail += std::string(OPS[op]) + "; ";
        const bool before = fired;
        const long long timeBefore = ns(w.exe->current_time());
        std::string what;
        const bool ok = completes([&] { perform(w, op); }, &what);
        mc::transition();
        if (mc::tracing()) mc::note(std::string(OPS[op]) + (ok ? ": ok" : ": " + what));
        if (fired && !before) {
            failedStep = op == 0 || op == 9;
            mc::check(!ok, "the operation during which a slave failed did not fail: " + trail);
            mc::check(ns(w.exe->current_time()) == timeBefore || op == 9, "time advanced in a failed step: " + trail);
        } else if (before) {
            if (failedStep && (op == 0 || op == 9)) {
                mc::check(!ok, "the co-simulation was continued after a failure: " + trail);
            }
        } else if (!w.badOverride && (op == 0 || op == 9 || op == 11)) {
            mc::check(ok, "operation failed without reason: " + trail + what);
        }
        (void)w.exe->get_model_description(0);
        (void)w.exe->get_model_description(1);
        mc::check(!w.exe->is_running(), "running after all operations have returned");
    }
    w.exe.reset();
    mc::outcome(trail.substr(0, 60));
}

/// Whatever type a variable is accessed as, its slave never sees another one than its own.
void types()
{
    quiet_logs();
    const auto ENUM = variable_type::enumeration;
    auto exe = std::make_unique<execution>(tp(0), std::make_shared<fixed_step_algorithm>(duration(10), 0u));
    std::vector<std::shared_ptr<Slave>> sl;
    static const std::vector<variable_type> T{T_REAL, T_INT, T_BOOL, T_STR, ENUM};
    for (int i = 0; i < 2; ++i) {
        auto s = make_slave(i);
        s->keepLog = true;
        // each reference exists for one type only
        unsigned r = 2;
        for (auto t : T)
            if (t != ENUM) s->var("in" + std::to_string(r), r, t, variable_causality::input), ++r;
        for (auto t : T)
            if (t != ENUM) s->var("out" + std::to_string(r), r, t, variable_causality::output), ++r;
        sl.push_back(s);
        exe->add_slave(s, "s" + std::to_string(i), duration(10));
    }
    auto over = std::make_shared<override_manipulator>();
    auto series = std::make_shared<time_series_observer>();
    exe->add_manipulator(over);
    exe->add_observer(series);
    const int before = mc::choose(3, "steps before");
    for (int i = 0; i < before; ++i) exe->step();
    const int how = mc::choose(5, "access");
    const auto t = mc::pick(T, "type");
    const auto ref = (value_reference)mc::choose(NREF, "reference");
    const bool known = t != ENUM && sl[1]->exists((int)t, ref);
    const bool isInput = ref == 1 || (ref >= 2 && ref < 6);
    if (t == ENUM && how == 0) mc::discard(); // cannot be asked for
    mc::transition();
    bool ok = true;
    switch (how) {
        case 0:
            ok = completes([&] {
                if (t == T_REAL) over->override_real_variable(1, ref, 3.0);
                if (t == T_INT) over->override_integer_variable(1, ref, 3);
                if (t == T_BOOL) over->override_boolean_variable(1, ref, true);
                if (t == T_STR) over->override_string_variable(1, ref, "3");
            });
            break;
        case 1: ok = completes([&] { series->start_observing(variable_id{1, t, ref}); }); break;
        case 2: ok = completes([&] { exe->connect_variables(variable_id{1, t, ref}, variable_id{0, t == ENUM ? T_INT : t, 1}); }); break;
        case 3: ok = completes([&] { exe->connect_variables(variable_id{0, t == ENUM ? T_INT : t, 0}, variable_id{1, t, ref}); }); break;
        case 4:
            ok = completes([&] {
                if (t == T_REAL) exe->set_real_initial_value(1, ref, 3.0);
                if (t == T_INT) exe->set_integer_initial_value(1, ref, 3);
                if (t == T_BOOL) exe->set_boolean_initial_value(1, ref, true);
                if (t == T_STR) exe->set_string_initial_value(1, ref, "3");
                if (t == ENUM) throw std::logic_error("cannot be asked for");
            });
            if (before) mc::check(!ok, "initial value accepted after the first step");
            break;
    }
    if (how == 2) mc::check(ok == (known && !isInput), mc::Str() << "source variable " << ref << " of type " << to_text(t) << (ok ? " was accepted" : " was refused"));
    if (how == 3) mc::check(ok == (known && isInput), mc::Str() << "target variable " << ref << " of type " << to_text(t) << (ok ? " was accepted" : " was refused"));
    if (how == 4 && !before) mc::check(ok || !known || !isInput, mc::Str() << "initial value of variable " << ref << " of type " << to_text(t) << " was refused");
    bool fine = true;
    for (int i = 0; i < 3; ++i) fine = completes([&] { exe->step(); }) && fine; // each call is monitored by the slaves
    if (known || how >= 2) mc::check(fine, mc::Str() << "step failed after access " << how << " to variable " << ref << " of type " << to_text(t));
    if (known && ((how == 0 && isInput) || (how == 3 && ok) || (how == 4 && ok))) {
        long n = 0;
        for (auto& c : sl[1]->log) n += c.op == 'W' && c.type == (int)t && c.ref == ref;
        mc::check(n > 0, mc::Str() << "variable " << ref << " of type " << to_text(t) << " was never written");
    }
    exe.reset();
    mc::outcome(mc::Str() << how << ok << fine);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C05";
    s.assumptions = {"two mock slaves with every variable type; operations are issued from one thread"};
    const bool t = mc::thorough();
    s.add("operations", [t] { run(t ? 6 : 5, false); });
    s.add("types", types);
    s.add("operations_with_failure", [t] { run(t ? 4 : 3, true); });
    s.add("connected_system_with_failure", [t] { run(t ? 4 : 3, true, {1, 2, 10, 6}); });
    s.add("running_system_with_failure", [t] { run(t ? 3 : 2, true, {3, 1, 10, 4, 0, 0}); });
}
