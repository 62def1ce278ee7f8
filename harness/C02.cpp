// C02: same calls, notifications and times for every number of workers and every schedule; no data races.
#include "sim.hpp"
#include "cosim/observer/last_value_observer.hpp"
using namespace sim;

namespace
{
struct Cfg
{
    int slaves;
    std::vector<int> factors;
    unsigned workers;
    int steps;
    bool function;
    long window; // points explored at a time; 0: everything
    bool midRun = false; // change connections and rates between steps
    bool lastValues = false;
};

std::string run(const Cfg& c, unsigned workers, long a, long b, long* points)
{
    quiet_logs();
    auto algo = std::make_shared<fixed_step_algorithm>(duration(10), workers);
    auto exe = std::make_unique<execution>(tp(0), algo);
    const long p0 = mc::points();
    if (b > 0) mc::window(a, b);
    std::vector<std::shared_ptr<Slave>> sl;
    for (int i = 0; i < c.slaves; ++i) {
        auto s = make_slave(i, {T_REAL, T_INT});
        // outputs depend on the inputs, so that a value transferred at a wrong moment changes what follows
        s->out = [](const Slave& x, int type, unsigned) { return x.val[type][1] * 3 % 1009 + x.id * 100 + x.steps; };
        sl.push_back(s);
        exe->add_slave(s, "s" + std::to_string(i));
        algo->set_stepsize_decimation_factor(i, c.factors[i]);
    }
    std::string trace;
    auto o = std::make_shared<Obs>();
    o->on = [&](const std::string& e) { if (e.find("added") == std::string::npos) trace += e + " "; };
    exe->add_observer(o);
    std::shared_ptr<last_value_observer> lv;
    if (c.lastValues) exe->add_observer(lv = std::make_shared<last_value_observer>());
    for (int i = 0; i < c.slaves; ++i) {
        if (c.function && i == 0) continue;
        exe->connect_variables(variable_id{(i + c.slaves - 1) % c.slaves, T_REAL, 0}, variable_id{i, T_REAL, 1});
    }
    exe->connect_variables(variable_id{0, T_INT, 0}, variable_id{c.slaves - 1, T_INT, 1});
    std::shared_ptr<Fun> f;
    if (c.function) {
        f = std::make_shared<Fun>();
        f->nIn = 2;
        const auto fi = exe->add_function(f);
        exe->connect_variables(variable_id{0, T_REAL, 0}, function_io_id{fi, T_REAL, Fun::in_ref(T_REAL, 0)});
        exe->connect_variables(variable_id{c.slaves - 1, T_REAL, 0}, function_io_id{fi, T_REAL, Fun::in_ref(T_REAL, 1)});
        exe->connect_variables(function_io_id{fi, T_REAL, Fun::out_ref(T_REAL)}, variable_id{0, T_REAL, 1});
    }
    for (int k = 0; k < c.steps; ++k) {
        exe->step();
        if (c.midRun && k == 0) {
            algo->disconnect_variable(variable_id{c.slaves - 1, T_INT, 1});
            algo->connect_variables(variable_id{0, T_INT, 0}, variable_id{1, T_INT, 1});
            algo->set_stepsize_decimation_factor(0, 2);
        }
        trace += std::to_string(ns(exe->current_time())) + " ";
        if (lv) {
            double v[2];
            const value_reference r[2] = {0, 1};
            for (int i = 0; i < c.slaves; ++i) {
                lv->get_real(i, r, v);
                trace += mc::Str() << v[0] << "/" << v[1] << " ";
            }
        }
    }
    exe.reset();
    for (auto& s : sl) trace += mc::Str() << "\n s" << s->id << ": " << log_str(s->log);
    if (f) trace += mc::Str() << "\n f: " << f->calculations << " " << f->in[0][0] << " " << f->in[0][1] << " " << f->outv[0];
    if (points) *points = mc::points() - p0;
    return trace;
}

void body(const Cfg& c)
{
    mc::quiet(true);
    long n = 0;
    const auto ref = run(c, 0, 0, 0, &n);
    long a = 0, b = 1L << 40;
    if (c.window) {
        const int w = mc::choose((int)((n + c.window / 2 - 1) / (c.window / 2)), "window");
        a = w * (c.window / 2);
        b = a + c.window;
    }
    const auto got = run(c, c.workers, a, b, nullptr);
    if (got != ref) mc::fail("with " + std::to_string(c.workers) + " workers:\n" + got + "\nwithout workers:\n" + ref);
    mc::outcome(got);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C02";
    s.assumptions = {"sequentially consistent interleavings with data race detection", "mock slaves with outputs depending on their inputs"};
    const bool t = mc::thorough();
    auto add = [&](const char* n, Cfg c, int bound) {
        auto& x = s.add(n, [c] { body(c); });
        x.sched = true;
        x.bound = bound;
    };
    add("two_slaves_one_worker", {2, {1, 2}, 1, 3, true, 0}, t ? 3 : 2);
    add("two_slaves_two_workers", {2, {1, 2}, 2, 2, true, 24}, t ? 3 : 2);
    add("three_slaves_two_workers", {3, {1, 2, 1}, 2, 2, true, 16}, t ? 3 : 2);
    add("changes_between_steps", {3, {1, 1, 1}, 2, 2, false, 16, true, true}, t ? 3 : 2);
    add("wide_window", {3, {1, 3, 2}, 2, 4, true, 48}, t ? 2 : 1);
    add("three_slaves_three_workers", {3, {1, 1, 1}, 3, 1, true, 12}, t ? 2 : 1);
}
