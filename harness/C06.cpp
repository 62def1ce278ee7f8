// C06: a failing slave is reported to the caller; never a crash, hang or lost failure.
#include "sim.hpp"
using namespace sim;

namespace
{
enum Failure { THROW_STD, THROW_OTHER, STEP_FAILED, STEP_CANCELED };
struct Cfg
{
    unsigned workers;
    int slaves;
    bool async;
    bool fixedPoint; // fail only in do_step (smaller trees)
    bool twoFailures = false;
};

void run(const Cfg& c)
{
    quiet_logs();
    auto algo = std::make_shared<fixed_step_algorithm>(duration(10), c.workers);
    auto exe = std::make_unique<execution>(tp(0), algo);
    // decide the failure up front: which slave, and at which of its phases
    struct Point { char op; int nth; };
    static const std::vector<Point> all{{'U', 1}, {'W', 1}, {'W', 2}, {'R', 1}, {'R', 2}, {'B', 1}, {'D', 1}, {'D', 2}};
    static const std::vector<Point> some{{'D', 1}, {'D', 2}};
    const Point p = mc::pick(c.fixedPoint ? some : all, "failing call");
    const int how = mc::choose(p.op == 'D' ? 4 : 2, "failure");
    // when there are several failures, they may be of different kinds
    std::vector<int> hows(c.slaves, how);
    if (c.twoFailures && how == 0)
        for (int i = 1; i < c.slaves; ++i) hows[i] = mc::choose(p.op == 'D' ? 4 : 2, "another failure");
    else if (c.twoFailures && p.op == 'D')
        hows[0] = mc::choose(4, "first failure");
    const int who = c.twoFailures ? -1 : mc::choose(c.slaves, "failing slave");
    // Only schedules of the round of calls in which the failure happens, and of everything after it, are
    // explored; before that there is one schedule.
    if (c.workers > 1) mc::quiet(true);

    std::vector<std::shared_ptr<Slave>> sl;
    auto fired = std::make_unique<int[]>(c.slaves);
    for (int i = 0; i < c.slaves; ++i) {
        fired[i] = 0;
        auto s = make_slave(i, {T_REAL});
        s->keepLog = false;
        {
            auto n = std::make_shared<int>(0);
            const bool fails = who < 0 || who == i;
            s->hook = [&fired, n, p, how = hows[i], i, fails](Slave&, char op) {
                if (op != p.op || ++*n != p.nth) return;
                mc::quiet(false);
                if (!fails) return;
                fired[i] = 1;
                if (how == THROW_STD) throw failing_slave("boom " + std::to_string(i));
                if (how == THROW_OTHER) throw 42;
            };
            s->result = [&fired, how = hows[i], i](Slave&) { return !fired[i] ? step_result::complete : how == STEP_FAILED ? step_result::failed : how == STEP_CANCELED ? step_result::canceled : step_result::complete; };
        }
        sl.push_back(s);
        exe->add_slave(s, "s" + std::to_string(i));
    }
    if (c.slaves > 1) exe->connect_variables(variable_id{0, T_REAL, 0}, variable_id{1, T_REAL, 1});
    long long lastStep = 0;
    int notified = 0;
    auto obs = std::make_shared<Obs>();
    obs->onStep = [&](step_number n, duration, time_point t) {
        ++notified;
        mc::check(n == ++lastStep && ns(t) == 10 * n, "wrong step number or time");
        for (int i = 0; i < c.slaves; ++i) mc::check(!fired[i], "step notification for a step that failed");
    };
    obs->onSimStep = [&](simulator_index, step_number, duration, time_point) {
        for (int i = 0; i < c.slaves; ++i) mc::check(!fired[i], "simulator step notification for a step that failed");
    };
    exe->add_observer(obs);
    bool threw = false;
    std::string what;
    try {
        if (c.async) {
            auto f = exe->simulate_until_async(tp(30));
            const bool r = f.get();
            mc::check(r, "run was reported stopped");
        } else {
            for (int k = 0; k < 3; ++k) exe->step();
        }
    } catch (const std::exception& e) {
        threw = true;
        what = e.what();
    } catch (...) {
        mc::fail("a failure reached the caller as something other than an exception object");
    }
    bool any = false;
    for (int i = 0; i < c.slaves; ++i) any = any || fired[i];
    mc::check(any, "the planned failure did not occur");
    mc::check(threw, "a failing slave was not reported to the caller");
    for (int i = 0; i < c.slaves; ++i)
        if (fired[i] && how == THROW_STD && who >= 0) mc::check(what.find("boom " + std::to_string(i)) != std::string::npos, "the message of the failing slave is lost: " + what);
    mc::check(!exe->is_running(), "still reported as running after a failure");
    mc::check(exe->current_time() == tp(notified * 10), "time does not match the completed steps");
    // continuing is refused, and everything can be destroyed
    const int before = notified;
    mc::check(!completes([&] { exe->step(); }), "a failed co-simulation was continued");
    mc::check(before == notified, "step notification after a failure");
    exe.reset();
    mc::outcome(mc::Str() << notified);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C06";
    s.assumptions = {"mock slaves; failures are exceptions (std and other) and unsuccessful step results"};
    const bool t = mc::thorough();
    auto add = [&](const char* n, Cfg c, int bound) {
        auto& x = s.add(n, [c] { run(c); });
        x.sched = true;
        x.bound = bound;
    };
    add("no_workers", {0, 3, false, false}, 1);
    add("no_workers_two_failures", {0, 2, false, false, true}, 1);
    add("no_workers_async", {0, 2, true, false}, t ? 4 : 3);
    add("one_worker", {1, 2, false, false}, t ? 4 : 3);
    add("two_workers", {2, 2, false, false}, t ? 4 : 3);
    add("two_workers_failing_step", {2, 2, false, true}, t ? 4 : 3);
    add("two_workers_two_failures", {2, 2, false, false, true}, t ? 4 : 3);
    add("two_workers_async", {2, 2, true, false}, t ? 4 : 3);
    add("three_workers", {3, 3, false, true}, t ? 2 : 1);
}
