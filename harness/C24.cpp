// C24: real-time pacing never runs ahead and never sleeps when disabled. (Virtual clock; one thread.)
#include "mc.hpp"
#include "sim.hpp"
#include "cosim/algorithm/fixed_step_algorithm.hpp"
#include "cosim/timer.hpp"
#include <cmath>
#include <thread>

namespace
{
using namespace sim;
using std::chrono::nanoseconds;
constexpr long long US = 1000, MS = 1000000, TOL = 100 * US + 1 * US;

void work(long long ns)
{
    if (ns > 0) std::this_thread::sleep_for(nanoseconds(ns));
}
time_point at(long long ns) { return time_point(duration(ns)); }

/// Judges what one would see of a timer from outside.
struct Judge
{
    struct Sample { long long sim, wall; };
    real_time_config* c;
    const real_time_metrics* m;
    bool enabled = false;
    double factor = 1;
    Sample base{0, 0}, started{0, 0};
    std::vector<Sample> samples; // since the start
    double rolling = 1;
    int sinceUpdate = 0;
    long long lastUpdate = 0;
    std::string trail;

    void start(long long sim)
    {
        base = started = {sim, mc::virtual_now()};
        samples = {base};
        enabled = c->real_time_simulation;
        factor = c->real_time_factor_target;
        rolling = m->rolling_average_real_time_factor;
        sinceUpdate = 0;
        lastUpdate = base.wall;
    }
    /// The step which ended at `sim` was followed by a wait from `before` until now.
    void waited(long long sim, long long before)
    {
        const long long now = mc::virtual_now();
        const bool e = c->real_time_simulation;
        const double f = c->real_time_factor_target;
        if (e != enabled || f != factor) {
            enabled = e;
            factor = f;
            base = {sim, before};
        }
        const double due = e && f > 0 ? base.wall + (sim - base.sim) / f : -1e300; // when the wall clock should be there
        mc::check(now >= due - TOL, mc::Str() << trail << ": simulation time " << (sim - base.sim) / 1000 << " us was reached " << (due - now) / 1000 << " us too early at factor " << f);
        const double allowed = std::max((double)before, due) + 1 * US;
        mc::check(now <= allowed, mc::Str() << trail << ": waited " << (now - before) / 1000 << " us, " << (now - allowed) / 1000 << " us longer than necessary");
        metrics({sim, now});
    }
    static bool near(double a, double b) { return std::abs(a - b) <= 1e-6 * std::max(std::abs(a), std::abs(b)); }
    void metrics(Sample s)
    {
        const double total = m->total_average_real_time_factor;
        bool ok = false;
        for (auto& b : {base, started})
            ok = ok || s.wall == b.wall || near(total, double(s.sim - b.sim) / (s.wall - b.wall));
        mc::check(ok, mc::Str() << trail << ": total average real time factor is " << total);
        const double r = m->rolling_average_real_time_factor;
        ++sinceUpdate;
        const bool changed = !(r == rolling || (std::isnan(r) && std::isnan(rolling)));
        if (changed) {
            bool ok = false;
            for (auto& b : samples) ok = ok || s.wall == b.wall || near(r, double(s.sim - b.sim) / (s.wall - b.wall));
            mc::check(ok, mc::Str() << trail << ": rolling average real time factor is " << r);
            rolling = r;
        }
        samples.push_back(s);
    }
};

struct Change { const char* name; std::function<void(real_time_config&)> f; };
const std::vector<Change>& changes()
{
    static const std::vector<Change> c = {
        {"", [](real_time_config&) {}},
        {" toggle", [](real_time_config& c) { c.real_time_simulation = !c.real_time_simulation; }},
        {" factor:=2", [](real_time_config& c) { c.real_time_factor_target = 2.0; }},
        {" factor:=0.25", [](real_time_config& c) { c.real_time_factor_target = 0.25; }},
        {" factor:=0", [](real_time_config& c) { c.real_time_factor_target = 0.0; }},
        {" factor:=-1", [](real_time_config& c) { c.real_time_factor_target = -1.0; }},
        {" monitor:=other", [](real_time_config& c) { c.steps_to_monitor = c.steps_to_monitor == 5 ? 1 : 5; }},
        {" period:=other", [](real_time_config& c) { c.sampling_period_to_monitor = c.sampling_period_to_monitor.load().count() > 0 ? std::chrono::milliseconds(-1) : std::chrono::milliseconds(20); }},
    };
    return c;
}

// The timer itself: steps of 10 ms, or 50 us, with delays and changes in between
void timer(int depth, bool tiny)
{
    work(MS);
    real_time_timer t;
    auto config = t.get_real_time_config();
    auto metrics = t.get_real_time_metrics();
    Judge j{config.get(), metrics.get()};
    const long long step = tiny ? 50 * US : 10 * MS;
    static const long long delays[] = {0, 3 * MS, 25 * MS}, tinyDelays[] = {0, 30 * US, 170 * US};
    if (mc::choose(2, "pacing from the start")) config->real_time_simulation = true;
    auto& init = mc::pick(changes(), "initial change");
    init.f(*config);
    j.trail = init.name;
    long long now = mc::choose(2, "start time") * 7 * MS;
    t.start(at(now));
    j.start(now);
    std::string outcome;
    for (int k = 0; k < depth; ++k) {
        const int what = mc::choose(4, "delay, restart");
        mc::transition();
        if (what == 3) {
            if (k == 0) mc::discard();
            work(25 * MS); // nothing happens for a while
            auto& c = mc::pick(changes(), "change");
            c.f(*config);
            t.start(at(now));
            j.trail += mc::Str() << " restart" << c.name;
            j.start(now);
            continue;
        }
        auto& c = mc::pick(changes(), "change");
        work((tiny ? tinyDelays : delays)[what]);
        c.f(*config);
        now += step;
        const auto before = mc::virtual_now();
        j.trail += mc::Str() << " step(" << what << ")" << c.name;
        t.sleep(at(now));
        j.waited(now, before);
        outcome += std::to_string((mc::virtual_now() - before) / US) + " ";
    }
    mc::outcome(outcome);
}

// How the averages are updated
void averages(int depth)
{
    work(MS);
    real_time_timer t;
    auto config = t.get_real_time_config();
    auto metrics = t.get_real_time_metrics();
    const int n = mc::choose(4, "steps to monitor") + 1;
    config->steps_to_monitor = n;
    const bool periodic = mc::choose(2, "sampling period");
    if (periodic) config->sampling_period_to_monitor = std::chrono::milliseconds(20);
    config->real_time_simulation = mc::choose(2, "pacing");
    t.start(at(0));
    struct P { long long sim, wall; };
    std::vector<P> all{{0, mc::virtual_now()}};
    std::size_t last = 0; // where the current window started
    double rolling = metrics->rolling_average_real_time_factor;
    long long now = 0;
    for (int k = 0; k < depth; ++k) {
        work(1 * MS * (1 << mc::choose(4, "delay"))); // 1, 2, 4, 8 ms
        now += (1 + k) * MS;
        t.sleep(at(now));
        mc::transition();
        all.push_back({now, mc::virtual_now()});
        const auto& e = all.back();
        const double total = metrics->total_average_real_time_factor, r = metrics->rolling_average_real_time_factor;
        // until pacing was applied, the reference may be the first step
        mc::check(Judge::near(total, double(e.sim - all[0].sim) / (e.wall - all[0].wall)), mc::Str() << "total average is " << total << " after step " << k);
        if (r != rolling) {
            bool ok = false;
            for (std::size_t b = 0; b + 1 < all.size(); ++b) ok = ok || Judge::near(r, double(e.sim - all[b].sim) / (e.wall - all[b].wall));
            mc::check(ok, mc::Str() << "rolling average is " << r << " after step " << k);
            if (!periodic) mc::check(Judge::near(r, double(e.sim - all[last].sim) / (e.wall - all[last].wall)), mc::Str() << "rolling average is " << r << ", which is not over the window since the last update");
            if (!periodic) mc::check((int)(all.size() - 1 - last) >= n, mc::Str() << "rolling average over " << all.size() - 1 - last << " steps instead of " << n);
            last = all.size() - 1;
            rolling = r;
        } else {
            const bool same = Judge::near(rolling, double(e.sim - all[last].sim) / (e.wall - all[last].wall));
            if (same) {
                // cannot tell whether it was updated: it would make no difference now, but the next window is shifted
                mc::discard();
            }
            if (!periodic) mc::check((int)(all.size() - 1 - last) <= n, mc::Str() << "rolling average not updated for " << all.size() - 1 - last << " steps while monitoring " << n);
            else mc::check(e.wall - all[last].wall <= 20 * MS + 1 * US, "rolling average not updated within the sampling period");
        }
    }
    mc::outcome(mc::Str() << rolling);
}

// A whole execution
struct Busy : slave
{
    std::function<void(time_point)> onStep;
    cosim::model_description d;
    cosim::model_description model_description() const override { return d; }
    void setup(time_point, std::optional<time_point>, std::optional<double>) override { }
    void start_simulation() override { }
    void end_simulation() override { }
    step_result do_step(time_point t, duration) override { onStep(t); return step_result::complete; }
    void get_real_variables(gsl::span<const value_reference>, gsl::span<double>) const override { }
    void get_integer_variables(gsl::span<const value_reference>, gsl::span<int>) const override { }
    void get_boolean_variables(gsl::span<const value_reference>, gsl::span<bool>) const override { }
    void get_string_variables(gsl::span<const value_reference>, gsl::span<std::string>) const override { }
    void set_real_variables(gsl::span<const value_reference>, gsl::span<const double>) override { }
    void set_integer_variables(gsl::span<const value_reference>, gsl::span<const int>) override { }
    void set_boolean_variables(gsl::span<const value_reference>, gsl::span<const bool>) override { }
    void set_string_variables(gsl::span<const value_reference>, gsl::span<const std::string>) override { }
};
void run(int steps)
{
    quiet_logs();
    work(MS);
    auto s = std::make_shared<Busy>();
    s->d.name = "busy";
    execution e(at(0), std::make_shared<fixed_step_algorithm>(duration(10 * MS), 0u));
    auto config = e.get_real_time_config();
    auto metrics = e.get_real_time_metrics();
    Judge j{config.get(), metrics.get()};
    e.add_slave(s, "busy");
    long long before = -1;       // the end of the work of the last step
    bool running = false;
    std::string outcome;
    auto ended = [&](long long sim) {
        if (before < 0) return;
        if (running) j.waited(sim, before);
        else mc::check(mc::virtual_now() == before, j.trail + ": a single step waited");
        before = -1;
    };
    const Change* late = nullptr;
    s->onStep = [&](time_point t) {
        const long long sim = t.time_since_epoch().count();
        ended(sim);
        work(mc::choose(2, "delay") * 25 * MS);
        auto& c = mc::pick(changes(), "change");
        c.f(*config);
        j.trail += mc::Str() << " step" << c.name;
        before = mc::virtual_now();
        mc::transition();
    };
    (void)late;
    long long now = 0;
    for (int part = 0; part < steps; ++part) {
        const int what = mc::choose(4, "run one step, run two steps, single step, pacing on and run two");
        if (what == 3) config->real_time_simulation = true;
        if (part) work(30 * MS);
        if (what == 2) {
            j.trail += " single";
            running = false;
            e.step();
            now += 10 * MS;
        } else {
            j.trail += " run";
            running = true;
            j.start(now);
            now += (what == 0 ? 10 : 20) * MS;
            e.simulate_until(at(now));
        }
        ended(now);
    }
    outcome = std::to_string(mc::virtual_now() / US);
    mc::outcome(outcome);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C24";
    s.assumptions = {"time passes only by working and waiting (virtual clock), and a wait lasts as long as asked for", "the tolerance is the timer's resolution of 100 us", "after a change of the target factor or of whether to pace, pacing is measured from the end of the step during which the change was made"};
    const bool th = mc::thorough();
    auto add = [&](const char* name, std::function<void()> f) {
        auto& x = s.add(name, std::move(f));
        x.sched = true;
        x.bound = 0;
        x.caching = false;
    };
    add("timer", [th] { timer(th ? 4 : 3, false); });
    add("timer_tiny_steps", [th] { timer(th ? 4 : 3, true); });
    add("averages", [th] { averages(th ? 9 : 7); });
    add("run", [th] { run(th ? 3 : 2); });
}
