// C14: time series hold exactly the recorded samples, bounded and aligned.
#include "sim.hpp"
#include "cosim/observer/time_series_observer.hpp"
#include <map>
#include <thread>
using namespace sim;

namespace
{
struct Sample { step_number n; long long t; long v; };
struct Series
{
    std::vector<Sample> s;
    void add(Sample x, std::size_t cap)
    {
        s.push_back(x);
        if (s.size() > cap) s.erase(s.begin());
    }
};

struct World
{
    std::unique_ptr<execution> exe;
    std::vector<std::shared_ptr<Slave>> sl;
    std::vector<int> factors;
    World(std::vector<int> f) : factors(f)
    {
        quiet_logs();
        auto alg = std::make_shared<fixed_step_algorithm>(duration(10), 0u);
        exe = std::make_unique<execution>(tp(500), alg);
        for (std::size_t i = 0; i < f.size(); ++i) {
            auto s = make_slave((int)i, {T_REAL, T_INT, T_BOOL});
            s->keepLog = false;
            s->var("realOut2", 3, T_REAL, variable_causality::output);
            sl.push_back(s);
            exe->add_slave(s, "s" + std::to_string(i));
            alg->set_stepsize_decimation_factor((int)i, f[i]);
        }
    }
};

std::vector<Sample> ask(time_series_observer& o, variable_id v, step_number from, int n)
{
    std::vector<step_number> st(n);
    std::vector<time_point> ti(n);
    std::size_t k;
    std::vector<Sample> r;
    mc::transition();
    if (v.type == T_REAL) {
        std::vector<double> x(n);
        k = o.get_real_samples(v.simulator, v.reference, from, x, st, ti);
        mc::check(k <= (std::size_t)n, "more samples than asked for");
        for (std::size_t i = 0; i < k; ++i) r.push_back({st[i], ti[i].time_since_epoch().count(), to_num(x[i])});
    } else {
        std::vector<int> x(n);
        k = o.get_integer_samples(v.simulator, v.reference, from, x, st, ti);
        mc::check(k <= (std::size_t)n, "more samples than asked for");
        for (std::size_t i = 0; i < k; ++i) r.push_back({st[i], ti[i].time_since_epoch().count(), x[i]});
    }
    return r;
}
std::string show(const std::vector<Sample>& s)
{
    mc::Str r;
    for (auto& x : s) r << " " << x.n << "@" << x.t << "=" << x.v;
    return r;
}

void sequences(std::vector<int> factors, int cap, int depth, bool late)
{
    World w(factors);
    const std::vector<variable_id> vars{{0, T_REAL, 0}, {1, T_REAL, 0}, {0, T_INT, 0}, {0, T_REAL, 3}};
    auto obs = std::make_shared<time_series_observer>(cap);
    std::map<int, Series> on;           // observed variables
    std::vector<Series> times(2);       // steps each simulator has completed, as far as the observer knows
    long long now = 500;
    step_number n = 0;
    auto add = [&] { w.exe->add_observer(obs); };
    bool init = false, added = false;
    auto record = [&](bool initial) {
        if (!added) return;
        for (int i = 0; i < 2; ++i) {
            if (!initial && n % w.factors[i]) continue;
            times[i].add({n, now, 0}, cap);
            for (auto& [k, s] : on)
                if (vars[k].simulator == i) s.add({n, now, w.sl[i]->number((int)vars[k].type, vars[k].reference)}, cap);
        }
    };
    auto step = [&] {
        // initialisation is observed before the step
        std::vector<long> v0;
        if (!init) {
            init = true;
            record(true);
        }
        w.exe->step();
        now += 10;
        ++n;
        record(false);
    };
    int k = 0;
    std::string trail;
    if (late) {
        const int pre = mc::choose(4, "steps before adding");
        for (int i = 0; i < pre; ++i) step();
    }
    added = true;
    add();
    if (init) record(true);
    for (; k < depth; ++k) {
        const int op = mc::choose(2 + (int)vars.size(), "end, step, observe or stop observing");
        if (op == 0) break;
        mc::transition();
        if (op == 1) {
            trail += "step ";
            step();
            continue;
        }
        const int x = op - 2;
        if (on.count(x)) {
            trail += mc::Str() << "stop" << x << " ";
            obs->stop_observing(vars[x]);
            on.erase(x);
        } else {
            trail += mc::Str() << "start" << x << " ";
            obs->start_observing(vars[x]);
            on[x];
        }
    }
    if (mc::tracing()) mc::note(trail);
    // --- everything that can be asked
    std::uint64_t h = 0;
    for (int x = 0; x < (int)vars.size(); ++x)
        for (step_number from = -1; from <= n + 1; ++from)
            for (int size : {0, 1, 2, 3, (int)n + 3}) {
                std::vector<Sample> should;
                const bool observed = on.count(x) != 0;
                if ((!observed || on[x].s.empty()) && (from != n || size != 3)) continue;
                if (observed)
                    for (auto& s : on[x].s)
                        if (s.n >= from && s.n < from + size) should.push_back(s);
                std::vector<Sample> is;
                try {
                    is = ask(*obs, vars[x], from, size);
                } catch (const std::exception&) {
                    mc::check(!observed || on[x].s.empty(), trail + ": recorded samples cannot be read");
                    continue;
                }
                bool same = is.size() == should.size();
                for (std::size_t i = 0; same && i < is.size(); ++i) same = is[i].n == should[i].n && is[i].t == should[i].t && is[i].v == should[i].v;
                if (!same) mc::fail(mc::Str() << trail << ": samples of variable " << x << " from step " << from << ", at most " << size << ":" << show(is) << ", should be" << show(should));
                h = mc::mix(h, mc::mix(is.size(), is.empty() ? 0 : is[0].n));
            }
    for (int i = 0; i < 2; ++i) {
        const auto& t = times[i].s;
        if (t.empty()) continue; // nothing recorded yet: not specified
        for (long long a = 490; a <= now + 10; a += 5) {
            step_number st[2];
            auto first = t.front().n;
            for (auto& s : t) if (s.t <= a) first = s.n;
            for (long long b = a; b <= now + 10; b += 5) {
                auto last = t.back().n;
                for (std::size_t j = t.size(); j-- > 0;) if (t[j].t >= b) last = t[j].n;
                obs->get_step_numbers(i, tp(a), tp(b), st);
                if (st[0] != first || st[1] != last) mc::fail(mc::Str() << trail << ": steps of simulator " << i << " from " << a << " to " << b << ": " << st[0] << "-" << st[1] << ", should be " << first << "-" << last);
            }
            if (a > now) continue;
            const auto d = t.back().t - a;
            if (d < 0) continue;
            obs->get_step_numbers(i, duration(d), st);
            if (st[0] != first || st[1] != t.back().n) mc::fail(mc::Str() << trail << ": steps of simulator " << i << " in the last " << d << ": " << st[0] << "-" << st[1] << ", should be " << first << "-" << t.back().n);
        }
    }
    const int real[] = {0, 1, 3};
    for (int x : real)
        for (int y : real)
            for (step_number from = 0; from <= n; ++from)
                for (int size : {0, 1, 2, 3, (int)n + 3}) {
                    if ((!on.count(x) || !on.count(y) || on[x].s.empty() || on[y].s.empty()) && (from != n || size != 3)) continue;
                    std::vector<double> a(size), b(size);
                    std::size_t r;
                    try {
                        r = obs->get_synchronized_real_series(vars[x].simulator, vars[x].reference, vars[y].simulator, vars[y].reference, from, a, b);
                    } catch (const std::exception&) {
                        mc::check(!on.count(x) || !on.count(y) || on[x].s.empty() || on[y].s.empty(), trail + ": recorded samples of two variables cannot be read");
                        continue;
                    }
                    mc::check(on.count(x) && on.count(y), trail + ": samples of a variable which is not observed were read");
                    std::vector<std::pair<long, long>> should;
                    for (auto& p : on[x].s)
                        for (auto& q : on[y].s)
                            if (p.n == q.n && p.n >= from && p.n < from + size) should.push_back({p.v, q.v});
                    bool same = r == should.size();
                    for (std::size_t i = 0; same && i < r; ++i) same = to_num(a[i]) == should[i].first && to_num(b[i]) == should[i].second;
                    if (!same) mc::fail(mc::Str() << trail << ": wrong values for variables " << x << " and " << y << " from step " << from << ", at most " << size << ": " << r << " samples, should be " << should.size());
                }
    mc::outcome_hash(h);
}

// What cannot be observed is refused and leaves no trace.
void refusals()
{
    World w({1, 1});
    const std::size_t zero = 0;
    mc::check(!completes([&] { time_series_observer o(zero); }), "capacity 0 was accepted");
    auto obs = std::make_shared<time_series_observer>();
    w.exe->add_observer(obs);
    const int pre = mc::choose(2, "steps first");
    if (pre) w.exe->step();
    obs->start_observing({0, T_REAL, 0});
    const std::vector<variable_id> bad{{0, T_BOOL, 0}, {0, T_STR, 0}, {0, T_REAL, 9}, {0, T_INT, 9}, {7, T_REAL, 0}, {-1, T_INT, 0}};
    const auto b = mc::pick(bad, "variable");
    mc::transition();
    if (mc::choose(2, "start, stop") == 0) mc::check(!completes([&] { obs->start_observing(b); }), "observing an impossible variable was accepted");
    else completes([&] { obs->stop_observing(b); });
    w.exe->step();
    w.exe->step();
    mc::check(ask(*obs, {0, T_REAL, 0}, 1, 10).size() == 2, "samples of another variable are missing");
    if (b.simulator == 0 && b.type <= T_INT) {
        std::vector<Sample> s;
        completes([&] { s = ask(*obs, b, 0, 10); });
        mc::check(s.empty(), "samples of an impossible variable");
    }
    step_number st[3];
    double d[2];
    time_point ti[2];
    mc::check(!completes([&] { obs->get_real_samples(0, 0, 0, gsl::make_span(d, 2), gsl::make_span(st, 1), gsl::make_span(ti, 2)); }), "buffers of different sizes were accepted");
    mc::check(!completes([&] { obs->get_real_samples(0, 0, 0, gsl::make_span(d, 2), gsl::make_span(st, 2), gsl::make_span(ti, 1)); }), "buffers of different sizes were accepted");
}

#ifdef MC_SCHED
// Queries from another thread while stepping.
void concurrent(int kind, int steps, int cap, int queries)
{
    World w({1, 1});
    auto obs = std::make_shared<time_series_observer>(cap);
    w.exe->add_observer(obs);
    mc::quiet(true);
    obs->start_observing({0, T_REAL, 0});
    obs->start_observing({1, T_REAL, 3});
    obs->start_observing({0, T_INT, 0});
    w.exe->step();
    mc::quiet(false);
    std::vector<long> begun, done;
    std::string got;
    std::thread q([&] {
        step_number seen = 0;
        for (int k = 0; k < queries; ++k) {
            const long a = mc::stamp();
            step_number lo = -1, hi = -1;
            if (kind == 0 || kind == 1) {
                const variable_id v = kind ? variable_id{0, T_INT, 0} : variable_id{0, T_REAL, 0};
                auto s = ask(*obs, v, 0, 20);
                for (std::size_t i = 0; i < s.size(); ++i) {
                    mc::check(i == 0 || s[i].n == s[i - 1].n + 1, "steps missing in the middle:" + show(s));
                    mc::check(s[i].t == 500 + 10 * s[i].n, "a sample with the wrong time:" + show(s));
                    mc::check(s[i].v == (kind ? 11 : 1) + s[i].n, "a sample with a value of another step:" + show(s));
                }
                mc::check((int)s.size() <= cap, "more samples than the capacity:" + show(s));
                if (!s.empty()) lo = s.front().n, hi = s.back().n;
                mc::check((int)s.size() == std::min<step_number>(cap, hi + 1), "samples missing:" + show(s));
            } else if (kind == 2) {
                double x[20], y[20];
                const auto r = obs->get_synchronized_real_series(0, 0, 1, 3, 0, x, y);
                for (std::size_t i = 0; i < r; ++i) mc::check(y[i] - x[i] == 1300, mc::Str() << "values of different steps: " << x[i] << " " << y[i]);
                lo = hi = r ? (step_number)x[r - 1] - 1 : -1;
                // with a small capacity, the two series may have few steps in common at this moment
                if (cap == 100) mc::check((int)r >= (int)seen + 1, "samples missing");
                if (!r) continue;
            } else {
                step_number st[2];
                if (k % 2) obs->get_step_numbers(0, tp(500), tp(1000), st);
                else obs->get_step_numbers(0, duration(1000), st);
                lo = st[0], hi = st[1];
                mc::check(hi - lo + 1 <= cap && hi - lo + 1 >= std::min<step_number>(cap, hi + 1), "wrong range of steps");
            }
            const long b = mc::stamp();
            mc::check(hi >= seen, "an earlier query returned more recent samples");
            seen = hi;
            got += mc::Str() << lo << "-" << hi << " ";
            (void)a;
            (void)b;
        }
    });
    for (int k = 0; k < steps; ++k) w.exe->step();
    q.join();
    // nothing was lost
    auto s = ask(*obs, {0, T_REAL, 0}, 0, 20);
    mc::check((int)s.size() == std::min(cap, steps + 2) && s.back().n == steps + 1, "samples were lost:" + show(s));
    mc::outcome(got);
}
#endif
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C14";
    s.assumptions = {"sequentially consistent interleavings with data race detection; mock slaves", "observation is started and stopped by the stepping thread"};
    const bool t = mc::thorough();
#ifdef MC_SCHED
    const char* n[] = {"real_samples", "integer_samples", "synchronized_series", "step_numbers"};
    for (int k = 0; k < 4; ++k)
        for (int cap : {2, 100}) {
            auto& x = s.add(mc::Str() << n[k] << "_capacity" << cap, [=] { concurrent(k, t ? 4 : 3, cap, t ? 3 : 2); });
            x.sched = true;
            x.bound = t ? 6 : 4;
        }
#else
    s.add("sequences", [=] { sequences({1, 2}, 100, t ? 7 : 6, false); });
    s.add("sequences_capacity1", [=] { sequences({1, 2}, 1, t ? 6 : 5, false); });
    s.add("sequences_capacity2", [=] { sequences({1, 2}, 2, t ? 7 : 6, false); });
    s.add("sequences_capacity3", [=] { sequences({2, 3}, 3, t ? 7 : 6, false); });
    s.add("late", [=] { sequences({1, 2}, 100, t ? 6 : 5, true); });
    s.add("late_capacity2", [=] { sequences({1, 3}, 2, t ? 6 : 5, true); });
    s.add("refusals", refusals);
#endif
}
