// C10: reads, writes and modifiers on a simulator's variables compose correctly.
#include "sim.hpp"
#include "cosim/slave_simulator.hpp"
#include <map>
#include <set>
using namespace sim;

namespace
{
template<typename T> struct Api;
#define API(T, VIEW, name, TYPE) \
    template<> struct Api<T> \
    { \
        static constexpr auto type = TYPE; \
        using view = VIEW; \
        static long get(slave_simulator& s, value_reference r) { return to_num(s.get_##name(r)); } \
        static void set(slave_simulator& s, value_reference r, long v) { const T x = from_num<T>(v); s.set_##name(r, x); } \
        static void in_mod(slave_simulator& s, value_reference r, std::function<T(VIEW, duration)> m) { s.set_##name##_input_modifier(r, m); } \
        static void out_mod(slave_simulator& s, value_reference r, std::function<T(VIEW, duration)> m) { s.set_##name##_output_modifier(r, m); } \
        static const std::unordered_set<value_reference>& modified(slave_simulator& s) { return s.get_modified_##name##_variables(); } \
    }
API(double, double, real, T_REAL);
API(int, int, integer, T_INT);
API(bool, bool, boolean, T_BOOL);
API(std::string, std::string_view, string, T_STR);

// modifier kinds; dt is the step size in ns
long mod(int kind, long v, long dt)
{
    switch (kind) {
        case 1: return v + 1;
        case 2: return 10 * v + dt + 3; // depends on the step size
        default: return v;
    }
}

struct Var
{
    bool getExposed = false, setExposed = false;
    int inMod = 0, outMod = 0;
    long last = 0;        // last value set (or start value)
    bool pending = false; // set since the slave last got it
    bool mayWrite = false; // modifier removed: must be restored
    bool setThisRound = false;
    long read = 0;
    bool fresh = true;    // `read` is known
    long inCalls = 0, outCalls = 0;
    long inWant = 0, outWant = 0;
};

template<typename T>
void run(int depth, bool preExposed, int startPhase)
{
    using A = Api<T>;
    quiet_logs();
    const auto type = A::type;
    auto sl = std::make_shared<Slave>();
    sl->id = 1;
    // two outputs (0, 2) and two inputs (1, 3), one of them with a start value; another type has the same references
    const auto other = type == T_REAL ? T_INT : T_REAL;
    for (auto t : {type, other}) {
        const std::string p = t == type ? "" : "other";
        sl->var(p + "o0", 0, t, variable_causality::output);
        sl->var(p + "o2", 2, t, variable_causality::output);
        sl->var(p + "i1", 1, t, variable_causality::input, 5);
        sl->var(p + "i3", 3, t, variable_causality::input);
    }
    sl->out = [](const Slave& x, int, unsigned ref) { return (x.val[(int)A::type][1] + 1) * (ref + 1) + 7 * x.steps; };
    slave_simulator s(sl, "s");
    Var v[4];
    v[1].last = as_seen(type, 5);
    auto seen = [&](long n) { return as_seen(type, n); };
    int phase = 0; // 0 created, 1 initialisation, 2 simulation
    long long now = 0;
    std::string trail;

    auto modifier = [&](bool input, int r, int kind) -> std::function<T(typename A::view, duration)> {
        if (!kind) return nullptr;
        return [&v, input, r, kind](typename A::view x, duration dt) {
            ++(input ? v[r].inCalls : v[r].outCalls);
            return from_num<T>(mod(kind, to_num(x), dt.count()));
        };
    };
    // after the slave's values were transferred with step size dt
    auto gotten = [&](long dt) {
        for (int r = 0; r < 4; ++r) {
            if (!v[r].getExposed) continue;
            v[r].read = seen(mod(v[r].outMod, seen(sl->number((int)type, r)), dt));
            v[r].fresh = true;
            if (v[r].outMod) ++v[r].outWant;
        }
    };
    // what was written to the slave since `from` must be exactly what was pending
    auto written = [&](std::size_t from, long dt) {
        for (int r : {1, 3}) {
            int n = 0;
            long val = 0;
            for (std::size_t i = from; i < sl->log.size(); ++i)
                if (sl->log[i].op == 'W') {
                    mc::check(sl->log[i].type == (int)type, "a variable of another type was written");
                    mc::check(sl->log[i].ref == 1 || sl->log[i].ref == 3, "an output was written");
                    if (sl->log[i].ref == (unsigned)r) { ++n; val = sl->log[i].v; }
                }
            const bool must = v[r].pending || v[r].inMod || v[r].mayWrite;
            const long want = seen(mod(v[r].inMod, v[r].last, dt));
            if (must) mc::check(n == 1 && val == want, mc::Str() << trail << ": input " << r << " was written " << n << " times" << (n ? " with " + std::to_string(val) : "") << " instead of once with " << want);
            else mc::check(n == 0, mc::Str() << trail << ": input " << r << " was written without a reason");
            if (v[r].inMod) ++v[r].inWant;
            v[r].pending = v[r].mayWrite = false;
        }
    };
    auto verify = [&] {
        std::set<value_reference> want;
        for (int r = 0; r < 4; ++r) {
            if (v[r].inMod || v[r].outMod) want.insert(r);
            if (v[r].getExposed && v[r].fresh) {
                long got = 0;
                std::string e;
                mc::check(completes([&] { got = A::get(s, r); }, &e), trail + ": reading an exposed variable failed: " + e);
                mc::check(got == v[r].read, mc::Str() << trail << ": variable " << r << " reads " << got << " instead of " << v[r].read);
            } else if (!v[r].getExposed) {
                mc::check(!completes([&] { (void)A::get(s, r); }), trail + ": an unexposed variable was read");
            }
            mc::check(v[r].inCalls == v[r].inWant, mc::Str() << trail << ": input modifier of " << r << " called " << v[r].inCalls << " times instead of " << v[r].inWant);
            mc::check(v[r].outCalls == v[r].outWant, mc::Str() << trail << ": output modifier of " << r << " called " << v[r].outCalls << " times instead of " << v[r].outWant);
        }
        const auto& m = A::modified(s);
        mc::check(std::set<value_reference>(m.begin(), m.end()) == want, trail + ": wrong set of modified variables");
    };
    auto advance = [&] {
        const auto from = sl->log.size();
        if (phase == 0) {
            s.setup(tp(now), std::nullopt, std::nullopt);
            phase = 1;
            gotten(0);
        } else if (phase == 1) {
            s.start_simulation();
            phase = 2;
            written(from, 0);
            gotten(0);
        }
    };
    auto step = [&](long dt) {
        const auto from = sl->log.size();
        mc::check(s.do_step(tp(now), duration(dt)) == step_result::complete, "step failed");
        now += dt;
        // writes come before the step, reads after it
        std::size_t d = 0, lastW = 0, firstR = sl->log.size();
        for (std::size_t i = from; i < sl->log.size(); ++i) {
            if (sl->log[i].op == 'D') d = i;
            if (sl->log[i].op == 'W') lastW = i;
            if (sl->log[i].op == 'R' && firstR == sl->log.size()) firstR = i;
        }
        mc::check(lastW < d || lastW == 0, "a value was written after the step");
        mc::check(firstR > d, "a value was read before the step");
        written(from, dt);
        gotten(dt);
    };
    auto expose_get = [&](int r) {
        s.expose_for_getting(type, r);
        if (!v[r].getExposed && phase > 0) v[r].read = seen(sl->number((int)type, r)); // at once
        if (!v[r].getExposed && phase == 0) v[r].fresh = false; // nothing to read yet
        v[r].getExposed = true;
    };
    auto expose_set = [&](int r) {
        s.expose_for_setting(type, r);
        v[r].setExposed = true;
    };
    auto put = [&](int r, long x) {
        const bool ok = completes([&] { A::set(s, r, x); });
        mc::check(ok == v[r].setExposed, trail + (ok ? ": an unexposed variable was set" : ": an exposed variable could not be set"));
        if (ok) { v[r].last = seen(x); v[r].pending = true; }
    };
    auto in_mod = [&](int r, int kind) {
        const bool ok = completes([&] { A::in_mod(s, r, modifier(true, r, kind)); });
        mc::check(ok == v[r].setExposed, trail + ": input modifier accepted for an unexposed variable, or refused for an exposed one");
        if (!ok) return;
        if (!kind && v[r].inMod) v[r].mayWrite = true;
        else if (!kind) v[r].pending = true; // nothing to remove: writing the last value again is harmless
        v[r].inMod = kind;
    };
    auto out_mod = [&](int r, int kind) {
        const bool ok = completes([&] { A::out_mod(s, r, modifier(false, r, kind)); });
        mc::check(ok == v[r].getExposed, trail + ": output modifier accepted for an unexposed variable, or refused for an exposed one");
        if (ok) v[r].outMod = kind;
    };

    if (preExposed) {
        for (int r : {0, 2}) expose_get(r);
        for (int r : {1, 3}) expose_set(r);
        s.expose_for_getting(other, 0);
        s.expose_for_setting(other, 1);
    }
    for (int p = 0; p < startPhase; ++p) advance();
    for (int d = 0; d < depth; ++d) {
        int op = mc::choose(preExposed ? 14 : 18, "operation");
        trail += std::to_string(op) + " ";
        if (mc::tracing()) mc::note("operation " + std::to_string(op));
        mc::transition();
        switch (op) {
            case 0: put(1, 4); break;
            case 1: put(1, 8 + d); break;
            case 2: put(3, 2); break;
            case 3: in_mod(1, 1); break;
            case 4: in_mod(1, 2); break;
            case 5: if (!v[1].inMod) mc::discard(); in_mod(1, 0); break;
            case 6: in_mod(3, 1); break;
            case 7: if (!v[3].inMod) mc::discard(); in_mod(3, 0); break;
            case 8: out_mod(0, 2); break;
            case 9: if (!v[0].outMod) mc::discard(); out_mod(0, 0); break;
            case 10: out_mod(2, 1); break;
            case 11:
                if (phase == 2) step(10);
                else advance();
                break;
            case 12:
                if (phase == 2) step(4);
                else if (phase == 1) {
                    const auto from = sl->log.size();
                    s.do_iteration();
                    written(from, 0);
                    gotten(0);
                } else mc::discard();
                break;
            case 13:
                expose_get(0);
                if (preExposed) { expose_set(1); expose_set(3); }
                break;
            case 14: expose_get(2); break;
            case 15: expose_set(1); break;
            case 16: expose_set(3); break;
            case 17: expose_get(1); break;
        }
        verify();
    }
    // nothing outstanding is lost
    while (phase < 2) { advance(); verify(); }
    trail += "| ";
    step(10);
    verify();
    step(10);
    verify();
    mc::outcome(mc::Str() << v[0].inMod << v[1].inMod << v[1].last << v[3].last);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C10";
    s.assumptions = {"the simulator of one mock slave is driven directly, as the co-simulation algorithm, observers and manipulators drive it"};
    const bool t = mc::thorough();
    auto add = [&](const std::string& name, auto f) { s.add(name, f); };
    add("real", [t] { run<double>(t ? 6 : 5, true, 2); });
    add("real_initialisation", [t] { run<double>(t ? 6 : 5, true, 0); });
    add("real_exposure", [t] { run<double>(t ? 5 : 4, false, 1); });
    add("integer", [t] { run<int>(t ? 5 : 4, true, 2); });
    add("integer_initialisation", [t] { run<int>(t ? 5 : 4, true, 0); });
    add("integer_exposure", [t] { run<int>(t ? 5 : 4, false, 2); });
    add("boolean", [t] { run<bool>(t ? 5 : 4, true, 2); });
    add("boolean_initialisation", [t] { run<bool>(t ? 5 : 4, true, 0); });
    add("boolean_exposure", [t] { run<bool>(t ? 5 : 4, false, 2); });
    add("string", [t] { run<std::string>(t ? 5 : 4, true, 2); });
    add("string_initialisation", [t] { run<std::string>(t ? 5 : 4, true, 0); });
    add("string_exposure", [t] { run<std::string>(t ? 5 : 4, false, 2); });
}
