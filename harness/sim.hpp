// Mock slaves, functions, observers and manipulators shared by the harnesses of the simulation core.
#pragma once
#include "mc.hpp"

#include "cosim/algorithm.hpp"
#include "cosim/execution.hpp"
#include "cosim/function/function.hpp"
#include "cosim/manipulator/manipulator.hpp"
#include "cosim/observer/observer.hpp"
#include "cosim/slave.hpp"

#include <boost/log/core.hpp>

#include <chrono>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim
{
using namespace cosim;

inline void quiet_logs()
{
    static bool once = [] { boost::log::core::get()->set_logging_enabled(false); return true; }();
    (void)once;
}

constexpr int NREF = 10;
constexpr variable_type T_REAL = variable_type::real, T_INT = variable_type::integer, T_BOOL = variable_type::boolean, T_STR = variable_type::string;
inline const std::vector<variable_type>& all_types()
{
    static const std::vector<variable_type> t{T_REAL, T_INT, T_BOOL, T_STR};
    return t;
}

/// What happened to a slave. `v` is the numeric meaning of the value (see to_num).
struct Call
{
    char op; // U setup, B begin simulation, D step, W write, R read, X this call failed
    int type;
    unsigned ref;
    long v;
    long long t, dt;
    bool operator==(const Call& o) const { return op == o.op && type == o.type && ref == o.ref && v == o.v && t == o.t && dt == o.dt; }
    std::string str() const
    {
        mc::Str s;
        s << op;
        if (op == 'W' || op == 'R') s << "(" << "ribs"[type] << ref << "=" << v << ")";
        if (op == 'D') s << "(" << t << "+" << dt << ")";
        if (op == 'U') s << "(" << t << ")";
        return s;
    }
};
inline std::string log_str(const std::vector<Call>& l)
{
    std::string s;
    for (auto& c : l) s += c.str() + " ";
    return s;
}

inline long to_num(double v) { return (long)v; }
inline long to_num(int v) { return v; }
inline long to_num(bool v) { return v; }
inline long to_num(const std::string& v) { return v.empty() ? 0 : std::strtol(v.c_str(), nullptr, 10); }
inline long to_num(std::string_view v) { return to_num(std::string(v)); }
template<typename T> T from_num(long v);
template<> inline double from_num<double>(long v) { return (double)v; }
template<> inline int from_num<int>(long v) { return (int)v; }
template<> inline bool from_num<bool>(long v) { return (v & 1) != 0; }
template<> inline std::string from_num<std::string>(long v) { return std::to_string(v); }
/// The number a variable of type t shows when it is given v.
inline long as_seen(variable_type t, long v) { return t == T_BOOL ? (v & 1) : v; }

inline scalar_value scalar(variable_type t, long v)
{
    switch (t) {
        case T_REAL: return from_num<double>(v);
        case T_INT: return from_num<int>(v);
        case T_BOOL: return from_num<bool>(v);
        default: return from_num<std::string>(v);
    }
}

struct failing_slave : std::runtime_error { using std::runtime_error::runtime_error; };

class Slave : public slave
{
public:
    int id = 0;
    std::vector<variable_description> vars;
    bool keepLog = true;
    std::vector<Call> log;
    // values by type and reference, as numbers
    long val[4][NREF] = {};
    int steps = 0;           // completed do_step calls
    int calls = 0;           // calls seen so far (model_description excluded)
    long long now = 0;
    long long lastEnd = 0;
    /// Value of output (type, ref); default depends on id, ref and completed steps only.
    std::function<long(const Slave&, int type, unsigned ref)> out;
    /// Called first in each call with its kind: U B D W R; may throw.
    std::function<void(Slave&, char op)> hook;
    /// Result of do_step.
    std::function<step_result(Slave&)> result;
    enum Phase { created, init, running } phase = created;
    mutable bool broken = false; // a call has thrown
    bool stepFailed = false;     // a step was not completed
    mutable bool busy = false;

    Slave& var(const std::string& name, unsigned ref, variable_type t, variable_causality c, std::optional<long> start = std::nullopt,
        variable_variability vb = variable_variability::discrete)
    {
        vars.push_back(variable_description{name, ref, t, c, vb, start ? std::optional<scalar_value>(scalar(t, *start)) : std::nullopt});
        if (start) val[(int)t][ref] = as_seen(t, *start);
        return *this;
    }
    /// one input "<p>In<ref>" and output "<p>Out<ref>" etc. of each type in `types`
    Slave& standard(const std::vector<variable_type>& types = all_types())
    {
        const char* pre[] = {"real", "int", "bool", "string"};
        for (auto t : types) {
            var(std::string(pre[(int)t]) + "Out", 0, t, variable_causality::output);
            var(std::string(pre[(int)t]) + "In", 1, t, variable_causality::input, 0);
        }
        return *this;
    }

    long number(int type, unsigned ref) const
    {
        for (auto& v : vars)
            if ((int)v.type == type && v.reference == ref) {
                if (v.causality == variable_causality::output || v.causality == variable_causality::calculated_parameter || v.causality == variable_causality::local)
                    return as_seen((variable_type)type, out ? out(*this, type, ref) : id * 1000 + (long)ref * 100 + type * 10 + 1 + steps);
                return val[type][ref];
            }
        mc::fail(mc::Str() << "slave " << id << ": variable with type " << type << " and reference " << ref << " does not exist but was read");
    }
    bool exists(int type, unsigned ref) const
    {
        for (auto& v : vars)
            if ((int)v.type == type && v.reference == ref) return true;
        return false;
    }

    cosim::model_description model_description() const override
    {
        cosim::model_description md;
        md.name = "mock" + std::to_string(id);
        md.uuid = "uuid-" + std::to_string(id);
        md.variables = vars;
        return md;
    }

    struct Guard
    {
        const Slave& s;
        Guard(const Slave& s_, const char* what) : s(s_)
        {
            if (s.busy) mc::fail(mc::Str() << "slave " << s.id << ": " << what << " called while another call is in progress");
            if (s.broken) mc::fail(mc::Str() << "slave " << s.id << ": " << what << " called after one of its calls had failed");
            s.busy = true;
        }
        ~Guard() { s.busy = false; }
    };
    void enter(char op)
    {
        ++calls;
        if (mc::tracing()) mc::note(mc::Str() << "slave " << id << " call " << calls << " " << op);
        mc::transition();
        mc::point();
        if (hook) {
            try {
                hook(*this, op);
            } catch (...) {
                broken = true;
                if (keepLog) log.push_back({'X', 0, 0, 0, 0, 0});
                throw;
            }
        }
    }

    void setup(time_point startTime, std::optional<time_point>, std::optional<double>) override
    {
        Guard g(*this, "setup");
        mc::check(phase == created, "setup called more than once");
        phase = init;
        now = lastEnd = startTime.time_since_epoch().count();
        if (keepLog) log.push_back({'U', 0, 0, 0, now, 0});
        enter('U');
    }
    void start_simulation() override
    {
        Guard g(*this, "start_simulation");
        mc::check(phase == init, "start_simulation called before setup or more than once");
        phase = running;
        if (keepLog) log.push_back({'B', 0, 0, 0, 0, 0});
        enter('B');
    }
    void end_simulation() override
    {
        Guard g(*this, "end_simulation");
    }
    step_result do_step(time_point t, duration dt) override
    {
        Guard g(*this, "do_step");
        mc::check(phase == running, "do_step called before start_simulation");
        mc::check(!stepFailed, "do_step called again after a step that was not completed");
        const auto tt = t.time_since_epoch().count();
        mc::check(tt == lastEnd, mc::Str() << "slave " << id << " stepped from " << tt << " although its previous step ended at " << lastEnd);
        mc::check(dt.count() > 0, "step of no length");
        if (keepLog) log.push_back({'D', 0, 0, 0, tt, dt.count()});
        enter('D');
        auto r = result ? result(*this) : step_result::complete;
        if (r != step_result::complete) {
            stepFailed = true;
            return r;
        }
        ++steps;
        lastEnd = now = tt + dt.count();
        return r;
    }

    template<typename T>
    void read(int type, gsl::span<const value_reference> r, gsl::span<T> v) const
    {
        auto& self = const_cast<Slave&>(*this);
        Guard g(*this, "get_variables");
        mc::check(phase != created, "variables read before setup");
        mc::check((std::size_t)r.size() == (std::size_t)v.size(), "get_variables with mismatching sizes");
        self.enter('R');
        for (std::size_t i = 0; i < (std::size_t)r.size(); ++i) {
            const long n = number(type, r[i]);
            v[i] = from_num<T>(n);
            if (keepLog) self.log.push_back({'R', type, r[i], n, 0, 0});
        }
    }
    template<typename T>
    void write(int type, gsl::span<const value_reference> r, gsl::span<const T> v)
    {
        Guard g(*this, "set_variables");
        mc::check(phase != created, "variables written before setup");
        mc::check((std::size_t)r.size() == (std::size_t)v.size(), "set_variables with mismatching sizes");
        enter('W');
        for (std::size_t i = 0; i < (std::size_t)r.size(); ++i) {
            if (!exists(type, r[i]))
                mc::fail(mc::Str() << "slave " << id << ": variable with type " << type << " and reference " << r[i] << " does not exist but was written");
            val[type][r[i]] = to_num(v[i]);
            if (keepLog) log.push_back({'W', type, r[i], to_num(v[i]), 0, 0});
        }
    }
    void get_real_variables(gsl::span<const value_reference> r, gsl::span<double> v) const override { read(0, r, v); }
    void get_integer_variables(gsl::span<const value_reference> r, gsl::span<int> v) const override { read(1, r, v); }
    void get_boolean_variables(gsl::span<const value_reference> r, gsl::span<bool> v) const override { read(2, r, v); }
    void get_string_variables(gsl::span<const value_reference> r, gsl::span<std::string> v) const override { read(3, r, v); }
    void set_real_variables(gsl::span<const value_reference> r, gsl::span<const double> v) override { write(0, r, v); }
    void set_integer_variables(gsl::span<const value_reference> r, gsl::span<const int> v) override { write(1, r, v); }
    void set_boolean_variables(gsl::span<const value_reference> r, gsl::span<const bool> v) override { write(2, r, v); }
    void set_string_variables(gsl::span<const value_reference> r, gsl::span<const std::string> v) override { write(3, r, v); }
};

inline std::shared_ptr<Slave> make_slave(int id, const std::vector<variable_type>& types = all_types())
{
    auto s = std::make_shared<Slave>();
    s->id = id;
    s->standard(types);
    return s;
}

/// A function with `nIn` inputs and one output of each type: out = base + sum(in * (i+1)).
class Fun : public function
{
public:
    int id = 0, nIn = 1;
    long base = 0;
    long in[4][NREF] = {};
    long outv[4] = {};
    std::string strOut;
    int calculations = 0;
    std::function<void(Fun&)> hook;
    mutable bool busy = false;
    struct Guard
    {
        const Fun& f;
        Guard(const Fun& f_) : f(f_)
        {
            if (f.busy) mc::fail("function used by two threads at a time");
            f.busy = true;
        }
        ~Guard() { f.busy = false; }
    };
    function_description description() const override
    {
        function_description d;
        function_io_group_description gi{"in", 1, {}}, go{"out", 1, {}};
        const char* nm[] = {"r", "i", "b", "s"};
        for (int t = 0; t < 4; ++t) {
            gi.ios.push_back(function_io_description{nm[t], (variable_type)t, variable_causality::input, nIn});
            go.ios.push_back(function_io_description{nm[t], (variable_type)t, variable_causality::output, 1});
        }
        d.io_groups = {gi, go};
        return d;
    }
    static function_io_reference in_ref(variable_type t, int i = 0) { return {0, 0, (int)t, i}; }
    static function_io_reference out_ref(variable_type t) { return {1, 0, (int)t, 0}; }
    void put(int type, const function_io_reference& r, long v)
    {
        Guard g(*this);
        mc::point();
        mc::check(r.group == 0 && r.group_instance == 0 && r.io == type && r.io_instance >= 0 && r.io_instance < nIn, "function input set with wrong reference or type");
        in[type][r.io_instance] = v;
    }
    long take(int type, const function_io_reference& r) const
    {
        Guard g(*this);
        mc::point();
        mc::check(r.group == 1 && r.group_instance == 0 && r.io == type && r.io_instance == 0, "function output read with wrong reference or type");
        return outv[type];
    }
    void set_real(const function_io_reference& r, double v) override { put(0, r, to_num(v)); }
    void set_integer(const function_io_reference& r, int v) override { put(1, r, to_num(v)); }
    void set_boolean(const function_io_reference& r, bool v) override { put(2, r, to_num(v)); }
    void set_string(const function_io_reference& r, std::string_view v) override { put(3, r, to_num(v)); }
    double get_real(const function_io_reference& r) const override { return from_num<double>(take(0, r)); }
    int get_integer(const function_io_reference& r) const override { return from_num<int>(take(1, r)); }
    bool get_boolean(const function_io_reference& r) const override { return from_num<bool>(take(2, r)); }
    std::string_view get_string(const function_io_reference& r) const override
    {
        const_cast<Fun*>(this)->strOut = from_num<std::string>(take(3, r));
        return strOut;
    }
    static long compute(int type, long base, const long* in, int n)
    {
        long s = base;
        for (int i = 0; i < n; ++i) s += in[i] * (i + 1);
        return as_seen((variable_type)type, s);
    }
    void calculate() override
    {
        Guard g(*this);
        ++calculations;
        if (hook) hook(*this);
        for (int t = 0; t < 4; ++t) outv[t] = compute(t, base, in[t], nIn);
    }
};

struct Obs : observer
{
    std::function<void(const std::string&)> on;
    void ev(const std::string& s) { mc::transition(); if (on) on(s); }
    std::function<void(simulator_index, observable*, time_point)> onAdded;
    std::function<void(step_number, time_point)> onInit;
    std::function<void(step_number, duration, time_point)> onStep;
    std::function<void(simulator_index, step_number, duration, time_point)> onSimStep;
    void simulator_added(simulator_index i, observable* o, time_point t) override
    {
        if (onAdded) onAdded(i, o, t);
        ev(mc::Str() << "added(" << i << "," << o->name() << "," << t.time_since_epoch().count() << ")");
    }
    void simulator_removed(simulator_index i, time_point) override { ev(mc::Str() << "removed(" << i << ")"); }
    void variables_connected(variable_id o, variable_id i, time_point) override { ev(mc::Str() << "connected(" << o.simulator << "." << o.reference << "," << i.simulator << "." << i.reference << ")"); }
    void variable_disconnected(variable_id i, time_point) override { ev(mc::Str() << "disconnected(" << i.simulator << "." << i.reference << ")"); }
    void simulation_initialized(step_number n, time_point t) override
    {
        if (onInit) onInit(n, t);
        ev(mc::Str() << "init(" << n << "," << t.time_since_epoch().count() << ")");
    }
    void step_complete(step_number n, duration d, time_point t) override
    {
        if (onStep) onStep(n, d, t);
        ev(mc::Str() << "step(" << n << "," << d.count() << "," << t.time_since_epoch().count() << ")");
    }
    void simulator_step_complete(simulator_index i, step_number n, duration d, time_point t) override
    {
        if (onSimStep) onSimStep(i, n, d, t);
        ev(mc::Str() << "simstep(" << i << "," << n << "," << d.count() << "," << t.time_since_epoch().count() << ")");
    }
};

struct Man : manipulator
{
    std::function<void(const std::string&)> on;
    std::function<void(simulator_index, manipulable*)> onAdded;
    std::function<void(time_point)> onStep;
    void simulator_added(simulator_index i, manipulable* m, time_point t) override
    {
        if (onAdded) onAdded(i, m);
        if (on) on(mc::Str() << "added(" << i << "," << m->name() << "," << t.time_since_epoch().count() << ")");
    }
    void simulator_removed(simulator_index i, time_point) override { if (on) on(mc::Str() << "removed(" << i << ")"); }
    void step_commencing(time_point t) override
    {
        if (onStep) onStep(t);
        if (on) on(mc::Str() << "commencing(" << t.time_since_epoch().count() << ")");
    }
};

inline time_point tp(long long ns) { return time_point(duration(ns)); }
inline long long ns(time_point t) { return t.time_since_epoch().count(); }

/// Runs f; returns true if it completed, false if it threw a std::exception (message in *what).
template<typename F>
bool completes(F&& f, std::string* what = nullptr)
{
    try {
        f();
        return true;
    } catch (const std::exception& e) {
        if (what) *what = e.what();
        return false;
    }
}
} // namespace sim
