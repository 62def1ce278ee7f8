// C28: initial values reach the end of every acyclic chain before the first step.
#include "mc.hpp"
#include "sim.hpp"
#include <algorithm>
#include <map>

namespace
{
using namespace sim;
constexpr unsigned OUT = 0, IN = 1, PAR = 2;
const char* const tn[] = {"real", "int", "bool", "string"};

/// out = 2 * in + par + id until the simulation starts; then it does not follow the inputs before the first step,
/// but may have another value (by `jump`) from the start on
long jumped(int type, long v, long jump) { return type == (int)T_BOOL ? (jump ? !v : v) : v + jump; }
std::shared_ptr<Slave> feedthrough(int id, long jump = 0)
{
    auto s = std::make_shared<Slave>();
    s->id = id;
    s->keepLog = true;
    for (auto t : all_types()) {
        const std::string n = tn[(int)t];
        s->var(n + "Out", OUT, t, variable_causality::output);
        s->var(n + "In", IN, t, variable_causality::input, 10 * id + (int)t);
        s->var(n + "Par", PAR, t, variable_causality::parameter, 5, variable_variability::tunable);
    }
    auto frozen = std::make_shared<std::array<long, 4>>();
    auto is = std::make_shared<bool>(false);
    auto f = [id](const Slave& x, int type) { return (type == (int)T_BOOL ? x.val[type][IN] : 2 * x.val[type][IN]) + x.val[type][PAR] + id; };
    s->hook = [frozen, is, f, jump](Slave& x, char op) {
        if (op == 'B') {
            for (int t = 0; t < 4; ++t) (*frozen)[t] = jumped(t, as_seen((variable_type)t, f(x, t)), jump);
            *is = true;
        }
        if (op == 'D') *is = false;
    };
    s->out = [frozen, is, f](const Slave& x, int type, unsigned) { return *is ? (*frozen)[type] : f(x, type); };
    return s;
}
long feed(int id, int type, long in, long par) { return as_seen((variable_type)type, (type == (int)T_BOOL ? in : 2 * in) + par + id); }

void set_initial(execution& e, int sim, variable_type t, unsigned ref, long v)
{
    switch (t) {
        case T_REAL: e.set_real_initial_value(sim, ref, from_num<double>(v)); break;
        case T_INT: e.set_integer_initial_value(sim, ref, from_num<int>(v)); break;
        case T_BOOL: e.set_boolean_initial_value(sim, ref, from_num<bool>(v)); break;
        default: e.set_string_initial_value(sim, ref, from_num<std::string>(v));
    }
}
/// Values of an input at the calls that start the simulation and the first step
struct Watch
{
    std::shared_ptr<Slave> s;
    long atB[4][3] = {}, atD[4][3] = {};
    int seen = 0;
    void install()
    {
        auto old = s->hook;
        s->hook = [this, old](Slave& x, char op) {
            if (op == 'B' || (op == 'D' && x.steps == 0)) {
                ++seen;
                for (int t = 0; t < 4; ++t)
                    for (unsigned r : {IN, PAR}) (op == 'B' ? atB : atD)[t][r] = x.val[t][r];
            }
            if (old) old(x, op);
        };
    }
};
std::shared_ptr<fixed_step_algorithm> algo(int workers) { return std::make_shared<fixed_step_algorithm>(duration(100), workers); }

/// All forests of n simulators, edges directly or through functions, in all orders of registration
void chains(int n, int inits, bool fine, long jump = 0)
{
    quiet_logs();
    // topological order
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i) order[i] = i;
    for (int i = 0; i + 1 < n; ++i) std::swap(order[i], order[i + mc::choose(n - i, "order")]);
    execution e(tp(0), algo(fine ? mc::choose(2, "workers") : 0));
    std::vector<Watch> w(n);
    std::vector<int> hint(n);
    for (int i = 0; i < n; ++i) {
        w[i].s = feedthrough(i + 1, jump * (i + 1));
        w[i].install();
        const int h = fine ? 1 + mc::choose(2, "slow") : 1 + (i == 1);
        hint[i] = h;
        mc::check(e.add_slave(w[i].s, "s" + std::to_string(i), duration(100 * h)) == i, "index");
    }
    // source of each, -1 if there is none; function in between, -1 if there is none
    std::vector<int> src(n, -1), via(n, -1);
    struct E { int from, to, fun; };
    std::vector<E> edges;
    int functions = 0;
    for (int k = 1; k < n; ++k) {
        const int to = order[k], s = mc::choose(k + 1, "source");
        if (s == 0) continue;
        src[to] = order[s - 1];
        if (mc::choose(2, "through a function")) via[to] = functions++;
        edges.push_back({src[to], to, via[to]});
    }
    std::vector<std::shared_ptr<Fun>> funs;
    for (int i = 0; i < functions; ++i) {
        auto f = std::make_shared<Fun>();
        f->id = i;
        f->base = 7 + i;
        mc::check(e.add_function(f) == i, "index of function");
        funs.push_back(f);
    }
    // initial values: none, one of the simulators or all of them
    const int who = mc::choose(inits, "initial values");
    std::vector<char> init(n, 0), par(n, 0);
    if (who > 0) {
        const int k = who - 1;
        for (int i = 0; i < n; ++i) {
            init[i] = inits == (1 << n) ? (who >> i) & 1 : k == i || k == n;
            par[i] = init[i];
        }
    }
    const bool first = mc::choose(2, "initial values before connections");
    auto values = [&] {
        for (int i = 0; i < n; ++i)
            for (auto t : all_types()) {
                if (init[i]) set_initial(e, i, t, IN, 301 + 10 * i);
                if (par[i]) set_initial(e, i, t, PAR, 22 + i);
            }
    };
    if (first) values();
    if (mc::choose(2, "connections reversed")) std::reverse(edges.begin(), edges.end());
    for (auto& x : edges)
        for (auto t : all_types()) {
            if (x.fun < 0) e.connect_variables(variable_id{x.from, t, OUT}, variable_id{x.to, t, IN});
            else {
                e.connect_variables(variable_id{x.from, t, OUT}, function_io_id{x.fun, t, Fun::in_ref(t)});
                e.connect_variables(function_io_id{x.fun, t, Fun::out_ref(t)}, variable_id{x.to, t, IN});
            }
        }
    if (!first) values();
    // an observer sees the outputs which belong to them
    auto obs = std::make_shared<Obs>();
    std::vector<observable*> seen;
    bool initialised = false;
    std::map<std::pair<int, int>, long> outputs;
    obs->onAdded = [&](simulator_index, observable* o, time_point) {
        seen.push_back(o);
        for (auto t : all_types()) o->expose_for_getting(t, OUT);
    };
    obs->onInit = [&](step_number, time_point) {
        initialised = true;
        for (int i = 0; i < n; ++i) {
            outputs[{i, 0}] = to_num(seen[i]->get_real(OUT));
            outputs[{i, 1}] = to_num(seen[i]->get_integer(OUT));
            outputs[{i, 2}] = to_num(seen[i]->get_boolean(OUT));
            outputs[{i, 3}] = to_num(seen[i]->get_string(OUT));
        }
    };
    e.add_observer(obs);
    e.step();
    // what should be there
    std::vector<std::array<long, 4>> in(n), out(n);
    mc::check(initialised, "no simulation_initialized notification");
    for (int i : order)
        for (int t = 0; t < 4; ++t) {
            const auto vt = (variable_type)t;
            long v = as_seen(vt, init[i] ? 301 + 10 * i : 10 * (i + 1) + t), d = v;
            if (src[i] >= 0) {
                v = out[src[i]][t];
                // outputs which change as the simulation starts
                d = jumped(t, v, jump * (src[i] + 1));
                if (via[i] >= 0) v = Fun::compute(t, 7 + via[i], &v, 1), d = Fun::compute(t, 7 + via[i], &d, 1);
            }
            const long p = as_seen(vt, par[i] ? 22 + i : 5);
            in[i][t] = v;
            out[i][t] = feed(i + 1, t, v, p);
            auto what = [&] { return std::string(mc::Str() << "slave " << i << " type " << t << " (log " << log_str(w[i].s->log) << ")"); };
            mc::check(w[i].seen == 2, "slave not started or stepped");
            mc::check(w[i].atB[t][IN] == v, what() + ": input is " + std::to_string(w[i].atB[t][IN]) + " instead of " + std::to_string(v) + " when the simulation starts");
            mc::check(w[i].atD[t][IN] == d, what() + ": input is " + std::to_string(w[i].atD[t][IN]) + " instead of " + std::to_string(d) + " at the first step");
            mc::check(w[i].atB[t][PAR] == p && w[i].atD[t][PAR] == p, what() + ": parameter");
            const long seenOut = jumped(t, out[i][t], jump * (i + 1));
            mc::check(outputs[{i, t}] == seenOut, what() + ": observed output is " + std::to_string(outputs[{i, t}]) + " instead of " + std::to_string(seenOut));
        }
    mc::outcome(mc::Str() << edges.size() << functions << who);
}

/// Diamonds: two sources per function, two functions in a row
void diamonds()
{
    quiet_logs();
    // a -> b, a -> c, function(b, c) -> d; registered in all orders
    std::vector<int> pos = {0, 1, 2, 3};
    for (int i = 0; i < 3; ++i) std::swap(pos[i], pos[i + mc::choose(4 - i, "order")]);
    execution e(tp(0), algo(mc::choose(2, "workers")));
    std::vector<Watch> w(4);
    for (int i = 0; i < 4; ++i) {
        w[i].s = feedthrough(i + 1);
        w[i].install();
        e.add_slave(w[i].s, "s" + std::to_string(i), duration(100 * (1 + mc::choose(2, "slow"))));
    }
    const int a = pos[0], b = pos[1], c = pos[2], d = pos[3];
    auto f = std::make_shared<Fun>(), g = std::make_shared<Fun>();
    f->nIn = 2;
    g->base = 3;
    const bool swap = mc::choose(2, "order of functions");
    if (swap) e.add_function(g);
    const auto fi = e.add_function(f);
    const auto gi = swap ? 0 : e.add_function(g);
    set_initial(e, a, T_REAL, IN, 77);
    for (auto t : all_types()) {
        e.connect_variables(variable_id{b, t, OUT}, function_io_id{fi, t, Fun::in_ref(t, 0)});
        e.connect_variables(variable_id{c, t, OUT}, function_io_id{fi, t, Fun::in_ref(t, 1)});
        e.connect_variables(function_io_id{fi, t, Fun::out_ref(t)}, variable_id{d, t, IN});
        e.connect_variables(variable_id{a, t, OUT}, variable_id{b, t, IN});
        e.connect_variables(variable_id{a, t, OUT}, function_io_id{gi, t, Fun::in_ref(t)});
        e.connect_variables(function_io_id{gi, t, Fun::out_ref(t)}, variable_id{c, t, IN});
    }
    e.step();
    for (int t = 0; t < 4; ++t) {
        const auto vt = (variable_type)t;
        const long p = as_seen(vt, 5);
        const long va = t == 0 ? 77 : as_seen(vt, 10 * (a + 1) + t), vb = feed(a + 1, t, va, p), vc = Fun::compute(t, 3, &vb, 1);
        const long x[2] = {feed(b + 1, t, vb, p), feed(c + 1, t, vc, p)}, vd = Fun::compute(t, 0, x, 2);
        const std::pair<int, long> all[] = {{a, va}, {b, vb}, {c, vc}, {d, vd}};
        for (auto [i, v] : all) mc::check(w[i].atB[t][IN] == v && w[i].atD[t][IN] == v, mc::Str() << "slave " << i << " type " << t << ": " << w[i].atB[t][IN] << ", " << w[i].atD[t][IN] << " instead of " << v);
    }
}

/// Everything that may be done before and after the first step
void histories(int depth)
{
    quiet_logs();
    execution e(tp(0), algo(0));
    Watch w[2];
    for (int i = 0; i < 2; ++i) {
        w[i].s = feedthrough(i + 1);
        w[i].install();
        e.add_slave(w[i].s, "s" + std::to_string(i));
    }
    const auto t = all_types()[mc::choose(4, "type")];
    const int ti = (int)t;
    // state of the reference
    std::map<std::pair<int, unsigned>, long> init; // simulator, reference
    bool connected[2] = {};                       // input of each, from the other
    bool started = false;
    int steps = 0;
    std::string log;
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose(12, "operation");
        if (op == 0) break;
        mc::transition();
        auto expect = [&](bool ok, auto f, const char* what) {
            log += std::string(what) + " ";
            std::string err;
            const bool did = completes(f, &err);
            mc::check(did == ok, log + (did ? "succeeded" : "failed: " + err));
        };
        auto initial = [&](int s, unsigned ref, long v, const char* what) {
            expect(!started, [&] { set_initial(e, s, t, ref, v); }, what);
            if (!started) init[{s, ref}] = v;
        };
        switch (op) {
            case 1: initial(0, IN, 41, "a.in=41"); break;
            case 2: initial(0, IN, 52, "a.in=52"); break;
            case 3: initial(1, IN, 63, "b.in=63"); break;
            case 4: initial(0, PAR, 74, "a.par=74"); break;
            case 5: initial(1, PAR, 85, "b.par=85"); break;
            case 6:
                if (connected[0] || connected[1]) mc::discard();
                log += "a->b ";
                e.connect_variables(variable_id{0, t, OUT}, variable_id{1, t, IN});
                connected[1] = true;
                break;
            case 7:
                if (connected[0] || connected[1]) mc::discard();
                log += "b->a ";
                e.connect_variables(variable_id{1, t, OUT}, variable_id{0, t, IN});
                connected[0] = true;
                break;
            case 8:
                log += "step ";
                e.step();
                started = true;
                ++steps;
                break;
            case 9: expect(false, [&] { set_initial(e, 0, t, 9, 1); }, "a.nonexistent=1"); break;
            case 10: expect(false, [&] { set_initial(e, 2, t, IN, 1); }, "nobody.in=1"); break;
            case 11:
                if (started || k > 0) mc::discard();
                // another type, at the same reference
                log += "another type ";
                set_initial(e, 0, all_types()[(ti + 1) % 4], IN, 1);
                break;
        }
        if (started && steps == 1 && op == 8) {
            // values of the slaves at the first step
            long in[2], par[2], out[2];
            for (int s : connected[0] ? std::vector<int>{1, 0} : std::vector<int>{0, 1}) {
                in[s] = as_seen(t, init.count({s, IN}) ? init[{s, IN}] : 10 * (s + 1) + ti);
                par[s] = as_seen(t, init.count({s, PAR}) ? init[{s, PAR}] : 5);
                if (connected[s]) in[s] = out[1 - s];
                out[s] = feed(s + 1, ti, in[s], par[s]);
                mc::check(w[s].atB[ti][IN] == in[s] && w[s].atD[ti][IN] == in[s], mc::Str() << log << ": input of " << s << " is " << w[s].atB[ti][IN] << ", " << w[s].atD[ti][IN] << " instead of " << in[s]);
                mc::check(w[s].atB[ti][PAR] == par[s] && w[s].atD[ti][PAR] == par[s], mc::Str() << log << ": parameter of " << s << " is " << w[s].atD[ti][PAR] << " instead of " << par[s]);
            }
        }
    }
    // initial values which came too late have no effect
    if (started) {
        e.step();
        for (int s = 0; s < 2; ++s) {
            if (!connected[s]) mc::check(w[s].s->val[ti][IN] == as_seen(t, init.count({s, IN}) ? init[{s, IN}] : 10 * (s + 1) + ti), log + ": input of " + std::to_string(s) + " later");
            mc::check(w[s].s->val[ti][PAR] == as_seen(t, init.count({s, PAR}) ? init[{s, PAR}] : 5), log + ": parameter of " + std::to_string(s) + " later");
        }
    }
    mc::outcome(log);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C28";
    s.assumptions = {"slaves whose outputs follow their inputs until the simulation starts, may change as it starts, and not again before the first step", "graphs without cycles, one source per input"};
    const bool th = mc::thorough();
    s.add("chains_1", [] { chains(1, 2, true); });
    s.add("chains_2", [] { chains(2, 4, true); });
    s.add("chains_3", [th] { chains(3, th ? 8 : 5, true); });
    s.add("chains_4", [th] { chains(4, th ? 16 : 6, th); });
    if (th) s.add("chains_5", [] { chains(5, 7, false); });
    s.add("outputs_change_at_start", [th] { chains(th ? 4 : 3, th ? 6 : 3, th, 500); });
    s.add("outputs_change_at_start_2", [] { chains(2, 4, true, 500); });
    s.add("diamonds", diamonds);
    s.add("histories", [th] { histories(th ? 6 : 5); });
}
