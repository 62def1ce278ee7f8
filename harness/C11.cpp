// C11: overrides take effect at the next step and reset restores, from any thread.
#include "sim.hpp"
#include "cosim/manipulator/override_manipulator.hpp"
#include "cosim/observer/last_value_observer.hpp"
#include <map>
#include <thread>
using namespace sim;

namespace
{
struct Req { int sim; variable_type type; unsigned ref; std::optional<long> v; bool input; };

void request(override_manipulator& m, const Req& r)
{
    if (!r.v) m.reset_variable(r.sim, r.type, r.ref);
    else switch (r.type) {
        case T_REAL: m.override_real_variable(r.sim, r.ref, (double)*r.v); break;
        case T_INT: m.override_integer_variable(r.sim, r.ref, (int)*r.v); break;
        case T_BOOL: m.override_boolean_variable(r.sim, r.ref, (*r.v & 1) != 0); break;
        default: m.override_string_variable(r.sim, r.ref, std::to_string(*r.v));
    }
}

struct World
{
    std::unique_ptr<execution> exe;
    std::vector<std::shared_ptr<Slave>> sl;
    std::shared_ptr<override_manipulator> man = std::make_shared<override_manipulator>();
    std::shared_ptr<last_value_observer> obs = std::make_shared<last_value_observer>();
    std::function<void()> onD;
    explicit World(const std::vector<variable_type>& types, bool observe = true)
    {
        quiet_logs();
        exe = std::make_unique<execution>(tp(0), std::make_shared<fixed_step_algorithm>(duration(10), 0u));
        for (int i = 0; i < 2; ++i) {
            auto s = make_slave(i, types);
            s->keepLog = false;
            for (auto t : types) {
                s->var("par", 2, t, variable_causality::parameter, 7);
                s->var("calc", 3, t, variable_causality::calculated_parameter);
                s->var("loc", 4, t, variable_causality::local);
            }
            if (i == 0)
                s->hook = [this](Slave&, char op) { if (op == 'D' && onD) onD(); };
            sl.push_back(s);
            exe->add_slave(s, "s" + std::to_string(i));
        }
        exe->add_manipulator(man);
        if (observe) exe->add_observer(obs);
    }
    long observed(int i, variable_type t, unsigned ref)
    {
        const value_reference r[] = {ref};
        double d[1];
        int n[1];
        bool b[1];
        std::string s[1];
        switch (t) {
            case T_REAL: obs->get_real(i, r, d); return to_num(d[0]);
            case T_INT: obs->get_integer(i, r, n); return n[0];
            case T_BOOL: obs->get_boolean(i, r, b); return b[0];
            default: obs->get_string(i, r, s); return to_num(s[0]);
        }
    }
};

// Sequences of requests and steps from one thread; 0 -> 1 connected.
void sequences(variable_type t, int depth)
{
    World w({t, t == T_REAL ? T_INT : T_REAL});
    w.exe->connect_variables(variable_id{0, t, 0}, variable_id{1, t, 1});
    const std::vector<Req> targets{{0, t, 0, {}, false}, {0, t, 1, {}, true}, {1, t, 1, {}, true}, {1, t, 2, {}, true}, {1, t, 3, {}, false}};
    std::map<std::pair<int, unsigned>, long> inForce;   // as of the last step
    std::vector<Req> queue;
    int steps = 0;
    std::string trail;
    // value a slave's input or parameter has without override
    auto plain = [&](int i, unsigned ref) -> long {
        if (ref == 2) return as_seen(t, 7);
        if (i == 0) return 0;
        // connected: what the source showed after the previous step (or initialisation), overridden or not
        return 0;
    };
    // What the source's output was when it was last transferred
    long source = 0;
    auto step = [&] {
        // first step: initialisation transfers the source's initial value
        if (steps == 0) source = w.sl[0]->number((int)t, 0);
        for (auto& q : queue) {
            if (q.v) inForce[{q.sim, q.ref}] = as_seen(t, *q.v);
            else inForce.erase({q.sim, q.ref});
        }
        queue.clear();
        w.exe->step();
        ++steps;
        auto eff = [&](int i, unsigned ref, long dflt) {
            auto it = inForce.find({i, ref});
            return it == inForce.end() ? dflt : it->second;
        };
        for (int i = 0; i < 2; ++i) {
            mc::check(w.sl[i]->val[(int)t][1] == eff(i, 1, i == 1 ? source : plain(i, 1)), mc::Str() << trail << ": input of slave " << i << " has the value " << w.sl[i]->val[(int)t][1]);
            mc::check(w.sl[i]->val[(int)t][2] == eff(i, 2, plain(i, 2)), mc::Str() << trail << ": parameter of slave " << i << " has the value " << w.sl[i]->val[(int)t][2]);
            for (unsigned ref : {0u, 3u}) {
                const long raw = w.sl[i]->number((int)t, ref);
                mc::check(w.observed(i, t, ref) == eff(i, ref, raw), mc::Str() << trail << ": output " << ref << " of slave " << i << " is observed as " << w.observed(i, t, ref));
            }
            const auto o = t == T_REAL ? T_INT : T_REAL;
            mc::check(w.observed(i, o, 0) == w.sl[i]->number((int)o, 0), "a variable of another type was changed");
            mc::check(w.sl[i]->val[(int)o][1] == 0 && w.sl[i]->val[(int)o][2] == as_seen(o, 7), "a variable of another type was changed");
        }
        source = eff(0, 0, w.sl[0]->number((int)t, 0));
        auto mod = w.exe->get_modified_variables();
        mc::check(mod.size() == inForce.size(), trail + ": wrong number of modified variables");
        for (auto& m : mod) mc::check(m.type == t && inForce.count({m.simulator, m.reference}), trail + ": wrong modified variables");
    };
    for (int d = 0; d < depth; ++d) {
        const int op = mc::choose(4, "step, override, other value, reset");
        mc::transition();
        if (op == 0) {
            trail += "step ";
            step();
            continue;
        }
        Req r = mc::pick(targets, "variable");
        if (op < 3) r.v = op == 1 ? 91 : 60 + 2 * d;
        trail += mc::Str() << (r.v ? "override(" : "reset(") << r.sim << "." << r.ref << (r.v ? "=" + std::to_string(*r.v) : "") << ") ";
        request(*w.man, r);
        queue.push_back(r);
    }
    trail += "| step ";
    step();
    trail += "step ";
    step();
    mc::outcome(std::to_string(inForce.size()));
}

// Requests for what can't be overridden are refused and have no effect.
void refusals()
{
    World w(all_types());
    struct Bad { int sim; variable_type type; unsigned ref; };
    std::vector<Bad> bad;
    for (auto t : all_types()) {
        bad.push_back({0, t, 4}); // local
        bad.push_back({0, t, 9}); // unknown
        bad.push_back({5, t, 0}); // unknown simulator
        bad.push_back({-1, t, 0});
    }
    const bool pre = mc::choose(2, "steps first");
    if (pre) w.exe->step();
    const auto b = mc::pick(bad, "target");
    Req r{b.sim, b.type, b.ref, mc::choose(2, "reset") ? std::optional<long>() : 1, true};
    mc::check(!completes([&] { request(*w.man, r); }), "an impossible override was accepted");
    request(*w.man, Req{1, b.type, 1, 3, true});
    w.exe->step();
    mc::check(w.exe->get_modified_variables().size() == 1 && w.sl[1]->val[(int)b.type][1] == as_seen(b.type, 3), "refused request had an effect, or a later one had none");
}

// Requests from other threads while stepping.
struct Ev { Req r; long inv = 0, ret = 0; };
void threads(std::vector<std::vector<Req>> plans, int steps, bool output)
{
    World w({T_REAL}, output);
    std::vector<std::vector<Ev>> ev;
    for (auto& p : plans) {
        ev.emplace_back();
        for (auto& r : p) ev.back().push_back({r});
    }
    mc::quiet(true);
    w.exe->step();
    mc::quiet(false);
    struct St { long begin, at, a, b, c; };
    std::vector<St> st;
    w.onD = [&] {
        st.back().at = mc::stamp();
        st.back().a = w.sl[0]->val[0][1];
        st.back().b = w.sl[0]->val[0][2];
    };
    std::vector<std::thread> th;
    for (auto& e : ev)
        th.emplace_back([&w, &e] {
            for (auto& x : e) {
                x.inv = mc::stamp();
                request(*w.man, x.r);
                x.ret = mc::stamp();
            }
        });
    for (int k = 0; k < steps; ++k) {
        st.push_back({mc::stamp(), 0, 0, 0, 0});
        w.exe->step();
        if (output) st.back().c = w.observed(0, T_REAL, 0) - w.sl[0]->number(0, 0);
    }
    for (auto& t : th) t.join();
    st.push_back({mc::stamp(), 0, 0, 0, 0});
    w.exe->step();
    if (output) st.back().c = w.observed(0, T_REAL, 0) - w.sl[0]->number(0, 0);
    // is there a total order of the requests, and a moment of application for each, that explains all values?
    std::vector<Ev*> order;
    std::vector<std::size_t> idx(ev.size(), 0);
    std::function<bool(std::size_t, std::size_t)> explain = [&](std::size_t k, std::size_t applied) -> bool {
        if (k == st.size()) return applied == order.size();
        for (std::size_t n = applied; n <= order.size(); ++n) {
            bool ok = true;
            for (std::size_t i = 0; i < order.size() && ok; ++i) {
                if (order[i]->ret < st[k].begin && i >= n) ok = false; // complete before the step: must be in effect
                if (order[i]->inv > st[k].at && i < n) ok = false;     // not even requested
            }
            if (!ok) continue;
            long v[4] = {0, 0, 7, 0};
            bool ov = false;
            for (std::size_t i = 0; i < n; ++i) {
                const auto& r = order[i]->r;
                v[r.ref] = r.v ? *r.v : r.ref == 2 ? 7 : 0;
                if (r.ref == 0) ov = r.v.has_value();
            }
            if (v[1] != st[k].a || v[2] != st[k].b) continue;
            if (output && (ov ? v[0] - w.sl[0]->id * 1000 - 1 - (long)(k + 2) : 0) != st[k].c) continue;
            if (explain(k + 1, n)) return true;
        }
        return false;
    };
    std::function<bool()> interleave = [&]() -> bool {
        std::size_t total = 0;
        bool any = false;
        for (std::size_t t = 0; t < ev.size(); ++t) {
            total += ev[t].size();
            if (idx[t] == ev[t].size()) continue;
            any = true;
            Ev* e = &ev[t][idx[t]];
            bool ok = true;
            for (auto& x : ev)
                for (std::size_t i = idx[&x - ev.data()]; i < x.size(); ++i) ok = ok && !(x[i].ret < e->inv); // real-time order
            if (!ok) continue;
            order.push_back(e);
            ++idx[t];
            if (interleave()) return true;
            --idx[t];
            order.pop_back();
        }
        return !any && explain(0, 0);
    };
    std::string vals;
    for (auto& s : st) vals += mc::Str() << s.a << "/" << s.b << "/" << s.c << " ";
    if (!interleave()) mc::fail("no order of the requests explains the values seen in the steps: " + vals);
    mc::outcome(vals);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C11";
    s.assumptions = {"sequentially consistent interleavings with data race detection; mock slaves"};
    const bool t = mc::thorough();
#ifdef MC_SCHED
    auto in = [](unsigned ref, std::optional<long> v) { return Req{0, T_REAL, ref, v, ref != 0}; };
    auto add = [&](const char* n, std::vector<std::vector<Req>> p, int steps, bool out, int bound) {
        auto& x = s.add(n, [=] { threads(p, steps, out); });
        x.sched = true;
        x.bound = bound;
    };
    const std::optional<long> none;
    add("one_thread", {{in(1, 3), in(1, none), in(1, 4)}}, 2, false, t ? 6 : 4);
    add("one_thread_two_variables", {{in(1, 3), in(2, 4), in(1, none)}}, 2, false, t ? 6 : 4);
    add("one_thread_output", {{in(0, 3), in(1, 5), in(0, none)}}, 2, true, t ? 4 : 3);
    add("two_threads", {{in(1, 3), in(2, 4)}, {in(1, 5), in(1, none)}}, 2, false, t ? 4 : 3);
    add("two_threads_same_variable", {{in(1, 3)}, {in(1, 5)}}, 2, false, t ? 5 : 4);
#else
    for (auto ty : all_types())
        s.add(std::string("sequences_") + "ribs"[(int)ty], [=] { sequences(ty, t ? 6 : ty == T_REAL ? 5 : 4); });
    s.add("refusals", refusals);
#endif
}
