// C18: loading a structure into an execution reproduces exactly that structure; direct connecting.
#include "sim.hpp"
#include "cosim/algorithm/fixed_step_algorithm.hpp"
#include "cosim/exception.hpp"
#include "cosim/function/vector_sum.hpp"
#include "cosim/system_structure.hpp"
#include <algorithm>
#include <map>
#include <set>
using namespace sim;

namespace
{
constexpr long BASE = 100;

/// Outputs never change, so that everything connected has settled after a few steps.
std::shared_ptr<Slave> new_slave(int id)
{
    auto s = std::make_shared<Slave>();
    s->id = id;
    s->standard();
    s->var("realIn2", 2, T_REAL, input, 5).var("intIn2", 2, T_INT, input, 6);
    s->var("calc", 3, T_REAL, calculated_parameter, {}, fixed).var("par", 4, T_INT, parameter, 44, fixed).var("spar", 4, T_STR, parameter, 45, tunable);
    s->var("loc", 5, T_REAL, local);
    s->out = [](const Slave& x, int type, unsigned ref) { return x.id * 1000L + ref * 100 + type * 10 + (x.id + ref) % 2; };
    return s;
}

struct Made
{
    std::string name;
    std::shared_ptr<Slave> s;
};
struct Model : model
{
    std::shared_ptr<model_description> d;
    std::vector<Made>* made;
    Model(std::vector<Made>* m)
        : made(m)
    {
        d = std::make_shared<model_description>(new_slave(0)->model_description());
    }
    std::shared_ptr<const model_description> description() const noexcept override { return d; }
    std::shared_ptr<slave> instantiate(std::string_view name) override
    {
        made->push_back({std::string(name), new_slave(1 + (int)made->size())});
        return made->back().s;
    }
};

/// The result is not owned by us, so each instance tells what it has calculated when asked for its description.
struct FRec
{
    function_parameter_value_map params;
    Fun* f;
};
struct FType : function_type
{
    std::vector<FRec>* made;
    FType(std::vector<FRec>* m)
        : made(m)
    {
    }
    function_type_description description() const override
    {
        function_type_description f;
        f.parameters = {{"base", function_parameter_type::integer, 7, 0, {}}, {"n", function_parameter_type::integer, 2, 1, 3}};
        const auto N = function_parameter_placeholder{1};
        f.io_groups = {
            {"in", 1, {{"r", T_REAL, input, N}, {"i", T_INT, input, N}, {"b", T_BOOL, input, N}, {"s", T_STR, input, N}}},
            {"out", 1, {{"r", T_REAL, output, 1}, {"i", T_INT, output, 1}, {"b", T_BOOL, output, 1}, {"s", T_STR, output, 1}}}};
        return f;
    }
    std::unique_ptr<function> instantiate(const function_parameter_value_map& p) override
    {
        auto f = std::make_unique<Fun>();
        f->id = (int)made->size();
        const auto b = p.find(0), n = p.find(1);
        f->base = b == p.end() ? 7 : std::get<int>(b->second);
        f->nIn = n == p.end() ? 2 : std::get<int>(n->second);
        made->push_back({p, f.get()});
        return f;
    }
};

/// What should be in the execution, and what its slaves' inputs must be when everything has settled.
struct Ref
{
    struct SimIn { int sim; variable_type t; value_reference r; bool operator<(const SimIn& o) const { return std::tie(sim, t, r) < std::tie(o.sim, o.t, o.r); } };
    struct FunIn { int fun; variable_type t; int i; bool operator<(const FunIn& o) const { return std::tie(fun, t, i) < std::tie(o.fun, o.t, o.i); } };
    std::map<SimIn, SimIn> ss;
    std::map<FunIn, SimIn> sf;
    std::map<SimIn, FunIn> fs;
};

/// Steps and compares everything that can be seen with the reference. Initial values: by slave, type and reference.
void settle(execution& exe, const std::vector<std::shared_ptr<Slave>>& slaves, const std::vector<Fun*>& funs, const Ref& r,
    const std::map<Ref::SimIn, long>& initial, const std::vector<long>& steps, const std::string& trail, bool stepped = false)
{
    for (int k = 0; k < 6; ++k) exe.step();
    mc::transition(6);
    for (std::size_t i = 0; i < slaves.size(); ++i) {
        auto& s = *slaves[i];
        for (auto& v : s.vars) {
            if (v.causality != input && v.causality != parameter) continue;
            const Ref::SimIn in{(int)i, v.type, v.reference};
            long want = as_seen(v.type, s.vars.empty() ? 0 : (v.start ? std::visit([](auto&& x) { return to_num(x); }, *v.start) : 0));
            if (auto x = initial.find(in); x != initial.end()) want = as_seen(v.type, x->second);
            bool connected = true;
            if (auto c = r.ss.find(in); c != r.ss.end())
                want = slaves[c->second.sim]->number((int)c->second.t, c->second.r);
            else if (auto f = r.fs.find(in); f != r.fs.end()) {
                auto& fun = *funs[f->second.fun];
                long args[NREF] = {};
                for (int k = 0; k < fun.nIn; ++k)
                    if (auto a = r.sf.find({f->second.fun, f->second.t, k}); a != r.sf.end())
                        args[k] = slaves[a->second.sim]->number((int)a->second.t, a->second.r);
                want = Fun::compute((int)f->second.t, fun.base, args, fun.nIn);
            } else
                connected = false;
            const long got = s.val[(int)v.type][v.reference];
            mc::check(got == want, mc::Str() << trail << ": in the end " << v.name << " of simulator " << i << " is " << got << " instead of " << want);
            // when it was written
            long before = 0, after = 0;
            bool begun = false;
            for (auto& c : s.log) {
                if (c.op == 'B') begun = true;
                if (c.op != 'W' || c.type != (int)v.type || c.ref != v.reference) continue;
                ++(begun ? after : before);
                if (!connected)
                    mc::check(initial.count(in) && c.v == want, mc::Str() << trail << ": " << v.name << " of simulator " << i << " was set to " << c.v << " though nothing is connected to it");
            }
            if (initial.count(in) && !connected) mc::check(before > 0, mc::Str() << trail << ": initial value of " << v.name << " was not set before the simulation started");
        }
        long d = 0;
        for (auto& c : s.log)
            if (c.op == 'D') {
                ++d;
                mc::check(c.dt == steps[i], mc::Str() << trail << ": simulator " << i << " has step size " << c.dt);
            }
        if (!stepped) mc::check(d == 6 / (steps[i] / BASE) + (6 % (steps[i] / BASE) != 0), mc::Str() << trail << ": simulator " << i << " was stepped " << d << " times");
    }
    for (std::size_t f = 0; f < funs.size(); ++f)
        for (int t = 0; t < 4; ++t)
            for (int k = 0; k < funs[f]->nIn; ++k) {
                long want = 0;
                if (auto a = r.sf.find({(int)f, (variable_type)t, k}); a != r.sf.end()) want = slaves[a->second.sim]->number((int)a->second.t, a->second.r);
                mc::check(funs[f]->in[t][k] == want, mc::Str() << trail << ": in the end input " << k << " of type " << t << " of function " << f << " is " << funs[f]->in[t][k] << " instead of " << want);
            }
}

struct Entity
{
    char kind; // s(imulator), f(unction), v(ector sum)
    std::string name;
    long hint;
    function_parameter_value_map params;
};
const std::vector<Entity>& pool()
{
    static const std::vector<Entity> p = {
        {'s', "a", 0, {}}, {'s', "b", 2 * BASE, {}}, {'f', "f", 0, {}}, {'s', "c", 3 * BASE, {}},
        {'f', "g", 0, {{0, 100}, {1, 3}}}, {'v', "v", 0, {{0, 2}, {2, 2}}}, {'v', "w", 0, {{1, T_INT}}}, {'f', "h", 0, {{1, 1}}}};
    return p;
}

using F = full_variable_name;
const std::vector<std::pair<F, F>>& links()
{
    static const std::vector<std::pair<F, F>> l = {
        {{"a", "realOut"}, {"b", "realIn"}}, {{"a", "realOut"}, {"a", "realIn"}}, {{"b", "intOut"}, {"a", "intIn"}}, {{"a", "boolOut"}, {"b", "boolIn"}},
        {{"b", "stringOut"}, {"a", "stringIn"}}, {{"a", "calc"}, {"b", "realIn2"}}, {{"a", "intOut"}, {"c", "intIn2"}}, {{"c", "realOut"}, {"a", "realIn2"}},
        {{"a", "realOut"}, {"f", "in", 0, "r", 1}}, {{"b", "realOut"}, {"f", "in", 0, "r", 0}}, {{"f", "out", "r"}, {"b", "realIn"}}, {{"f", "out", "i"}, {"a", "intIn"}},
        {{"a", "intOut"}, {"f", "in", 0, "i", 0}}, {{"b", "stringOut"}, {"f", "in", 0, "s", 1}}, {{"f", "out", "s"}, {"b", "stringIn"}}, {{"f", "out", "b"}, {"a", "boolIn"}},
        {{"a", "intOut"}, {"g", "in", 0, "i", 2}}, {{"g", "out", "i"}, {"b", "intIn2"}}, {{"a", "calc"}, {"g", "in", 0, "r", 1}}, {{"g", "out", "r"}, {"a", "realIn"}},
        {{"a", "realOut"}, {"v", "in", 0, "", 1}}, {{"b", "realOut"}, {"v", "in", 1, "", 1}}, {{"v", "out", 0, "", 1}, {"b", "realIn"}},
        {{"a", "intOut"}, {"w", "in", 0, "", 0}}, {{"w", "out", 0, "", 0}, {"a", "intIn"}}, {{"b", "boolOut"}, {"h", "in", 0, "b", 0}}, {{"h", "out", "b"}, {"b", "boolIn"}}};
    return l;
}

void inject(int maxEntities, int maxLinks, bool allOrders)
{
    static_assert(BASE % 2 == 0);
    std::vector<Made> made;
    std::vector<FRec> fmade;
    auto m = std::make_shared<Model>(&made);
    auto ft = std::make_shared<FType>(&fmade);
    auto vt = std::make_shared<vector_sum_function_type>();
    system_structure sys;
    std::string trail;
    std::map<std::string, Entity> in;
    const int n = 1 + mc::choose(maxEntities, "entities");
    int last = -1;
    for (int i = 0; i < n; ++i) {
        std::vector<int> cand;
        for (int k = 0; k < (int)pool().size(); ++k)
            if (!in.count(pool()[k].name) && (allOrders || k > last)) cand.push_back(k);
        if (cand.empty()) mc::discard();
        last = mc::pick(cand, "entity");
        auto& e = pool()[last];
        trail += " " + e.name;
        in[e.name] = e;
        if (e.kind == 's') sys.add_entity(e.name, m, duration(e.hint));
        if (e.kind == 'f') sys.add_entity(e.name, ft, e.params);
        if (e.kind == 'v') sys.add_entity(e.name, vt, e.params);
    }
    std::vector<std::pair<F, F>> chosen, avail;
    for (auto& l : links())
        if (in.count(l.first.entity_name) && in.count(l.second.entity_name)) avail.push_back(l);
    const int nl = mc::choose(maxLinks + 1, "connections");
    int from = -1;
    for (int i = 0; i < nl; ++i) {
        std::vector<int> cand;
        for (int k = from + 1; k < (int)avail.size(); ++k) {
            bool taken = false;
            for (auto& c : chosen) taken |= c.second == avail[k].second;
            if (!taken) cand.push_back(k);
        }
        if (cand.empty()) mc::discard();
        from = mc::pick(cand, "connection");
        chosen.push_back(avail[from]);
        sys.connect_variables(avail[from].first, avail[from].second);
        trail += " " + to_text(avail[from].first) + "->" + to_text(avail[from].second);
    }
    variable_value_map values;
    static const std::vector<std::pair<F, scalar_value>> vals = {
        {{"a", "realIn"}, 31.0}, {{"a", "par"}, 32}, {{"b", "stringIn"}, std::string("33")}, {{"b", "boolIn"}, true}, {{"b", "intIn2"}, 35}, {{"a", "spar"}, std::string("36")},
        {{"b", "realIn2"}, 5.0}}; // same as its start value
    const int vs = mc::choose(6, "initial values");
    static const int sets[6] = {0, 1 + 2, 4 + 8, 2 + 16 + 32, 127, 8 + 64};
    for (int k = 0; k < 7; ++k)
        if ((sets[vs] >> k & 1) && in.count(vals[k].first.entity_name)) {
            values.emplace(vals[k].first, vals[k].second);
            trail += " " + to_text(vals[k].first) + "=" + std::to_string(31 + k);
        }

    // the execution may already contain something
    const bool extra = mc::choose(2, "execution not empty");
    execution exe(tp(50), std::make_shared<fixed_step_algorithm>(duration(BASE), 0));
    auto seen = std::make_shared<Obs>();
    std::map<int, std::string> addedNames;
    std::multiset<std::string> connected;
    seen->onAdded = [&](simulator_index i, observable* o, time_point) { mc::check(addedNames.emplace(i, o->name()).second, trail + ": two simulators with the same index"); };
    seen->on = [&](const std::string& e) { if (e.rfind("connected", 0) == 0) connected.insert(e); };
    exe.add_observer(seen);
    auto old = new_slave(50);
    if (extra) {
        exe.add_slave(old, "old", duration(0));
        exe.add_function(std::make_unique<Fun>());
    }
    const auto maps = inject_system_structure(exe, sys, values);
    mc::transition();

    // exactly these entities
    std::vector<std::shared_ptr<Slave>> slaves(made.size() + extra);
    std::vector<long> steps(slaves.size(), BASE);
    if (extra) slaves[0] = old;
    std::set<std::string> simNames, funNames;
    for (auto& [k, e] : in) (e.kind == 's' ? simNames : funNames).insert(k);
    std::set<std::string> gotS, gotF;
    std::set<int> idxF;
    for (auto& [k, i] : maps.simulators) {
        gotS.insert(k);
        mc::check(addedNames.count(i) && addedNames[i] == k, trail + ": the index of simulator " + k + " is wrong");
        mc::check(exe.get_model_description(i).name.size() > 0, trail + ": no model description");
        bool found = false;
        for (auto& x : made)
            if (x.name == k) {
                mc::check(!found, trail + ": model instantiated twice for " + k);
                found = true;
                slaves.at(i) = x.s;
                mc::check(exe.get_model_description(i).name == x.s->model_description().name, trail + ": the model description of " + k + " is another one's");
                steps.at(i) = std::max(BASE, in[k].hint);
            }
        mc::check(found, trail + ": no instance with the name " + k);
    }
    mc::check(gotS == simNames && made.size() == simNames.size() && addedNames.size() == made.size() + extra, trail + ": not exactly the simulators");
    int nf = extra;
    for (auto& [k, i] : maps.functions) {
        gotF.insert(k);
        mc::check(idxF.insert(i).second && i >= nf && i < nf + (int)funNames.size(), trail + ": the index of function " + k + " is wrong");
    }
    mc::check(gotF == funNames, trail + ": not exactly the functions");
    std::multiset<std::string> wantP, gotP;
    auto pstr = [](const function_parameter_value_map& p) { std::string s; for (auto& [k, v] : p) s += std::to_string(k) + "=" + std::to_string(v.index()) + "/" + std::to_string(std::holds_alternative<int>(v) ? std::get<int>(v) : 0) + ";"; std::sort(s.begin(), s.end()); return s; };
    for (auto& [k, e] : in)
        if (e.kind == 'f') wantP.insert(pstr(e.params));
    for (auto& f : fmade) gotP.insert(pstr(f.params));
    mc::check(wantP == gotP, trail + ": functions were not created once each with their parameters");

    // which of our functions is which: by parameters (all differ)
    std::map<std::string, Fun*> fun;
    for (auto& [k, e] : in)
        if (e.kind == 'f')
            for (auto& f : fmade)
                if (pstr(f.params) == pstr(e.params)) fun[k] = f.f;

    // announced connections
    std::multiset<std::string> wantC;
    for (auto& [s, t] : chosen)
        if (s.is_simulator_variable() && t.is_simulator_variable())
            wantC.insert(mc::Str() << "connected(" << maps.simulators.at(s.entity_name) << "." << sys.get_variable_description(s).reference << "," << maps.simulators.at(t.entity_name) << "." << sys.get_variable_description(t).reference << ")");
    mc::check(wantC == connected, trail + ": not exactly the connections were announced");

    // what the connections do; vector sums have the same meaning as a Fun with these inputs
    Ref r;
    std::vector<Fun*> funs;
    std::map<std::string, int> funAt;
    std::vector<std::unique_ptr<Fun>> sums;
    std::map<Ref::SimIn, std::pair<F, F>> sumOut; // input -> (source, )
    for (auto& [k, f] : fun) {
        funAt[k] = (int)funs.size();
        funs.push_back(f);
    }
    auto simIn = [&](const F& v) {
        auto& d = sys.get_variable_description(v);
        return Ref::SimIn{maps.simulators.at(v.entity_name), d.type, d.reference};
    };
    static const std::map<std::string, variable_type> io = {{"r", T_REAL}, {"i", T_INT}, {"b", T_BOOL}, {"s", T_STR}};
    for (auto& [s, t] : chosen) {
        if (s.is_simulator_variable() && t.is_simulator_variable()) r.ss[simIn(t)] = simIn(s);
        else if (s.is_simulator_variable() && fun.count(t.entity_name)) r.sf[{funAt[t.entity_name], io.at(t.variable_name), t.variable_instance}] = simIn(s);
        else if (t.is_simulator_variable() && fun.count(s.entity_name)) r.fs[simIn(t)] = {funAt[s.entity_name], io.at(s.variable_name), 0};
        else if (t.is_simulator_variable()) {
            // a vector sum: a function with one input for each of the vectors, with factors 1 and 1 we do not have; use two inputs by hand
            auto f = std::make_unique<Fun>();
            f->nIn = 0;
            for (auto& [s2, t2] : chosen)
                if (t2.entity_name == s.entity_name && t2.variable_instance == s.variable_instance)
                    f->base += slaves[maps.simulators.at(s2.entity_name)]->number((int)simIn(s2).t, simIn(s2).r);
            r.fs[simIn(t)] = {(int)funs.size(), simIn(t).t, 0};
            funs.push_back(f.get());
            sums.push_back(std::move(f));
        }
    }
    std::map<Ref::SimIn, long> initial;
    for (auto& [v, x] : values) initial[simIn(v)] = std::visit([](auto&& y) { return to_num(y); }, x);
    settle(exe, slaves, funs, r, initial, steps, trail);
    mc::outcome(mc::Str() << made.size() << "," << fmade.size() << "," << chosen.size() << "," << values.size());
}

/// Initial values which cannot be given
void bad_values()
{
    std::vector<Made> made;
    std::vector<FRec> fmade;
    system_structure sys;
    sys.add_entity("a", std::make_shared<Model>(&made), duration(0));
    sys.add_entity("f", std::make_shared<FType>(&fmade), {});
    static const std::vector<F> bad = {{"f", "in", "r"}, {"zz", "realIn"}, {"a", "none"}, {"f", "realIn"}, {"a", "in", "r"}};
    variable_value_map v;
    v.emplace(mc::pick(bad, "variable"), 1.0);
    if (mc::choose(2, "and a good one")) v.emplace(F("a", "realIn"), 1.0);
    execution exe(tp(0), std::make_shared<fixed_step_algorithm>(duration(BASE), 0));
    mc::transition();
    mc::check(!completes([&] { inject_system_structure(exe, sys, v); }), "initial value of " + to_text(v.begin()->first) + " was accepted");
}

// --- direct connecting -------------------------------------------------------------------------------------
struct Op
{
    std::string text;
    std::function<bool(execution&, Ref&)> run; // whether it was accepted
    bool want0;                                // whether it is valid as such
    std::function<bool(const Ref&)> free;
    std::function<void(Ref&)> apply;
};
const Slave& proto()
{
    static const auto p = new_slave(0);
    return *p;
}
bool is(int sim, variable_type t, value_reference r, bool asInput)
{
    if (sim < 0 || sim > 1) return false;
    for (auto& v : proto().vars)
        if (v.type == t && v.reference == r) return asInput ? v.causality == input : v.causality == output || v.causality == calculated_parameter;
    return false;
}
template<typename F2> bool accepted(F2&& f)
{
    mc::transition();
    return completes(f);
}
std::vector<Op> operations(bool wide)
{
    std::vector<Op> ops;
    auto vs = [](variable_id v) { return std::string(mc::Str() << v.simulator << "." << to_text(v.type) << v.reference); };
    auto ff = [](function_io_id v) { return std::string(mc::Str() << "f" << v.function << "." << to_text(v.type) << v.reference.group << "[" << v.reference.group_instance << "]" << v.reference.io << "[" << v.reference.io_instance << "]"); };
    std::vector<variable_id> so = {{0, T_REAL, 0}, {1, T_REAL, 3}, {0, T_INT, 0}};
    std::vector<variable_id> si = {{1, T_REAL, 1}, {0, T_REAL, 1}, {1, T_INT, 1}};
    std::vector<function_io_id> fi = {{0, T_REAL, {0, 0, 0, 0}}, {0, T_REAL, {0, 0, 0, 1}}};
    std::vector<function_io_id> fo = {{0, T_REAL, {1, 0, 0, 0}}, {0, T_INT, {1, 0, 1, 0}}};
    if (wide) {
        so = {{0, T_REAL, 0}, {0, T_REAL, 1}, {0, T_REAL, 3}, {0, T_REAL, 5}, {0, T_INT, 4}, {0, T_REAL, 9}, {2, T_REAL, 0}, {-1, T_REAL, 0}, {0, T_STR, 0}, {0, T_BOOL, 0}, {1, T_INT, 0}, {0, variable_type::enumeration, 0}};
        si = {{1, T_REAL, 1}, {1, T_REAL, 0}, {1, T_REAL, 5}, {1, T_INT, 4}, {1, T_REAL, 9}, {2, T_REAL, 1}, {-1, T_REAL, 1}, {1, T_STR, 1}, {1, T_BOOL, 1}, {0, T_INT, 1}, {1, T_INT, 2}, {1, T_INT, 3}};
        fi.clear();
        fo.clear();
        for (int f : {0, 1, -1})
            for (int g : {0, 1, 2, -1})
                for (int gi : {0, 1, -1})
                    for (int io : {0, 1, 3, 4, -1})
                        for (int ii : {0, 1, 2, -1})
                            for (auto t : {T_REAL, T_INT, T_STR}) {
                                const int odd = (f != 0) + (g != 0 && g != 1) + (gi != 0) + (io < 0 || io > 3) + (ii < 0 || ii > 1) + ((int)t != io && io >= 0 && io < 4);
                                if (odd > 1) continue;
                                fi.push_back({f, t, {g, gi, io, ii}});
                                fo.push_back({f, t, {g, gi, io, ii}});
                            }
    }
    auto fis = [](const function_io_id& v, int group) {
        return v.function == 0 && v.reference.group == group && v.reference.group_instance == 0 && v.reference.io >= 0 && v.reference.io < 4 && (int)v.type == v.reference.io && v.reference.io_instance >= 0 && v.reference.io_instance < (group == 0 ? 2 : 1);
    };
    for (auto& o : so)
        for (auto& i : si)
            ops.push_back({vs(o) + "->" + vs(i), [o, i](execution& e, Ref&) { return accepted([&] { e.connect_variables(o, i); }); },
                is(o.simulator, o.type, o.reference, false) && is(i.simulator, i.type, i.reference, true) && o.type == i.type,
                [i](const Ref& r) { const Ref::SimIn k{i.simulator, i.type, i.reference}; return !r.ss.count(k) && !r.fs.count(k); },
                [o, i](Ref& r) { r.ss[{i.simulator, i.type, i.reference}] = {o.simulator, o.type, o.reference}; }});
    for (auto& o : so)
        for (auto& i : fi)
            ops.push_back({vs(o) + "->" + ff(i), [o, i](execution& e, Ref&) { return accepted([&] { e.connect_variables(o, i); }); },
                is(o.simulator, o.type, o.reference, false) && fis(i, 0) && o.type == i.type,
                [i](const Ref& r) { return !r.sf.count({i.function, i.type, i.reference.io_instance}); },
                [o, i](Ref& r) { r.sf[{i.function, i.type, i.reference.io_instance}] = {o.simulator, o.type, o.reference}; }});
    for (auto& o : fo)
        for (auto& i : si)
            ops.push_back({ff(o) + "->" + vs(i), [o, i](execution& e, Ref&) { return accepted([&] { e.connect_variables(o, i); }); },
                fis(o, 1) && is(i.simulator, i.type, i.reference, true) && o.type == i.type,
                [i](const Ref& r) { const Ref::SimIn k{i.simulator, i.type, i.reference}; return !r.ss.count(k) && !r.fs.count(k); },
                [o, i](Ref& r) { r.fs[{i.simulator, i.type, i.reference}] = {o.function, o.type, 0}; }});
    return ops;
}

void direct(int depth, bool wide)
{
    static const auto narrowOps = operations(false), wideOps = operations(true);
    auto& ops = wide ? wideOps : narrowOps;
    execution exe(tp(0), std::make_shared<fixed_step_algorithm>(duration(BASE), 0));
    std::vector<std::shared_ptr<Slave>> slaves{new_slave(1), new_slave(2)};
    auto f = std::make_shared<Fun>();
    f->base = 7;
    f->nIn = 2;
    std::multiset<std::string> announced, wantAnnounced;
    auto seen = std::make_shared<Obs>();
    seen->on = [&](const std::string& e) { if (e.rfind("connected", 0) == 0) announced.insert(e); };
    exe.add_observer(seen);
    for (auto& s : slaves) exe.add_slave(s, "s" + std::to_string(s->id), duration(0));
    exe.add_function(f);
    Ref r;
    std::string trail;
    bool stepped = false;
    for (int k = 0; k < depth; ++k) {
        // in the wide one, the last is any and those before it are valid ones of each kind
        static const std::vector<int> few = [] {
            std::vector<int> r;
            for (auto t : {"0.real0->1.real1", "0.real0->f0.real0[0]0[0]", "f0.real1[0]0[0]->1.real1", "f0.integer1[0]1[0]->1.integer2", "f0.string1[0]3[0]->1.string1"})
                for (int i = 0; i < (int)wideOps.size(); ++i)
                    if (wideOps[i].text == t) r.push_back(i);
            return r;
        }();
        const int op = wide && k + 1 < depth ? mc::pick(few, "first") : mc::choose((int)ops.size() + (k && !stepped && !wide ? 1 : 0), "connection");
        if (op == (int)ops.size()) {
            exe.step();
            stepped = true;
            trail += " step";
            continue;
        }
        auto& o = ops[op];
        trail += " " + o.text;
        const bool want = o.want0 && o.free(r);
        const bool got = o.run(exe, r);
        mc::check(got == want, trail + (got ? ": was accepted" : ": was refused"));
        if (got) o.apply(r);
    }
    for (auto& [i, o] : r.ss) wantAnnounced.insert(mc::Str() << "connected(" << o.sim << "." << o.r << "," << i.sim << "." << i.r << ")");
    mc::check(announced == wantAnnounced, trail + ": not exactly these connections were announced");
    settle(exe, slaves, {f.get()}, r, {}, {BASE, BASE}, trail, stepped);
    mc::outcome(mc::Str() << r.ss.size() << r.sf.size() << r.fs.size());
}
} // namespace

void mc_register(mc::Suite& s)
{
    quiet_logs();
    s.property = "C18";
    s.assumptions = {"the structures are made of two to three simulators of one mock model with variables of all types and of mock functions and vector sums; whether the connections are made is seen from the values that arrive"};
    const bool th = mc::thorough();
    s.add("inject", [th] { inject(3, th ? 5 : 3, false); });
    s.add("inject_orders", [th] { inject(th ? 4 : 3, th ? 2 : 1, true); });
    s.add("inject_many_connections", [th] {
        // all entities that can be connected with each other
        inject(4, th ? 4 : 3, false);
    });
    s.add("bad_values", bad_values);
    s.add("direct_all", [] { direct(1, true); });
    s.add("direct_all_after_one", [] { direct(2, true); });
    s.add("direct_sequences", [th] { direct(th ? 5 : 4, false); });
}
