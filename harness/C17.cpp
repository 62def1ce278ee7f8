// C17: a system structure only ever holds valid, resolvable connections.
#include "sim.hpp"
#include "cosim/function/vector_sum.hpp"
#include "cosim/exception.hpp"
#include "cosim/system_structure.hpp"
#include <algorithm>
#include <map>
#include <set>
using namespace sim;

namespace
{
using S = system_structure;

struct Model : model
{
    std::shared_ptr<model_description> d = std::make_shared<model_description>();
    std::shared_ptr<const model_description> description() const noexcept override { return d; }
    std::shared_ptr<slave> instantiate(std::string_view) override { return make_slave(0); }
};

constexpr variable_type TYPES[] = {T_REAL, T_INT, T_BOOL, T_STR, variable_type::enumeration};
constexpr variable_causality CAUS[] = {parameter, calculated_parameter, input, output, local};
constexpr variable_variability VARI[] = {constant, fixed, tunable, discrete, continuous};

std::string vname(int t, int c, int v) { return mc::Str() << to_text(TYPES[t]) << "." << to_text(CAUS[c]) << "." << to_text(VARI[v]); }

/// All combinations of type, causality and variability.
std::shared_ptr<Model> full_model()
{
    auto m = std::make_shared<Model>();
    m->d->name = "full";
    m->d->uuid = "full";
    value_reference r = 0;
    for (int t = 0; t < 5; ++t)
        for (int c = 0; c < 5; ++c)
            for (int v = 0; v < 5; ++v) m->d->variables.push_back({vname(t, c, v), r++, TYPES[t], CAUS[c], VARI[v], std::nullopt});
    return m;
}

std::shared_ptr<Model> small_model(const std::string& id, std::vector<variable_description> v)
{
    auto m = std::make_shared<Model>();
    m->d->name = "model"; // different models may have the same name
    m->d->uuid = id;
    m->d->variables = std::move(v);
    return m;
}

/// A function type with an array of groups, arrays of variables and variables whose type is a parameter.
struct FType : function_type
{
    // parameters: 0 number of groups (1..3), 1 type, 2 number of instances (1..3)
    function_type_description description() const override
    {
        function_type_description f;
        f.parameters = {
            {"groups", function_parameter_type::integer, 1, 1, 3},
            {"type", function_parameter_type::type, T_REAL, {}, {}},
            {"count", function_parameter_type::integer, 2, 1, 3}};
        const auto P = [](int i) { return function_parameter_placeholder{i}; };
        f.io_groups = {
            {"in", P(0), {{"x", P(1), input, P(2)}, {"s", T_STR, input, 1}, {"", T_INT, input, 2}}},
            {"out", 2, {{"", P(1), output, 1}, {"b", T_BOOL, output, P(2)}, {"i", T_INT, output, 1}}},
            {"both", 1, {{"p", T_REAL, input, 1}, {"q", T_REAL, output, 1}}}};
        return f;
    }
    std::unique_ptr<function> instantiate(const function_parameter_value_map&) override { return nullptr; }
};

/// What should be in the structure.
struct FnVar { int g, i; variable_type type; variable_causality caus; int groups, count; };
struct Ent
{
    std::shared_ptr<Model> m;
    std::shared_ptr<function_type> f;
    long hint = 0;
    function_parameter_value_map params;
    std::map<std::pair<std::string, std::string>, FnVar> io;
};
using Key = std::tuple<std::string, std::string, int, std::string, int>;
Key key(const full_variable_name& v)
{
    if (v.variable_group_name.empty()) return {v.entity_name, "", 0, v.variable_name, 0};
    return {v.entity_name, v.variable_group_name, v.variable_group_instance, v.variable_name, v.variable_instance};
}
struct Ref
{
    std::map<std::string, Ent> ents;
    std::map<Key, Key> conns; // target -> source
    variable_value_map values;
};

struct Seen { bool ok; variable_type type; variable_causality caus; variable_variability vari; };
Seen look(const Ref& r, const full_variable_name& v)
{
    auto it = r.ents.find(v.entity_name);
    if (it == r.ents.end()) return {false};
    if (v.variable_group_name.empty()) {
        if (!it->second.m) return {false};
        for (auto& d : it->second.m->d->variables)
            if (d.name == v.variable_name) return {true, d.type, d.causality, d.variability};
        return {false};
    }
    auto f = it->second.io.find({v.variable_group_name, v.variable_name});
    if (f == it->second.io.end()) return {false};
    auto& x = f->second;
    if (v.variable_group_instance < 0 || v.variable_group_instance >= x.groups || v.variable_instance < 0 || v.variable_instance >= x.count) return {false};
    return {true, x.type, x.caus, continuous};
}

bool should_connect(const Ref& r, const S::connection& c)
{
    const auto s = look(r, c.source), t = look(r, c.target);
    if (!s.ok || !t.ok || s.type != t.type) return false;
    if (!c.source.variable_group_name.empty() && !c.target.variable_group_name.empty()) return false; // function to function
    if (s.caus != output && s.caus != calculated_parameter) return false;
    if (t.caus != input || t.vari == constant || t.vari == fixed) return false;
    return !r.conns.count(key(c.target));
}

/// Runs f, which must succeed or throw an error which says the structure is invalid.
template<typename F> bool accepted(const std::string& what, F&& f)
{
    mc::transition();
    try {
        f();
        return true;
    } catch (const error& e) {
        mc::check(e.code() == make_error_code(errc::invalid_system_structure), what + ": wrong error code: " + e.what());
        mc::check(e.what()[0] != 0, what + ": no message");
    } catch (const std::exception& e) {
        mc::fail(what + ": wrong type of exception: " + e.what());
    }
    return false;
}

bool same_value(const scalar_value& a, const scalar_value& b) { return a == b; }

void compare(const S& s, const Ref& r, const std::string& trail, bool deep)
{
    std::size_t n = 0;
    std::set<std::string> names;
    for (auto& e : s.entities()) {
        ++n;
        auto it = r.ents.find(e.name);
        mc::check(it != r.ents.end() && names.insert(e.name).second, trail + ": entity " + e.name + " should not be there");
        auto& x = it->second;
        mc::check(entity_type_to<model>(e.type) == x.m && entity_type_to<function_type>(e.type) == x.f, trail + ": entity " + e.name + " is of the wrong type");
        mc::check(!x.m || e.step_size_hint.count() == x.hint, trail + ": step size hint of " + e.name);
        mc::check(!x.f || e.parameter_values == x.params, trail + ": parameters of " + e.name);
        auto f = s.find_entity(e.name);
        mc::check(f && f->name == e.name && f->type == e.type, trail + ": find_entity(" + e.name + ")");
    }
    mc::check(n == r.ents.size(), trail + ": an entity is missing");
    for (auto nm : {"", "a", "b", "f", "zz", "A"})
        mc::check((s.find_entity(nm) != nullptr) == (r.ents.count(nm) != 0), trail + ": find_entity(" + nm + ")");
    std::map<Key, Key> c;
    for (auto x : s.connections()) mc::check(c.emplace(key(x.target), key(x.source)).second, trail + ": a target is connected twice");
    mc::check(c == r.conns, trail + ": wrong connections");
    if (!deep) return;
    for (auto& [nm, e] : r.ents) {
        if (e.m) {
            for (auto& d : e.m->d->variables) {
                auto& g = s.get_variable_description({nm, d.name});
                mc::check(g.name == d.name && g.reference == d.reference && g.type == d.type && g.causality == d.causality && g.variability == d.variability, trail + ": description of " + nm + "." + d.name);
            }
        } else
            for (auto& [k, x] : e.io)
                for (int gi = 0; gi < x.groups; ++gi)
                    for (int ii = 0; ii < x.count; ++ii) {
                        auto& g = s.get_function_io_description({nm, k.first, gi, k.second, ii});
                        mc::check(g.group_index == x.g && g.io_index == x.i && std::get<variable_type>(g.description.type) == x.type && g.description.causality == x.caus && g.description.name == k.second && std::get<int>(g.description.count) == x.count,
                            trail + ": description of " + nm + ":" + k.first + ":" + k.second);
                    }
    }
}

/// The function's variables with the given parameters, or nothing if these are no good.
std::optional<std::map<std::pair<std::string, std::string>, FnVar>> fn_vars(const function_parameter_value_map& p)
{
    auto num = [&](int i, int dflt) -> std::optional<int> {
        auto it = p.find(i);
        if (it == p.end()) return dflt;
        auto v = std::get_if<int>(&it->second);
        if (!v || *v < 1 || *v > 3) return std::nullopt;
        return *v;
    };
    const auto g = num(0, 1), n = num(2, 2);
    variable_type t = T_REAL;
    if (auto it = p.find(1); it != p.end()) {
        auto v = std::get_if<variable_type>(&it->second);
        if (!v) return std::nullopt;
        t = *v;
    }
    if (!g || !n) return std::nullopt;
    return std::map<std::pair<std::string, std::string>, FnVar>{
        {{"in", "x"}, {0, 0, t, input, *g, *n}}, {{"in", "s"}, {0, 1, T_STR, input, *g, 1}}, {{"in", ""}, {0, 2, T_INT, input, *g, 2}},
        {{"out", ""}, {1, 0, t, output, 2, 1}}, {{"out", "b"}, {1, 1, T_BOOL, output, 2, *n}}, {{"out", "i"}, {1, 2, T_INT, output, 2, 1}},
        {{"both", "p"}, {2, 0, T_REAL, input, 1, 1}}, {{"both", "q"}, {2, 1, T_REAL, output, 1, 1}}};
}

struct World
{
    S s;
    Ref r;
    std::string trail;
    void add(const std::string& name, std::shared_ptr<Model> m, long hint, bool overload)
    {
        trail += mc::Str() << " add(" << name << "," << m->d->uuid << "," << hint << ")";
        const bool want = !name.empty() && !r.ents.count(name) && hint >= 0;
        const bool ok = accepted(trail, [&] { overload ? s.add_entity(name, m, duration(hint)) : s.add_entity(S::entity{name, m, duration(hint), {}}); });
        mc::check(ok == want, trail + (ok ? ": was accepted" : ": was refused"));
        if (ok) {
            Ent e;
            e.m = m;
            e.hint = hint;
            r.ents[name] = e;
        }
    }
    void add(const std::string& name, std::shared_ptr<FType> f, const function_parameter_value_map& p)
    {
        trail += mc::Str() << " add(" << name << ",function)";
        const auto io = fn_vars(p);
        const bool want = !name.empty() && !r.ents.count(name) && io;
        const bool ok = accepted(trail, [&] { s.add_entity(name, f, p); });
        mc::check(ok == want, trail + (ok ? ": was accepted" : ": was refused"));
        if (ok) {
            Ent e;
            e.f = f;
            e.params = p;
            e.io = *io;
            r.ents[name] = e;
        }
    }
    void connect(const full_variable_name& a, const full_variable_name& b)
    {
        trail += " connect(" + to_text(a) + "," + to_text(b) + ")";
        const bool want = should_connect(r, {a, b});
        const bool ok = accepted(trail, [&] { s.connect_variables(a, b); });
        mc::check(ok == want, trail + (ok ? ": was accepted" : ": was refused"));
        if (ok) r.conns.emplace(key(b), key(a));
    }
    void value(const full_variable_name& v, const scalar_value& x, variable_value_map& m)
    {
        trail += " value(" + to_text(v) + ")";
        const auto d = look(r, v);
        const variable_type ty[] = {T_REAL, T_INT, T_BOOL, T_STR};
        const bool want = v.is_simulator_variable() && d.ok && d.vari != constant && d.type == ty[x.index()];
        const bool ok = accepted(trail, [&] { add_variable_value(m, s, v, x); });
        mc::check(ok == want, trail + (ok ? ": was accepted" : ": was refused"));
        if (ok) r.values.insert_or_assign(v, x);
        mc::check(m == r.values, trail + ": the set of values is wrong");
    }
};

const scalar_value SV[] = {2.5, 7, true, std::string("x")};

// Every pair of simulator variables.
void sim_to_sim()
{
    const int n = mc::choose(125, "source");
    const auto to = mc::choose(2, "entity") ? "a" : "b";
    static const auto m = full_model();
    World w;
    w.add("a", m, 0, true);
    w.add("b", m, 5, false);
    const auto& src = m->d->variables[n].name;
    for (int t = 0; t < 125; ++t) {
        w.trail = "";
        w.connect({"a", src}, {to, m->d->variables[t].name});
        if (t % 25 == 0) compare(w.s, w.r, w.trail, false);
    }
    compare(w.s, w.r, w.trail, true);
    mc::outcome(mc::Str() << w.r.conns.size());
}

void sim_and_function()
{
    static const auto m = full_model();
    static const auto f = std::make_shared<FType>();
    World w;
    w.add("a", m, 0, true);
    function_parameter_value_map p;
    if (mc::choose(2, "give groups")) p[0] = 2;
    const int t = mc::choose(4, "type");
    if (t) p[1] = TYPES[t];
    if (mc::choose(2, "give count")) p[2] = 3;
    w.add("f", f, p);
    const int g = mc::choose(4, "group instance") - 1, i = mc::choose(5, "instance") - 1;
    const std::pair<const char*, const char*> io[] = {{"in", "x"}, {"in", "s"}, {"in", ""}, {"out", ""}, {"out", "b"}, {"out", "i"}, {"both", "p"}, {"both", "q"}, {"in", "b"}, {"none", "x"}};
    const auto [gn, vn] = io[mc::choose(10, "variable")];
    const bool source = mc::choose(2, "as source");
    const full_variable_name fv("f", gn, g, vn, i);
    const bool exists = look(w.r, fv).ok;
    for (auto& v : m->d->variables) {
        if (!exists && v.variability != continuous) continue;
        w.trail = "";
        source ? w.connect(fv, {"a", v.name}) : w.connect({"a", v.name}, fv);
    }
    w.connect(fv, fv);
    w.connect(fv, {"f", "both", "p"});
    w.connect({"f", "both", "q"}, fv);
    compare(w.s, w.r, w.trail, true);
    mc::outcome(mc::Str() << w.r.conns.size());
}

void values()
{
    static const auto m = full_model();
    static const auto f = std::make_shared<FType>();
    World w;
    w.add("a", m, 0, true);
    w.add("f", f, {});
    variable_value_map map;
    auto& x = SV[mc::choose(4, "value")];
    const int v = mc::choose(125 + 6, "variable");
    if (v >= 125) {
        const full_variable_name odd[] = {{"zz", "x"}, {"a", "none"}, {"", ""}, {"f", "x"}, {"f", "in", 0, "x", 0}, {"f", ""}};
        w.value(odd[v - 125], x, map);
    } else {
        w.value({"a", m->d->variables[v].name}, x, map);
        w.value({"a", m->d->variables[v].name}, SV[mc::choose(4, "second value")], map);
        for (int k = 0; k < 4; ++k) {
            std::string why = "?";
            const bool ok = is_valid_variable_value(m->d->variables[v], SV[k], &why);
            mc::check(ok == (k < 4 && (int)m->d->variables[v].type == k), "is_valid_variable_value() is wrong");
            mc::check(ok || (why != "?" && !why.empty()), "no reason given");
            mc::check(ok == is_valid_variable_value(m->d->variables[v], SV[k], nullptr), "is_valid_variable_value() depends on whether a reason is wanted");
        }
    }
    compare(w.s, w.r, w.trail, false);
    mc::outcome(mc::Str() << map.size());
}

void parameters()
{
    static const auto f = std::make_shared<FType>();
    World w;
    const std::vector<std::optional<function_parameter_value>> v{std::nullopt, 1, 2, 3, 0, 4, -1, 1.0, T_INT, T_STR, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()};
    function_parameter_value_map p;
    for (int i = 0; i < 3; ++i)
        if (auto& x = mc::pick(v, "parameter")) p[i] = *x;
    w.add("f", f, p);
    w.add("f", f, {});
    w.connect({"f", "out", 0, "", 0}, {"f", "in", 0, "x", 0});
    compare(w.s, w.r, w.trail, true);
    // parameters of the library's own function
    const auto vs = std::make_shared<vector_sum_function_type>();
    const auto bad = [](const std::optional<function_parameter_value>& q, bool type) {
        if (!q) return false;
        if (type) return !std::get_if<variable_type>(&*q);
        return !std::get_if<int>(&*q) || std::get<int>(*q) < 1;
    };
    auto at = [&](int i) { return p.count(i) ? std::optional<function_parameter_value>(p[i]) : std::nullopt; };
    const bool want = !bad(at(0), false) && !bad(at(1), true) && !bad(at(2), false);
    S s;
    const bool ok = accepted("vector sum", [&] { s.add_entity("v", vs, p); });
    mc::check(ok == want, mc::Str() << "vector sum: was " << (ok ? "accepted" : "refused"));
    if (ok) {
        const int g = at(0) ? std::get<int>(*at(0)) : 1, n = at(2) ? std::get<int>(*at(2)) : 1;
        for (auto [gn, gi, ii, in] : {std::tuple{"in", g - 1, n - 1, true}, {"in", g, 0, false}, {"in", 0, n, false}, {"out", 0, n - 1, true}, {"out", 1, 0, false}}) {
            if (gi == std::numeric_limits<int>::min() || ii == std::numeric_limits<int>::min()) continue;
            const bool found = accepted("lookup", [&] { s.get_function_io_description({"v", gn, gi, "", ii}); });
            mc::check(found == in, mc::Str() << "vector sum: lookup of " << gn << "[" << gi << "][" << ii << "]");
        }
    }
    mc::outcome(ok ? "ok" : "refused");
}

std::vector<std::function<void(World&, variable_value_map&)>> operations(bool wide)
{
    static const auto m = small_model("m", {{"o", 0, T_REAL, output, continuous, {}}, {"i", 1, T_REAL, input, continuous, {}}, {"j", 2, T_REAL, input, discrete, {}}, {"c", 0, T_INT, calculated_parameter, fixed, {}}, {"k", 1, T_INT, input, discrete, {}}});
    // same names, other meaning
    static const auto n = small_model("n", {{"o", 3, T_INT, output, discrete, {}}, {"i", 4, T_INT, input, discrete, {}}, {"j", 5, T_REAL, parameter, fixed, {}}, {"c", 6, T_REAL, output, continuous, {}}});
    static const auto f = std::make_shared<FType>();
    std::vector<std::function<void(World&, variable_value_map&)>> r;
    auto names = wide ? std::vector<std::string>{"a", "b", ""} : std::vector<std::string>{"a", "b"};
    for (auto& nm : names) {
        r.push_back([nm](World& w, auto&) { w.add(nm, m, 0, true); });
        r.push_back([nm](World& w, auto&) { w.add(nm, n, 7, true); });
        r.push_back([nm](World& w, auto&) { w.add(nm, f, {}); });
        r.push_back([nm](World& w, auto&) { w.add(nm, f, {{0, 2}, {1, T_INT}, {2, 1}}); });
        if (wide) r.push_back([nm](World& w, auto&) { w.add(nm, f, {{0, 4}}); });
        if (wide) r.push_back([nm](World& w, auto&) { w.add(nm, m, -1, false); });
    }
    std::vector<full_variable_name> src{{"a", "o"}, {"a", "c"}, {"a", "out", 1, "", 0}}, dst{{"b", "i"}, {"b", "j"}, {"b", "in", 0, "x", 0}, {"b", "in", 1, "x", 0}};
    if (wide) {
        src.push_back({"b", "o"});
        dst.push_back({"a", "i"});
        dst.push_back({"a", "in", 0, "x", 1});
        dst.push_back({"a", "in", 0, "", 1});
    }
    for (auto& a : src)
        for (auto& b : dst) r.push_back([a, b](World& w, auto&) { w.connect(a, b); });
    for (int k = 0; k < 2; ++k)
        for (auto v : {"i", "j"}) r.push_back([k, v](World& w, auto& map) { w.value({"b", v}, SV[k], map); });
    r.push_back([](World& w, auto&) {
        // what happens to a copy is of no concern to the original
        S copy = w.s;
        compare(copy, w.r, w.trail + " copy", true);
        try {
            copy.add_entity("zz", m);
            copy.connect_variables({"zz", "o"}, {"zz", "i"});
            copy.connect_variables({"zz", "o"}, {"b", "i"});
        } catch (const error&) {
        }
    });
    return r;
}

void histories(int depth, bool wide)
{
    const auto ops = operations(wide);
    World w;
    variable_value_map map;
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose((int)ops.size() + 1, "operation");
        if (!op) break;
        ops[op - 1](w, map);
        compare(w.s, w.r, w.trail, false);
    }
    compare(w.s, w.r, w.trail, true);
    mc::outcome(mc::Str() << w.r.ents.size() << "/" << w.r.conns.size() << "/" << w.r.values.size());
}
// from a populated structure
void more_histories(int depth)
{
    const auto ops = operations(true);
    World w;
    variable_value_map map;
    const int a = mc::choose(4, "a"), b = mc::choose(4, "b");
    ops[a](w, map);
    ops[6 + b](w, map);
    for (int k = 0; k < depth; ++k) {
        const int op = mc::choose((int)ops.size() + 1, "operation");
        if (!op) break;
        ops[op - 1](w, map);
        compare(w.s, w.r, w.trail, false);
    }
    compare(w.s, w.r, w.trail, true);
    mc::outcome(mc::Str() << w.r.ents.size() << "/" << w.r.conns.size() << "/" << w.r.values.size());
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C17";
    s.assumptions = {"models with different descriptions have different UUIDs"};
    const bool th = mc::thorough();
    s.add("sim_to_sim", sim_to_sim);
    s.add("sim_and_function", sim_and_function);
    s.add("values", values);
    s.add("parameters", parameters);
    s.add("histories", [th] { histories(th ? 5 : 4, false); });
    s.add("histories_wide", [th] { histories(th ? 4 : 3, true); });
    s.add("populated", [th] { more_histories(th ? 3 : 2); });
}
