// C26: OSP configuration files are loaded exactly as written.
#include "mc.hpp"
#include "sim.hpp"
#include "cosim/function/linear_transformation.hpp"
#include "cosim/function/vector_sum.hpp"
#include "cosim/orchestration.hpp"
#include "cosim/osp_config_parser.hpp"
#include "cosim/system_structure.hpp"
#include "cosim/uri.hpp"
#include <cmath>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>

namespace
{
using namespace sim;
namespace fs = std::filesystem;
using std::optional;
using std::string;
using std::vector;

// --- models -------------------------------------------------------------------------------------------------
struct Group
{
    string tag, name;
    vector<string> vars;
    vector<Group> subs;
};
struct Model : model
{
    std::shared_ptr<model_description> d = std::make_shared<model_description>();
    optional<vector<Group>> groups;
    std::shared_ptr<const model_description> description() const noexcept override { return d; }
    std::shared_ptr<slave> instantiate(std::string_view) override { return nullptr; }
    const variable_description* find(const string& n) const
    {
        for (auto& v : d->variables)
            if (v.name == n) return &v;
        return nullptr;
    }
};
std::shared_ptr<Model> new_model(const string& name)
{
    auto m = std::make_shared<Model>();
    m->d->name = name;
    m->d->uuid = "uuid-" + name;
    value_reference r = 0;
    auto add = [&](const string& n, variable_type t, variable_causality c, variable_variability v = continuous) { m->d->variables.push_back({n, r++, t, c, v, std::nullopt}); };
    for (int i = 0; i < 6; ++i) add("ro" + std::to_string(i), T_REAL, output);
    for (int i = 0; i < 6; ++i) add("ri" + std::to_string(i), T_REAL, input);
    add("io", T_INT, output, discrete);
    add("ii", T_INT, input, discrete);
    add("bo", T_BOOL, output, discrete);
    add("bi", T_BOOL, input, discrete);
    add("so", T_STR, output, discrete);
    add("si", T_STR, input, discrete);
    add("par", T_REAL, parameter, tunable);
    add("calc", T_REAL, calculated_parameter, fixed);
    add("loc", T_REAL, local);
    add("const", T_REAL, output, constant);
    add("fix", T_REAL, input, fixed);
    return m;
}
std::map<string, std::shared_ptr<Model>> models; // by file name or URI
string root;                                     // of the files

string xml(const string& s)
{
    string r;
    for (char c : s) r += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : string(1, c);
    return r;
}
string group_xml(const Group& g)
{
    string s = "<" + g.tag + " name=\"" + xml(g.name) + "\">";
    // the schema lets nested groups come before variables
    for (auto& x : g.subs) s += group_xml(x);
    for (auto& v : g.vars) s += "\n <Variable ref=\"" + xml(v) + "\"/>";
    return s + "</" + g.tag + ">\n";
}
string groups_xml(const vector<Group>& gs)
{
    string s = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<OspModelDescription xmlns=\"http://opensimulationplatform.com/MSMI/OSPModelDescription\" version=\"0.1\">\n"
               "<UnitDefinitions><Unit name=\"u\"><BaseUnit kg=\"1\"/></Unit></UnitDefinitions>\n<VariableGroups>\n";
    for (auto& g : gs) s += group_xml(g);
    return s + "</VariableGroups>\n</OspModelDescription>\n";
}
void spit(const string& path, const string& data)
{
    std::ofstream f(path, std::ios::binary);
    f << data;
}
void write_groups(const Model& m, const string& dir)
{
    if (m.groups) spit(dir + "/" + m.d->name + "_OspModelDescription.xml", groups_xml(*m.groups));
}

void prepare()
{
    if (!root.empty()) return;
    quiet_logs();
    // directories:  root/cfg (configuration, mA and mock:mC), root/other (mB)
    root = mc::scratch() + "/osp";
    fs::create_directories(root + "/cfg");
    fs::create_directories(root + "/other");
    const vector<Group> g = {
        {"Generic", "out3", {"ro0", "ro1", "ro2"}, {}}, {"Generic", "in3", {"ri0", "ri1", "ri2"}, {}},
        {"Generic", "out2", {"ro0", "ro1"}, {}}, {"Generic", "in2", {"ri1", "ri0"}, {}},
        {"Generic", "mixed", {"ro3", "ri3"}, {}}, {"Generic", "dexim", {"ri3", "ro3"}, {}},
        {"LinearMechanicalPort", "port", {}, {{"Force", "f", {"ro0", "ro1"}, {}}, {"LinearVelocity", "v", {"ri0", "ri1"}, {}}}},
        {"LinearMechanicalPort", "trop", {}, {{"Force", "f'", {"ri0", "ri1"}, {}}, {"LinearVelocity", "v'", {"ro0", "ro1"}, {}}}},
        {"LinearMechanicalPort", "port2", {}, {{"Force", "same", {"ro2", "ro3"}, {}}, {"LinearVelocity", "vel", {"ri2"}, {}}}},
        {"LinearMechanicalPort", "trop2", {}, {{"Force", "same", {"ri2", "ri3"}, {}}, {"LinearVelocity", "vel", {"ro2"}, {}}}},
        {"Generic", "deepO", {"ro5"}, {{"Generic", "d1", {}, {{"Generic", "d2", {"ro4", "ro3"}, {}}}}, {"Force", "d3", {"ri3"}, {}}}},
        {"Generic", "deepI", {"ri5"}, {{"Generic", "e1", {}, {{"Generic", "e2", {"ri4", "ri2"}, {}}}}, {"Force", "e3", {"ro2"}, {}}}},
        {"Generic", "deepBad", {"ri5"}, {{"Generic", "x1", {}, {{"Generic", "x2", {"ri4"}, {}}}}, {"Force", "x3", {"ro2"}, {}}}},
        {"Generic", "empty", {}, {}}, {"Generic", "unknown", {"nope"}, {}}, {"Generic", "ints", {"io"}, {}}, {"Generic", "intsI", {"ii"}, {}},
        {"Generic", "port3", {}, {{"Generic", "d1", {"ro0"}, {}}}}, {"Generic", "shadow", {}, {{"Generic", "out2", {"ro4", "ro5"}, {}}}}};
    for (string n : {"mA", "mB", "mC", "mN"}) {
        auto m = new_model(n);
        models[n] = m;
        if (n != "mN") m->groups = g;
    }
    write_groups(*models["mA"], root + "/cfg");
    write_groups(*models["mB"], root + "/other");
    write_groups(*models["mC"], root + "/cfg");
    spit(root + "/other/far_OspModelDescription.xml", "not this one");
}
const vector<string>& group_names()
{
    static const vector<string> n = {"out3", "in3", "out2", "in2", "mixed", "dexim", "port", "trop", "port2", "trop2", "deepO", "deepI", "deepBad", "empty", "unknown", "ints", "intsI",
        "f", "v'", "d2", "e2", "d1", "zz", "", "port3", "shadow"};
    return n;
}

/// Sources as they may be written in the file, and the model each one means ("" if there is none)
const vector<std::pair<string, string>>& sources()
{
    static vector<std::pair<string, string>> s;
    if (s.empty())
        s = {{"mA.fmu", "mA"}, {"../other/mB.fmu", "mB"}, {"mock:mC", "mC"}, {"file://" + root + "/other/mB.fmu", "mB"}, {"./mN.fmu", "mN"}, {"sub/../mA.fmu", "mA"}, {"zz.fmu", ""}, {"mock:zz", ""}, {"", ""}};
    return s;
}
struct Resolver : model_uri_sub_resolver
{
    std::shared_ptr<model> lookup_model(const uri& u) override
    {
        const auto t = string(u.view());
        if (t.rfind("mock:", 0) == 0) {
            auto m = models.find(t.substr(5));
            return m == models.end() ? nullptr : m->second;
        }
        if (!u.scheme() || *u.scheme() != "file") return nullptr;
        const auto p = file_uri_to_path(u).string();
        for (auto& [n, m] : models)
            if (p == root + (n == "mB" ? "/other/" : "/cfg/") + n + ".fmu") return m;
        return nullptr;
    }
};

// --- documents ------------------------------------------------------------------------------------------------
struct Init
{
    string var, kind, text;
};
struct Sim
{
    string name, source;
    optional<string> step;
    vector<Init> init;
};
struct Fn
{
    char kind; // L(inear transformation), S(um), V(ector sum)
    string name;
    optional<string> a, b; // factor and offset, input count, input count and dimension
};
struct Conn
{
    char kind; // v(ariable), s(ignal), g(roup of variables), G(roup of signals)
    string o1, n1, o2, n2;
    bool swap = false; // written in the opposite order
};
struct Doc
{
    optional<string> start, end, base;
    vector<Sim> sims;
    vector<Fn> fns;
    vector<Conn> conns;
};

string to_xml(const Doc& d, int style = 0)
{
    const string p = style == 1 ? "osp:" : "";
    const string gap = style == 2 ? "\n  <!-- <Simulator name='zz' source='zz'/> -->\n  <?pi?>\n" : "\n";
    string s = "<?xml version=\"1.0\" encoding=\"utf-8\"?>" + gap + "<" + p + "OspSystemStructure xmlns" + (style == 1 ? ":osp" : "") + "=\"http://opensimulationplatform.com/MSMI/OSPSystemStructure\" version=\"0.1\">" + gap;
    auto open = [&](const string& tag) { return "<" + p + tag; };
    auto close = [&](const string& tag) { return "</" + p + tag + ">" + gap; };
    auto at = [&](const string& n, const string& v) { return " " + n + (style == 2 ? " = \"" : "=\"") + xml(v) + "\""; };
    auto elem = [&](const string& tag, const optional<string>& v) { if (v) s += open(tag) + ">" + xml(*v) + close(tag); };
    elem("StartTime", d.start);
    elem("EndTime", d.end);
    elem("BaseStepSize", d.base);
    s += open("Simulators") + ">" + gap;
    for (auto& x : d.sims) {
        s += open("Simulator") + at("name", x.name) + at("source", x.source) + (x.step ? at("stepSize", *x.step) : "") + ">" + gap;
        if (!x.init.empty() || style == 2) {
            s += open("InitialValues") + ">" + gap;
            for (auto& i : x.init) s += open("InitialValue") + at("variable", i.var) + ">" + gap + open(i.kind) + at("value", i.text) + "/>" + gap + close("InitialValue");
            s += close("InitialValues");
        }
        s += close("Simulator");
    }
    s += close("Simulators");
    if (!d.fns.empty()) {
        s += open("Functions") + ">" + gap;
        for (auto& f : d.fns) {
            s += open(f.kind == 'L' ? "LinearTransformation" : f.kind == 'S' ? "Sum" : "VectorSum") + at("name", f.name);
            if (f.a) s += at(f.kind == 'L' ? "factor" : "inputCount", *f.a);
            if (f.b) s += at(f.kind == 'L' ? "offset" : "dimension", *f.b);
            s += "/>" + gap;
        }
        s += close("Functions");
    }
    if (!d.conns.empty()) {
        s += open("Connections") + ">" + gap;
        for (auto& c : d.conns) {
            const string tag = c.kind == 'v' ? "VariableConnection" : c.kind == 's' ? "SignalConnection" : c.kind == 'g' ? "VariableGroupConnection" : "SignalGroupConnection";
            const bool sig = c.kind == 's' || c.kind == 'G', grp = c.kind == 'g' || c.kind == 'G';
            const string e1 = open(sig ? (grp ? "SignalGroup" : "Signal") : (grp ? "VariableGroup" : "Variable")) + at(sig ? "function" : "simulator", c.o1) + at("name", c.n1) + "/>" + gap;
            const string e2 = open(grp ? "VariableGroup" : "Variable") + at("simulator", c.o2) + at("name", c.n2) + "/>" + gap;
            s += open(tag) + ">" + gap + (c.swap ? e2 + e1 : e1 + e2) + close(tag);
        }
        s += close("Connections");
    }
    return s + close("OspSystemStructure");
}

// --- what it means ------------------------------------------------------------------------------------------------
struct Num
{
    bool ok;
    double v;
};
const vector<std::pair<string, Num>>& doubles()
{
    static const double inf = std::numeric_limits<double>::infinity();
    static const vector<std::pair<string, Num>> t = {
        {"0.25", {true, .25}}, {"1e1", {true, 10}}, {"-2", {true, -2}}, {"+1.5", {true, 1.5}}, {" 3 ", {true, 3}}, {"\n.5\t", {true, .5}}, {"0", {true, 0}}, {"2", {true, 2}}, {"1E-4", {true, 1e-4}},
        {"INF", {true, inf}}, {"-INF", {true, -inf}}, {"NaN", {true, std::nan("")}}, {"1e300", {true, 1e300}}, {"1e11", {true, 1e11}}, {"1e-12", {true, 1e-12}}, {"", {false, 0}}, {"x", {false, 0}}, {"1,5", {false, 0}}, {"1 2", {false, 0}}, {"0x10", {false, 0}}};
    return t;
}
Num number(const string& s)
{
    for (auto& [t, n] : doubles())
        if (t == s) return n;
    char* e;
    const double v = std::strtod(s.c_str(), &e);
    mc::check(*e == 0 && !s.empty(), "harness: number " + s);
    return {true, v};
}
bool fits(double v) { return std::isfinite(v) && std::fabs(v) < 9e9; }

using Name = std::tuple<string, string, int, string, int>;
Name name_of(const full_variable_name& v) { return {v.entity_name, v.variable_group_name, v.variable_group_instance, v.variable_name, v.variable_instance}; }
Name sim_var(const string& s, const string& v) { return {s, "", 0, v, 0}; }
string text(const Name& n)
{
    return std::get<0>(n) + ":" + std::get<1>(n) + "[" + std::to_string(std::get<2>(n)) + "]:" + std::get<3>(n) + "[" + std::to_string(std::get<4>(n)) + "]";
}
struct Meaning
{
    enum { ok, reject, any } verdict = ok;
    string why;
    double start = 0;
    optional<double> end, base;
    std::map<string, std::pair<string, double>> sims; // model, step size
    struct F { char kind; double a, b; };
    std::map<string, F> fns;
    std::map<Name, Name> conns; // target to source
    std::map<std::pair<string, string>, std::pair<string, string>> init; // kind and text
    void bad(const string& w) { if (verdict != reject) { verdict = reject; why = w; } }
    void unclear(const string& w) { if (verdict == ok) { verdict = any; why = w; } }
};

const variable_description* var_of(const Meaning& m, const string& s, const string& v)
{
    auto it = m.sims.find(s);
    return it == m.sims.end() ? nullptr : models[it->second.first]->find(v);
}
bool is_source(variable_causality c) { return c == output || c == calculated_parameter; }
bool is_target(const variable_description& d) { return d.causality == input && d.variability != constant && d.variability != fixed; }
void connect(Meaning& m, const Name& from, const Name& to)
{
    if (!m.conns.emplace(to, from).second) m.bad(text(to) + " connected twice");
}
void connect_vars(Meaning& m, const string& s1, const string& v1, const string& s2, const string& v2)
{
    const auto a = var_of(m, s1, v1), b = var_of(m, s2, v2);
    if (!a || !b) return m.bad("unknown variable " + s1 + "." + v1 + " or " + s2 + "." + v2);
    if (a->type != b->type) return m.bad("types differ");
    if (is_source(a->causality) && is_target(*b)) connect(m, sim_var(s1, v1), sim_var(s2, v2));
    else if (is_source(b->causality) && is_target(*a)) connect(m, sim_var(s2, v2), sim_var(s1, v1));
    else m.bad("directions of " + v1 + ", " + v2);
}
void find_nested(const vector<Group>& gs, const string& n, vector<const Group*>& r)
{
    for (auto& g : gs) {
        if (g.name == n) r.push_back(&g);
        find_nested(g.subs, n, r);
    }
}
const Group* group_of(Meaning& m, const string& s, const string& n, bool topOnly)
{
    auto it = m.sims.find(s);
    if (it == m.sims.end() || !models[it->second.first]->groups) {
        m.bad("no group description for " + s);
        return nullptr;
    }
    auto& gs = *models[it->second.first]->groups;
    for (auto& g : gs)
        if (g.name == n) return &g;
    vector<const Group*> r;
    for (auto& g : gs) find_nested(g.subs, n, r);
    if (r.empty()) m.bad("no group " + n);
    else if (r.size() > 1 || topOnly) m.unclear("nested group " + n);
    return r.size() == 1 ? r[0] : nullptr;
}
void connect_groups(Meaning& m, const string& s1, const Group& g1, const string& s2, const Group& g2)
{
    if (g1.vars.size() != g2.vars.size() || g1.subs.size() != g2.subs.size()) return m.bad("groups " + g1.name + " and " + g2.name + " do not match");
    for (size_t i = 0; i < g1.subs.size(); ++i) connect_groups(m, s1, g1.subs[i], s2, g2.subs[i]);
    for (size_t i = 0; i < g1.vars.size(); ++i) connect_vars(m, s1, g1.vars[i], s2, g2.vars[i]);
}
optional<int> count(const optional<string>& s)
{
    static const std::map<string, int> ok = {{"1", 1}, {"2", 2}, {"3", 3}, {"+2", 2}, {"02", 2}, {" 2 ", 2}};
    if (!s) return std::nullopt;
    auto it = ok.find(*s);
    return it == ok.end() ? std::nullopt : optional<int>(it->second);
}

Meaning meaning(const Doc& d)
{
    Meaning m;
    auto time = [&](const optional<string>& t, const char* what) -> optional<double> {
        if (!t) return std::nullopt;
        const auto n = number(*t);
        if (!n.ok || !fits(n.v)) {
            m.bad(string("invalid ") + what);
            return 0;
        }
        return n.v;
    };
    const bool emptyStart = d.start && d.start->empty(); // has the default value then, according to the schema
    m.start = emptyStart ? 0 : time(d.start, "start time").value_or(0);
    m.end = time(d.end, "end time");
    m.base = time(d.base, "base step size");
    if (m.start < 0 || (m.end && *m.end < 0)) m.unclear("negative time");
    if (m.end && m.start > *m.end) m.bad("start after end");
    if (m.end && m.start == *m.end) m.unclear("start at end");
    if (m.base && *m.base < 1e-9) m.bad("base step size");
    std::set<string> names;
    for (auto& s : d.sims) {
        string model;
        for (auto& [u, n] : sources())
            if (u == s.source) model = n;
        if (model.empty()) {
            m.bad("no model " + s.source);
            continue;
        }
        if (s.name.empty() || !names.insert(s.name).second) m.bad("entity name " + s.name);
        double step = 0;
        if (s.step) {
            const auto n = number(*s.step);
            if (!n.ok || !fits(n.v) || n.v < 0) m.bad("step size");
            else step = n.v;
        }
        m.sims[s.name] = {model, step};
        for (auto& i : s.init) {
            const auto v = models[model]->find(i.var);
            const variable_type t = i.kind == "Real" ? T_REAL : i.kind == "Integer" ? T_INT : i.kind == "Boolean" ? T_BOOL : T_STR;
            if (!v || v->type != t || v->variability == constant) {
                m.bad("initial value of " + i.var);
                continue;
            }
            if (t == T_REAL && !number(i.text).ok) m.bad("value " + i.text);
            static const std::set<string> ints = {"5", "-7", "+8", " 9 ", "007", "2147483647", "-2147483648"}, bools = {"true", "false", "1", "0", " true "};
            if (t == T_INT && !ints.count(i.text)) m.bad("value " + i.text);
            if (t == T_BOOL && !bools.count(i.text)) m.bad("value " + i.text);
            if (!m.init.emplace(std::pair(s.name, i.var), std::pair(i.kind, i.text)).second) m.unclear("two initial values");
        }
    }
    for (auto& f : d.fns) {
        if (f.name.empty() || !names.insert(f.name).second) m.bad("entity name " + f.name);
        Meaning::F x{f.kind, 1, 0};
        if (f.kind == 'L') {
            for (auto [t, p] : {std::pair(&f.a, &x.a), std::pair(&f.b, &x.b)})
                if (*t) {
                    const auto n = number(**t);
                    if (!n.ok) m.bad("factor or offset");
                    *p = n.v;
                }
        } else {
            const auto a = count(f.a), b = f.kind == 'V' ? count(f.b) : optional<int>(1);
            if (!a || !b) m.bad("number of inputs or dimension");
            x.a = a.value_or(1);
            x.b = b.value_or(1);
        }
        m.fns[f.name] = x;
    }
    std::set<std::pair<string, string>> used;
    for (auto& c : d.conns) {
        if (c.kind == 'v') connect_vars(m, c.o1, c.n1, c.o2, c.n2);
        if (c.kind == 'g') {
            const auto a = group_of(m, c.o1, c.n1, false), b = group_of(m, c.o2, c.n2, false);
            if (a && b) connect_groups(m, c.o1, *a, c.o2, *b);
        }
        if (c.kind != 's' && c.kind != 'G') continue;
        auto f = m.fns.find(c.o1);
        if (f == m.fns.end()) {
            m.bad("no function " + c.o1);
            continue;
        }
        const auto& x = f->second;
        // which signals these are
        int in = -1;
        bool out = c.n1 == "out";
        if (x.kind == 'L' && c.n1 == "in") in = 0;
        if (x.kind != 'L')
            for (int i = 0; i < x.a; ++i)
                if (c.n1 == "in[" + std::to_string(i) + "]") in = i;
        if (x.kind == 'V' && c.kind == 's') {
            // single signals of a vector
            m.unclear("single signal of a vector");
            continue;
        }
        if (x.kind != 'V' && c.kind == 'G') {
            m.unclear("group of a function without groups");
            if (x.kind == 'L' || (in < 0 && !out)) m.bad("no group " + c.n1);
            continue;
        }
        if (in < 0 && !out) {
            m.bad("no signal " + c.n1);
            continue;
        }
        used.insert({c.o1, c.n1});
        vector<string> vars{c.n2};
        if (c.kind == 'G') {
            const auto g = group_of(m, c.o2, c.n2, true);
            if (!g) continue;
            if ((int)g->vars.size() != (int)x.b || !g->subs.empty()) m.bad("group " + c.n2 + " does not match");
            vars = g->vars;
        }
        for (size_t j = 0; j < vars.size(); ++j) {
            const auto v = var_of(m, c.o2, vars[j]);
            if (!v) {
                m.bad("unknown variable " + vars[j]);
                continue;
            }
            if (v->type != T_REAL) m.bad("type of " + vars[j]);
            const Name sv = sim_var(c.o2, vars[j]);
            if (out) {
                if (!is_target(*v)) m.bad("direction of " + vars[j]);
                connect(m, Name{c.o1, "out", 0, "", (int)j}, sv);
            } else {
                if (!is_source(v->causality)) m.bad("direction of " + vars[j]);
                connect(m, sv, Name{c.o1, "in", in, "", (int)j});
            }
        }
    }
    for (auto& [n, f] : m.fns) {
        bool all = used.count({n, "out"});
        for (int i = 0; i < (f.kind == 'L' ? 1 : f.a); ++i) all &= used.count({n, f.kind == 'L' ? string("in") : "in[" + std::to_string(i) + "]"}) > 0;
        if (!all) m.unclear("function " + n + " is not completely connected");
    }
    return m;
}

string same_number(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) ? "" : std::to_string(a) + " instead of " + std::to_string(b); }

/// Loads the file; compares the result with what it means.
struct Loaded
{
    bool ok = false;
    string error;
    osp_config cfg;
};
Loaded load(const string& path)
{
    model_uri_resolver r;
    r.add_sub_resolver(std::make_shared<Resolver>());
    Loaded l;
    mc::transition();
    try {
        l.cfg = load_osp_config(path, r);
        l.ok = true;
    } catch (const std::exception& e) {
        l.error = e.what();
    }
    return l;
}
void compare(const Loaded& l, const Meaning& m, const string& what)
{
    if (m.verdict == Meaning::any) return;
    if (m.verdict == Meaning::reject) {
        mc::check(!l.ok, what + "\n was accepted in spite of: " + m.why);
        return;
    }
    mc::check(l.ok, what + "\n was refused: " + l.error);
    auto near = [](auto got, double want) { return std::fabs((double)(std::chrono::duration_cast<duration>(got).count() - (long double)want * 1e9L)) <= 1.0 + std::fabs(want) * 1e-6; };
    mc::check(near(l.cfg.start_time.time_since_epoch(), m.start), what + "\n start time");
    mc::check(l.cfg.end_time.has_value() == m.end.has_value() && (!m.end || near(l.cfg.end_time->time_since_epoch(), *m.end)), what + "\n end time");
    if (m.base) mc::check(near(l.cfg.step_size, *m.base), what + "\n base step size");
    else mc::check(l.cfg.step_size.count() > 0, what + "\n default step size");
    size_t n = 0;
    for (auto& e : l.cfg.system_structure.entities()) {
        ++n;
        const string name(e.name);
        if (auto s = m.sims.find(name); s != m.sims.end()) {
            mc::check(entity_type_to<model>(e.type) == models[s->second.first], what + "\n model of " + name);
            mc::check(near(e.step_size_hint, s->second.second), what + "\n step size of " + name);
            continue;
        }
        auto f = m.fns.find(name);
        mc::check(f != m.fns.end(), what + "\n entity " + name);
        auto t = entity_type_to<function_type>(e.type);
        auto param = [&](int i) {
            auto p = e.parameter_values.find(i);
            return p == e.parameter_values.end() ? t->description().parameters.at(i).default_value : p->second;
        };
        auto real = [&](int i) { auto p = param(i); return std::holds_alternative<double>(p) ? std::get<double>(p) : (double)std::get<int>(p); };
        if (f->second.kind == 'L') {
            mc::check(dynamic_cast<linear_transformation_function_type*>(t.get()), what + "\n type of " + name);
            mc::check(same_number(real(linear_transformation_function_type::factor_parameter_index), f->second.a).empty(), what + "\n factor of " + name);
            mc::check(same_number(real(linear_transformation_function_type::offset_parameter_index), f->second.b).empty(), what + "\n offset of " + name);
        } else {
            mc::check(dynamic_cast<vector_sum_function_type*>(t.get()), what + "\n type of " + name);
            mc::check(real(vector_sum_function_type::inputCount_parameter_index) == f->second.a, what + "\n input count of " + name);
            mc::check(real(vector_sum_function_type::dimension_parameter_index) == f->second.b, what + "\n dimension of " + name);
            mc::check(std::get<variable_type>(param(vector_sum_function_type::numericType_parameter_index)) == T_REAL, what + "\n type of numbers of " + name);
        }
    }
    mc::check(n == m.sims.size() + m.fns.size(), what + "\n number of entities");
    std::map<Name, Name> conns;
    for (auto c : l.cfg.system_structure.connections()) conns.emplace(name_of(c.target), name_of(c.source));
    for (auto& [t, s] : m.conns) mc::check(conns.count(t) && conns[t] == s, what + "\n missing connection " + text(s) + " -> " + text(t));
    for (auto& [t, s] : conns) mc::check(m.conns.count(t), what + "\n extra connection " + text(s) + " -> " + text(t));
    mc::check(l.cfg.initial_values.size() == m.init.size(), what + "\n number of initial values");
    for (auto& [v, x] : l.cfg.initial_values) {
        auto i = m.init.find({v.entity_name, v.variable_name});
        mc::check(v.is_simulator_variable() && i != m.init.end(), what + "\n initial value of " + v.variable_name);
        const auto& [kind, t] = i->second;
        bool ok = false;
        if (kind == "Real") ok = std::holds_alternative<double>(x) && same_number(std::get<double>(x), number(t).v).empty();
        if (kind == "Integer") ok = std::holds_alternative<int>(x) && std::get<int>(x) == std::strtol(t.c_str(), nullptr, 10);
        if (kind == "Boolean") ok = std::holds_alternative<bool>(x) && std::get<bool>(x) == (t == "1" || t == "true" || t == " true ");
        if (kind == "String") ok = std::holds_alternative<string>(x) && std::get<string>(x) == t;
        mc::check(ok, what + "\n initial value of " + v.variable_name + " is wrong");
    }
}
void test(const Doc& d, int style = 0)
{
    const auto x = to_xml(d, style);
    const auto file = root + "/cfg/OspSystemStructure.xml";
    spit(file, x);
    const auto m = meaning(d);
    const auto l = load(file);
    if (mc::tracing()) mc::note(x + "\n meaning: " + (m.verdict == Meaning::ok ? "ok" : m.why) + "\n result: " + (l.ok ? "ok" : l.error));
    compare(l, m, x);
    mc::outcome(mc::Str() << m.verdict << l.ok << m.conns.size());
}

Doc two_sims()
{
    Doc d;
    d.sims = {{"a", "mA.fmu", {}, {}}, {"b", "../other/mB.fmu", {}, {}}};
    return d;
}

// --- scenarios ----------------------------------------------------------------------------------------------------
void times()
{
    prepare();
    Doc d = two_sims();
    auto pick = [&](optional<string>& t, const char* l) {
        const int k = mc::choose((int)doubles().size() + 1, l);
        if (k) t = doubles()[k - 1].first;
    };
    pick(d.start, "start");
    pick(d.end, "end");
    pick(d.base, "base");
    test(d);
}
const vector<Init>& inits()
{
    static vector<Init> v;
    if (v.empty()) {
        for (auto& [t, n] : doubles()) v.push_back({"ri0", "Real", t});
        for (auto t : {"5", "-7", "+8", " 9 ", "007", "2147483647", "2147483648", "-2147483648", "", "x", "1.0", "0x1"}) v.push_back({"ii", "Integer", t});
        for (auto t : {"true", "false", "1", "0", " true ", "TRUE", "2", "", "yes"}) v.push_back({"bi", "Boolean", t});
        for (auto t : {"", "text", "two words", " <&\"' ", "1", "\xc3\xa6\xe2\x82\xac"}) v.push_back({"si", "String", t});
        for (auto n : {"ro0", "par", "calc", "loc", "const", "fix", "zz", "", "ii", "bi", "si"}) v.push_back({n, "Real", "0.25"});
        for (auto n : {"ri0", "io", "bi", "si", "ii"}) v.push_back({n, "Integer", "5"});
        v.push_back({"ii", "Boolean", "1"});
        v.push_back({"ri0", "Boolean", "1"});
        v.push_back({"ri0", "String", "1"});
        v.push_back({"ii", "String", "1"});
        v.push_back({"bo", "Boolean", "true"});
    }
    return v;
}
void simulators(bool wide)
{
    prepare();
    Doc d;
    static const vector<string> names = {"a", "b", "", "a b", "<&\"'>", "\xc3\xa6", "a:b"};
    const vector<optional<string>> steps = {std::nullopt, "0.25", "0", "-2", "INF", "NaN", "1e300", "", "x", "1e-12", " 3 "};
    const int n = 1 + mc::choose(wide ? 3 : 2, "simulators");
    for (int i = 0; i < n; ++i) {
        Sim s;
        s.name = i == 0 ? mc::pick(names, "name") : i == 1 ? names[mc::choose(wide ? (int)names.size() : 2, "name")] : "c";
        s.source = (i == 0 || wide ? mc::pick(sources(), "source") : sources()[mc::choose(4, "source") * 2]).first;
        s.step = i == 0 ? mc::pick(steps, "step") : i == 1 ? steps[mc::choose(wide ? 3 : 2)] : std::nullopt;
        d.sims.push_back(s);
    }
    test(d);
}
void initial_values(int max)
{
    prepare();
    Doc d = two_sims();
    const int n = 1 + mc::choose(max, "values");
    for (int i = 0; i < n; ++i) d.sims[i == 1 ? mc::choose(2, "simulator") : 0].init.push_back(mc::pick(inits(), "initial value"));
    test(d);
}
void variable_connections(int max)
{
    prepare();
    Doc d = two_sims();
    static const vector<std::pair<string, string>> from = {{"a", "ro0"}, {"b", "ro1"}, {"a", "calc"}, {"a", "io"}, {"b", "so"}, {"a", "const"}, {"a", "par"}, {"a", "zz"}, {"zz", "ro0"}};
    static const vector<std::pair<string, string>> to = {{"b", "ri0"}, {"a", "ri1"}, {"b", "ii"}, {"a", "si"}, {"b", "fix"}, {"b", "par"}, {"b", "loc"}, {"a", "ro0"}, {"b", "zz"}, {"zz", "ri0"}};
    const int n = 1 + mc::choose(max, "connections");
    for (int i = 0; i < n; ++i) {
        // later ones are from a smaller set
        const auto& f = from[mc::choose(i == 0 ? (int)from.size() : 4, "from")];
        const auto& t = to[mc::choose(i == 0 ? (int)to.size() : 4, "to")];
        d.conns.push_back({'v', f.first, f.second, t.first, t.second, (bool)mc::choose(2, "order")});
    }
    test(d);
}
/// All signals of a function connected
void wire(Doc& d, const Fn& f, int k)
{
    const int n = f.kind == 'L' ? 1 : count(f.a).value_or(1), dim = f.kind == 'V' ? count(f.b).value_or(1) : 1;
    const char kind = f.kind == 'V' ? 'G' : 's';
    for (int i = 0; i < n; ++i)
        d.conns.push_back({kind, f.name, f.kind == 'L' ? "in" : "in[" + std::to_string(i) + "]", i % 2 ? "b" : "a", f.kind == 'V' ? (dim == 1 ? "ints" : dim == 2 ? "out2" : "out3") : "ro" + std::to_string(i + k), (i + k) % 2 == 1});
    d.conns.push_back({kind, f.name, "out", k ? "a" : "b", f.kind == 'V' ? (dim == 2 ? "in2" : "in3") : "ri" + std::to_string(k), k == 1});
}
void functions(int edits, bool two)
{
    prepare();
    Doc d = two_sims();
    vector<Fn> pool;
    for (auto f : {"0.25", "-2", "1e1", "INF"}) pool.push_back({'L', "f", f, "0.5"});
    pool.push_back({'L', "f", {}, "3"});
    pool.push_back({'L', "f", "2", {}});
    pool.push_back({'L', "f", {}, {}});
    pool.push_back({'L', "f", "", {}});
    pool.push_back({'L', "f", "x", {}});
    for (auto c : {"1", "2", "3", "+2", "02", " 2 ", "0", "-1", "", "x", "1.0", "99999999999"}) pool.push_back({'S', "f", c, {}});
    pool.push_back({'S', "f", {}, {}});
    for (auto c : {"1", "2", "+2", "0", "x", ""})
        for (auto e : {"2", "3", "02", "0", "99999999999"}) pool.push_back({'V', "f", c, e});
    pool.push_back({'V', "f", "1", {}});
    pool.push_back({'V', "f", {}, "2"});
    pool.push_back({'L', "", {}, {}});
    pool.push_back({'S', "a", "1", {}});
    pool.push_back({'L', "f g<", {}, {}});
    static const vector<Fn> small = {{'L', "f", "2", "3"}, {'L', "g", "4", "5"}, {'S', "f", "2", {}}, {'S', "g", "1", {}}, {'V', "f", "2", "2"}, {'V', "g", "1", "2"}, {'V', "g", "1", "3"}};
    const auto f = two ? mc::pick(small, "function") : mc::pick(pool, "function");
    d.fns.push_back(f);
    wire(d, f, 0);
    if (two) {
        const auto g = mc::pick(small, "second function");
        d.fns.push_back(g);
        // the schema wants them in order
        const string order = "LSV";
        if (order.find(g.kind) < order.find(f.kind)) std::swap(d.fns[0], d.fns[1]);
        wire(d, g, 2);
    }
    static const vector<string> signals = {"in", "out", "in[0]", "in[1]", "in[2]", "in[-1]", "in[3]", "", "zz", "in[0][0]", "out[0]", "In"};
    static const vector<std::pair<string, string>> vars = {{"a", "ro5"}, {"b", "ri5"}, {"a", "io"}, {"b", "ii"}, {"a", "zz"}, {"zz", "ro0"}, {"a", "calc"}, {"b", "fix"}, {"b", "par"}};
    static const vector<std::pair<string, string>> groups = {{"a", "out3"}, {"b", "in3"}, {"a", "in2"}, {"b", "out2"}, {"a", "zz"}, {"zz", "out2"}, {"a", "port"}, {"a", "empty"}, {"a", "mixed"}, {"a", "deepO"}, {"b", "f"}, {"b", "same"}};
    // fewer of these if there are two functions
    auto few = [&](const auto& v, int n, const char* l) { return v[mc::choose(two && !mc::thorough() ? n : (int)v.size(), l)]; };
    for (int e = 0; e < edits; ++e) {
        const int kind = mc::choose(7, "edit");
        if (kind == 0) break;
        if (kind == 6) {
            // another connection of any kind
            const bool group = mc::choose(2, "group");
            const auto v = group ? few(groups, 4, "variable") : few(vars, 4, "variable");
            const int i = mc::choose(mc::thorough() ? 3 : 2, "function");
            d.conns.push_back({group ? 'G' : 's', i == 0 ? "f" : i == 1 ? "zz" : "a", few(signals, 6, "signal"), v.first, v.second});
            continue;
        }
        int k = mc::choose(two && !mc::thorough() ? std::min(2, (int)d.conns.size()) : (int)d.conns.size(), "connection");
        if (two && !mc::thorough() && k == 1) k = (int)d.conns.size() - 1; // the second function's output
        auto& c = d.conns[k];
        if (kind == 1) d.conns.erase(d.conns.begin() + k);
        if (kind == 2) c.swap = !c.swap;
        if (kind == 3) c.n1 = few(signals, 6, "signal");
        if (kind == 4) {
            const auto v = c.kind == 'G' ? few(groups, 4, "variable") : few(vars, 4, "variable");
            c.o2 = v.first;
            c.n2 = v.second;
        }
        if (kind == 5) {
            // the same signal once more, to another variable
            auto x = c;
            const auto v = c.kind == 'G' ? few(groups, 4, "variable") : few(vars, 4, "variable");
            x.o2 = v.first;
            x.n2 = v.second;
            d.conns.insert(d.conns.begin() + mc::choose(2) * (int)d.conns.size(), x);
        }
    }
    test(d);
}
void group_connections(int more)
{
    prepare();
    Doc d = two_sims();
    if (mc::choose(2, "models without descriptions")) d.sims.push_back({"n", "./mN.fmu", {}, {}});
    static const vector<string> owners = {"b", "a", "n", "zz"};
    const auto& n1 = mc::pick(group_names(), "group");
    const auto& n2 = mc::pick(group_names(), "group");
    const auto& o2 = d.sims.size() > 2 ? owners[2 + mc::choose(2)] : owners[mc::choose(2, "simulator")];
    d.conns.push_back({'g', "a", n1, o2, n2, (bool)mc::choose(2, "order")});
    static const vector<std::array<string, 2>> other = {{"out2", "in2"}, {"port", "trop"}, {"port2", "trop2"}, {"deepO", "deepI"}, {"mixed", "dexim"}, {"ints", "intsI"}, {"shadow", "shadow"}};
    if (more) {
        // in addition to one that works, unless thorough
        const bool good = d.sims.size() == 2 && meaning(d).verdict == Meaning::ok;
        const int k = more > 1 || good ? mc::choose((int)other.size() * 2 + 1, "another one") : 0;
        if (k) d.conns.push_back({'g', (k - 1) % 2 ? "b" : "a", other[(k - 1) / 2][0], (k - 1) % 2 ? "a" : "b", other[(k - 1) / 2][1]});
        if (more > 1) {
            const int k2 = mc::choose((int)other.size() * 2 + 1, "another one");
            if (k2) d.conns.push_back({'g', (k2 - 1) % 2 ? "a" : "b", other[(k2 - 1) / 2][1], (k2 - 1) % 2 ? "b" : "a", other[(k2 - 1) / 2][0]});
        }
    }
    test(d);
}
Doc everything()
{
    Doc d = two_sims();
    d.start = "0.25";
    d.end = "1e1";
    d.base = "1E-4";
    d.sims.push_back({"c", "mock:mC", "0.25", {{"ri5", "Real", "1E-4"}, {"ii", "Integer", "-7"}, {"bi", "Boolean", "true"}, {"si", "String", "two words"}}});
    d.sims[0].step = "1E-4";
    d.sims[0].init = {{"par", "Real", "2"}};
    d.fns = {{'L', "lin", "2", "3"}, {'S', "sum", "2", {}}, {'V', "vec", "2", "2"}};
    d.conns = {
        {'s', "lin", "in", "a", "ro0", false}, {'v', "a", "ro1", "b", "ri5", true}, {'s', "lin", "out", "b", "ri4", true}, {'g', "a", "port", "b", "trop", false},
        {'s', "sum", "in[0]", "a", "ro3", false}, {'s', "sum", "in[1]", "b", "ro3", true}, {'s', "sum", "out", "c", "ri0", false}, {'G', "vec", "in[0]", "a", "out2", false},
        {'G', "vec", "out", "c", "in2", true}, {'G', "vec", "in[1]", "b", "out2", true}, {'v', "c", "ri3", "a", "calc", false}};
    d.conns[6].n2 = "ri4";
    return d;
}
/// Everything at the same time, in several notations and orders, from files in odd places
void notations()
{
    prepare();
    Doc d = everything();
    const int style = mc::choose(3, "style");
    const int rot = mc::choose((int)d.conns.size(), "order");
    std::rotate(d.conns.begin(), d.conns.begin() + rot, d.conns.end());
    if (mc::choose(2, "reversed")) std::reverse(d.conns.begin(), d.conns.end());
    if (mc::choose(2, "simulators reversed")) std::reverse(d.sims.begin(), d.sims.end());
    if (mc::choose(2, "ends reversed"))
        for (auto& c : d.conns) c.swap = !c.swap;
    test(d, style);
}
void places()
{
    prepare();
    Doc d;
    d.sims = {{"c", "mock:mC", {}, {}}, {"d", "mock:mC", {}, {}}};
    const bool groups = mc::choose(2, "with groups");
    if (groups) d.conns = {{'g', "c", "out2", "d", "in2"}};
    static const vector<string> dirs = {"plain", "two words", "\xc3\xa6", "a%20b", "a%b", "h#h", "q?q", "a+b", "a&b", "a'b", "a;b", "...", "a[b]"};
    const auto dir = root + "/places/" + mc::pick(dirs, "directory");
    fs::create_directories(dir);
    write_groups(*models["mC"], dir);
    static const vector<string> files = {"OspSystemStructure.xml", "other.xml", "no extension", "x%41.xml", "\xc3\xb8.xml"};
    const auto file = dir + "/" + mc::pick(files, "file");
    spit(file, to_xml(d));
    const int how = mc::choose(3, "absolute, relative, directory");
    auto path = file;
    if (how == 1) {
        if (chdir(dir.c_str())) mc::fail("harness: chdir");
        path = fs::path(file).filename().string();
    }
    if (how == 2) {
        if (fs::path(file).filename() != "OspSystemStructure.xml") mc::discard();
        path = dir;
    }
    const auto l = load(path);
    if (chdir(root.c_str())) mc::fail("harness: chdir");
    compare(l, meaning(d), path + "\n" + to_xml(d));
    fs::remove_all(root + "/places");
}
/// Files which are not there, not XML, or do not follow the schema
void broken()
{
    prepare();
    const auto x = to_xml(everything());
    static const vector<std::pair<string, string>> edits = {
        {" version=\"0.1\"", " version=\"0.2\""}, {" version=\"0.1\"", ""}, {"MSMI/OSPSystemStructure\"", "MSMI/OSPOther\""}, {"<OspSystemStructure xmlns=", "<OspSystemStructure xmlns:x="}, {"<Simulators>", "<Simulators><Foo/>"},
        {"<Simulators>", "<Simulator name=\"q\" source=\"mock:mC\"/><Simulators>"}, {"<EndTime>1e1</EndTime>", ""}, {"<StartTime>", "<EndTime>5</EndTime><StartTime>"}, {"</Simulators>", "</Simulators><Simulators></Simulators>"},
        {"<Functions>", "<Functions><Product name=\"p\"/>"}, {"<Connections>", "<Connections><Foo/>"}, {"<Variable simulator=\"a\" name=\"ro0\"/>", ""}, {"<Variable simulator=\"a\" name=\"ro0\"/>", "<Variable simulator=\"a\" name=\"ro0\"/><Variable simulator=\"a\" name=\"ro0\"/>"},
        {"<Signal function=\"lin\" name=\"in\"/>", "<Variable simulator=\"b\" name=\"ri0\"/>"}, {"<Variable simulator=\"a\" name=\"ro0\"/>", "<Variable simulator=\"a\"/>"}, {"<Variable simulator=\"a\" name=\"ro0\"/>", "<Variable name=\"ro0\"/>"},
        {"<Simulator name=\"a\"", "<Simulator"}, {" source=\"mA.fmu\"", ""}, {"<Real value=\"2\"/>", ""}, {"<Real value=\"2\"/>", "<Real/>"}, {"<Real value=\"2\"/>", "<Real value=\"2\"/><Real value=\"3\"/>"}, {"<Real value=\"2\"/>", "<Enumeration value=\"2\"/>"},
        {"<InitialValue variable=\"par\">", "<InitialValue>"}, {"<Real value", "<Foo value"}, {"</Connections>", "</Connections>junk"}, {"<Connections>", "<Connections>junk"}, {"encoding=\"utf-8\"", "encoding=\"nonsense\""},
        {"<Simulators>", "<Simulators>&undefined;"}, {"two words", "two &undefined; words"}, {"two words", "two < words"}, {"name=\"a\"", "name=\"a\" name=\"a\""}, {"</OspSystemStructure>", ""}, {"</OspSystemStructure>", "</OspSystemStructure><OspSystemStructure/>"}};
    const int k = mc::choose((int)edits.size() + 9, "defect");
    string y = x, path = root + "/cfg/OspSystemStructure.xml";
    bool must = true;
    if (k < (int)edits.size()) {
        const auto at = y.find(edits[k].first);
        mc::check(at != string::npos, "harness: " + edits[k].first);
        y.replace(at, edits[k].first.size(), edits[k].second);
        if (edits[k].second.empty() && edits[k].first[1] == 'E') must = false; // that is a valid file
    } else {
        const int j = k - (int)edits.size();
        if (j == 0) y = "";
        if (j == 1) y = "not XML";
        if (j == 2) y = "<a/>";
        if (j == 3) y = "<?xml version=\"1.0\"?><OspSystemStructure version=\"0.1\"/>";
        if (j == 4) y = "\0\0\0";
        if (j == 5) path = root + "/cfg/missing.xml";
        if (j == 6) path = root + "/missing";
        if (j == 7) path = root + "/other"; // a directory without configuration
        if (j == 8) y = "\xff\xfe" + x;
    }
    spit(root + "/cfg/OspSystemStructure.xml", y);
    const auto l = load(path);
    mc::check(l.ok == !must, y + "\n was " + (l.ok ? "accepted" : "refused: " + l.error));
}
/// Every truncation must be refused; every other damage at least must not crash.
void damaged(bool description, bool wide)
{
    prepare();
    Doc d;
    d.sims = {{"a", "mA.fmu", "0.25", {{"ri5", "Real", "2"}}}, {"b", "../other/mB.fmu", {}, {}}};
    d.fns = {{'V', "vec", "1", "2"}};
    d.conns = {{'g', "a", "port", "b", "trop", false}, {'G', "vec", "in[0]", "a", "out2", false}, {'G', "vec", "out", "b", "in2", true}};
    d.conns[0].n1 = d.conns[0].n2 = "empty";
    const string msmi = groups_xml({{"Generic", "out2", {"ro0", "ro1"}, {}}, {"Generic", "empty", {}, {{"Generic", "n", {"ro2"}, {}}}}});
    const string x = description ? msmi : to_xml(d);
    const string end = description ? "</OspModelDescription>" : "</OspSystemStructure>";
    const int last = (int)x.rfind(end) + (int)end.size();
    const int at = mc::choose(last, "position");
    const int how = mc::choose(wide ? 8 : 4, "cut off, byte missing, byte changed, byte repeated");
    string y = x;
    if (how == 0) y.resize(at);
    if (how == 1) y.erase(at, 1);
    if (how == 2) y[at] ^= 1;
    if (how == 3) y.insert(at, 1, x[at]);
    if (how == 4) y[at] = '<';
    if (how == 5) y[at] = '&';
    if (how == 6) y[at] = 0;
    if (how == 7) y[at] = '\xff';
    const string cfg = root + "/cfg/OspSystemStructure.xml";
    if (description) {
        spit(cfg, to_xml(d));
        spit(root + "/cfg/mA_OspModelDescription.xml", y);
    } else
        spit(cfg, y);
    const auto l = load(cfg);
    mc::outcome(mc::Str() << how << l.ok);
    if (description) write_groups(*models["mA"], root + "/cfg");
    if (how == 0) mc::check(!l.ok, y + "\n was accepted though it is incomplete");
}
/// Group descriptions without groups, and the like
void odd_descriptions()
{
    prepare();
    static const vector<string> odd = {"", "x", "<a/>", "<OspModelDescription/>", "<OspModelDescription xmlns=\"http://opensimulationplatform.com/MSMI/OSPModelDescription\"><UnitDefinitions/></OspModelDescription>",
        "<OspModelDescription><VariableGroups/></OspModelDescription>", "<OspModelDescription><VariableGroups><Generic/></VariableGroups></OspModelDescription>",
        "<OspModelDescription><VariableGroups><Generic name=\"out2\"><Variable/><Variable/></Generic></VariableGroups></OspModelDescription>",
        "<OspModelDescription><VariableGroups><Variable ref=\"ro0\"/></VariableGroups></OspModelDescription>", "<OspModelDescription><VariableGroups>text</VariableGroups></OspModelDescription>"};
    const auto& y = mc::pick(odd, "description");
    const bool use = mc::choose(2, "used");
    Doc d = two_sims();
    if (use) d.conns = {{'g', "a", "out2", "b", "in2"}};
    spit(root + "/cfg/mA_OspModelDescription.xml", y);
    spit(root + "/cfg/OspSystemStructure.xml", to_xml(d));
    const auto l = load(root + "/cfg/OspSystemStructure.xml");
    write_groups(*models["mA"], root + "/cfg");
    if (use) mc::check(!l.ok, y + ": was accepted though there is no group out2 with two variables of the model in it");
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C26";
    s.assumptions = {
        "mock models with given descriptions, found by a resolver of the harness",
        "left open: functions with unconnected signals, several initial values for one variable, single signals of vector sums, names of nested groups that occur twice, negative times, an end time equal to the start time",
        "times are compared with a tolerance of 1 ns"};
    const bool th = mc::thorough();
    s.add("times", times);
    s.add("simulators", [th] { simulators(th); });
    s.add("initial_values", [th] { initial_values(th ? 3 : 2); });
    s.add("variable_connections", [th] { variable_connections(th ? 3 : 2); });
    s.add("one_function", [th] { functions(th ? 2 : 1, false); });
    s.add("two_functions", [th] { functions(th ? 2 : 1, true); });
    s.add("group_connections", [th] { group_connections(th ? 2 : 1); });
    s.add("notations", notations);
    s.add("places", places);
    s.add("broken", broken);
    s.add("damaged", [th] { damaged(false, th); });
    s.add("damaged_descriptions", [th] { damaged(true, th); });
    s.add("odd_descriptions", odd_descriptions);
}
