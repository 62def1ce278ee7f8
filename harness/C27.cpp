// C27: SSP configurations are loaded exactly as written.
#include "mc.hpp"
#include "sim.hpp"
#include "fmi_stub.hpp"
#include "cosim/algorithm.hpp"
#include "cosim/execution.hpp"
#include "cosim/function/linear_transformation.hpp"
#include "cosim/orchestration.hpp"
#include "cosim/ssp/ssp_loader.hpp"
#include "cosim/system_structure.hpp"
#include "cosim/uri.hpp"
#include <cmath>
#include <filesystem>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <thread>
#include <unistd.h>
#include <zip.h>

// --- random numbers under control: normally distinct, but repeatable when asked for ------------------------------
namespace
{
unsigned rngCount = 0;
int rngRepeats = 1; // how often each number comes
} // namespace
std::random_device::result_type std::random_device::_M_getval() { return 1000 + rngCount++ / (unsigned)rngRepeats; }

namespace
{
using namespace sim;
namespace fs = std::filesystem;
using std::optional;
using std::string;
using std::vector;

struct Model : model
{
    std::shared_ptr<model_description> d = std::make_shared<model_description>();
    std::shared_ptr<const model_description> description() const noexcept override { return d; }
    std::shared_ptr<slave> instantiate(std::string_view) override { return nullptr; }
    const variable_description* find(const string& n) const
    {
        for (auto& v : d->variables)
            if (v.name == n) return &v;
        return nullptr;
    }
};
std::shared_ptr<Model> new_model(const string& name)
{
    auto m = std::make_shared<Model>();
    m->d->name = name;
    m->d->uuid = "uuid-" + name;
    value_reference r = 0;
    auto add = [&](const string& n, variable_type t, variable_causality c, variable_variability v = continuous) { m->d->variables.push_back({n, r++, t, c, v, std::nullopt}); };
    for (int i = 0; i < 4; ++i) add("ro" + std::to_string(i), T_REAL, output);
    for (int i = 0; i < 4; ++i) add("ri" + std::to_string(i), T_REAL, input);
    add("io", T_INT, output, discrete);
    add("ii", T_INT, input, discrete);
    add("bo", T_BOOL, output, discrete);
    add("bi", T_BOOL, input, discrete);
    add("so", T_STR, output, discrete);
    add("si", T_STR, input, discrete);
    add("par", T_REAL, parameter, tunable);
    add("ipar", T_INT, parameter, fixed);
    add("spar", T_STR, parameter, fixed);
    add("calc", T_REAL, calculated_parameter, fixed);
    add("loc", T_REAL, local);
    add("const", T_REAL, output, constant);
    add("cpar", T_REAL, parameter, constant);
    add("dotted.name[1]", T_REAL, input);
    return m;
}
std::map<string, std::shared_ptr<Model>> models; // by contents of the file
string root;

string xml(const string& s)
{
    string r;
    for (char c : s) r += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : string(1, c);
    return r;
}
void spit(const string& path, const string& data)
{
    fs::create_directories(fs::path(path).parent_path());
    std::ofstream f(path, std::ios::binary);
    f << data;
}
string slurp(const fs::path& p)
{
    std::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
void prepare()
{
    rngCount = 0;
    rngRepeats = 1;
    if (!root.empty()) return;
    quiet_logs();
    root = mc::scratch() + "/ssp";
    fs::create_directories(root + "/tmp");
    setenv("TMPDIR", (root + "/tmp").c_str(), 1);
    for (string n : {"mA", "mB", "mC"}) models[n] = new_model(n);
}

/// Sources as written, the model each one means, and where its file must be, relative to the description
struct Source
{
    string text, model, file;
};
const vector<Source>& sources()
{
    static const vector<Source> s = {{"mA.fmu", "mA", "mA.fmu"}, {"resources/mB.fmu", "mB", "resources/mB.fmu"}, {"mock:mC", "mC", ""}, {"resources/../mA.fmu", "mA", "mA.fmu"}, {"two%20words.fmu", "mB", "two words.fmu"}, {"zz.fmu", "", ""}, {"mock:zz", "", ""}};
    return s;
}
struct Resolver : model_uri_sub_resolver
{
    std::shared_ptr<model> lookup_model(const uri& u) override
    {
        const auto t = string(u.view());
        string key;
        if (t.rfind("mock:", 0) == 0) key = t.substr(5);
        else if (u.scheme() && *u.scheme() == "file") {
            const auto p = file_uri_to_path(u);
            if (!fs::is_regular_file(p)) return nullptr;
            key = slurp(p);
        }
        auto m = models.find(key);
        return m == models.end() ? nullptr : m->second;
    }
};

// --- documents ----------------------------------------------------------------------------------------------------
struct Param
{
    string name, kind, text;
};
struct Set
{
    string name;
    bool file;
    vector<Param> params;
};
struct Comp
{
    string name, source;
    optional<string> hint;
    vector<std::array<string, 3>> connectors; // name, kind, type
    vector<Set> sets;
    bool otherAnnotation = false;
};
struct Conn
{
    string o1, n1, o2, n2;
    int transform = 0; // 1: linear, 2-4: others
    optional<string> factor, offset;
};
struct Doc
{
    bool experiment = false;
    optional<string> start, stop, base, threads;
    bool experimentFirst = false, otherAnnotation = false;
    vector<Comp> comps;
    vector<Conn> conns;
};
using Files = std::map<string, string>;
string set_xml(const Set& s, bool ns)
{
    string r = "<ssv:ParameterSet version=\"1.0\" name=\"" + xml(s.name) + "\"" + (ns ? " xmlns:ssv=\"http://ssp-standard.org/SSP1/SystemStructureParameterValues\"" : "") + ">\n<ssv:Parameters>\n";
    for (auto& p : s.params) r += "<ssv:Parameter name=\"" + xml(p.name) + "\"><ssv:" + p.kind + " value=\"" + xml(p.text) + "\"/></ssv:Parameter>\n";
    return r + "</ssv:Parameters>\n</ssv:ParameterSet>\n";
}
/// The files of a document; `ssd` is the name of the description
Files to_files(const Doc& d, const string& ssd = "SystemStructure.ssd", bool comments = false)
{
    Files f;
    int setNo = 0;
    const string gap = comments ? "\n <!-- <ssd:Component name='zz' source='zz'/> -->\n" : "\n";
    auto at = [&](const char* n, const optional<string>& v) { return v ? string(" ") + n + "=\"" + xml(*v) + "\"" : string(); };
    const string other = "<ssc:Annotation type=\"com.example\"><osp:StepSizeHint value=\"77\"/><osp:Algorithm><osp:FixedStepAlgorithm baseStepSize=\"77\"/></osp:Algorithm></ssc:Annotation>";
    string e;
    if (d.experiment) {
        e = "<ssd:DefaultExperiment" + at("startTime", d.start) + at("stopTime", d.stop) + ">" + gap;
        if (d.base || d.otherAnnotation) {
            e += "<ssd:Annotations>" + gap;
            if (d.otherAnnotation) e += other + gap;
            if (d.base) e += "<ssc:Annotation type=\"com.opensimulationplatform\"><osp:Algorithm><osp:FixedStepAlgorithm" + at("baseStepSize", d.base) + at("numWorkerThreads", d.threads) + "/></osp:Algorithm></ssc:Annotation>" + gap;
            e += "</ssd:Annotations>" + gap;
        }
        e += "</ssd:DefaultExperiment>" + gap;
    }
    string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ssd:SystemStructureDescription name=\"n\" version=\"1.0\" xmlns:ssd=\"http://ssp-standard.org/SSP1/SystemStructureDescription\" xmlns:ssc=\"http://ssp-standard.org/SSP1/SystemStructureCommon\""
               " xmlns:ssv=\"http://ssp-standard.org/SSP1/SystemStructureParameterValues\" xmlns:osp=\"http://opensimulationplatform.com/SSP/OSPAnnotations\">" + gap;
    if (d.experimentFirst) s += e;
    s += "<ssd:System name=\"s\" description=\"d\">" + gap + "<ssd:Elements>" + gap;
    for (auto& c : d.comps) {
        s += "<ssd:Component" + at("name", c.name) + at("source", c.source) + ">" + gap;
        if (!c.connectors.empty()) {
            s += "<ssd:Connectors>" + gap;
            for (auto& k : c.connectors) s += "<ssd:Connector" + at("name", k[0]) + at("kind", k[1]) + "><ssc:" + k[2] + "/></ssd:Connector>" + gap;
            s += "</ssd:Connectors>" + gap;
        }
        if (!c.sets.empty()) {
            s += "<ssd:ParameterBindings>" + gap;
            for (auto& p : c.sets) {
                if (p.file) {
                    const string name = string(setNo % 2 ? "resources/" : "") + "set " + std::to_string(setNo) + ".ssv";
                    ++setNo;
                    f[name] = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + set_xml(p, true);
                    s += "<ssd:ParameterBinding" + at("source", name) + "/>" + gap;
                } else
                    s += "<ssd:ParameterBinding>" + gap + "<ssd:ParameterValues>" + gap + set_xml(p, false) + "</ssd:ParameterValues>" + gap + "</ssd:ParameterBinding>" + gap;
            }
            s += "</ssd:ParameterBindings>" + gap;
        }
        if (c.hint || c.otherAnnotation) {
            s += "<ssd:Annotations>" + gap;
            if (c.otherAnnotation) s += other + gap;
            if (c.hint) s += "<ssc:Annotation type=\"com.opensimulationplatform\"><osp:StepSizeHint" + at("value", c.hint) + "/></ssc:Annotation>" + gap;
            s += "</ssd:Annotations>" + gap;
        }
        s += "</ssd:Component>" + gap;
        for (auto& x : sources())
            if (x.text == c.source && !x.file.empty()) f[x.file] = x.model;
    }
    s += "</ssd:Elements>" + gap;
    if (!d.conns.empty()) {
        s += "<ssd:Connections>" + gap;
        for (auto& c : d.conns) {
            s += "<ssd:Connection" + at("startElement", c.o1) + at("startConnector", c.n1) + at("endElement", c.o2) + at("endConnector", c.n2) + ">" + gap;
            if (c.transform == 1) s += "<ssc:LinearTransformation" + at("factor", c.factor) + at("offset", c.offset) + "/>" + gap;
            if (c.transform == 2) s += "<ssc:BooleanMappingTransformation><ssc:MapEntry source=\"true\" target=\"false\"/></ssc:BooleanMappingTransformation>" + gap;
            if (c.transform == 3) s += "<ssc:IntegerMappingTransformation><ssc:MapEntry source=\"1\" target=\"2\"/></ssc:IntegerMappingTransformation>" + gap;
            if (c.transform == 4) s += "<ssc:EnumerationMappingTransformation><ssc:MapEntry source=\"a\" target=\"b\"/></ssc:EnumerationMappingTransformation>" + gap;
            s += "</ssd:Connection>" + gap;
        }
        s += "</ssd:Connections>" + gap;
    }
    s += "</ssd:System>" + gap;
    if (!d.experimentFirst) s += e;
    f[ssd] = s + "</ssd:SystemStructureDescription>\n";
    return f;
}

// --- what it means -------------------------------------------------------------------------------------------------
enum class Num { ok, bad, unclear };
const vector<std::tuple<string, Num, double>>& doubles()
{
    static const vector<std::tuple<string, Num, double>> t = {{"0.25", Num::ok, .25}, {"1e1", Num::ok, 10}, {"-2", Num::ok, -2}, {"0", Num::ok, 0}, {"2", Num::ok, 2}, {"1E-4", Num::ok, 1e-4}, {" 3 ", Num::ok, 3}, {"+1.5", Num::ok, 1.5}, {".5", Num::ok, .5}, {"1e300", Num::ok, 1e300},
        {"1e11", Num::ok, 1e11}, {"1e-12", Num::ok, 1e-12}, {"INF", Num::unclear, INFINITY}, {"-INF", Num::unclear, -INFINITY}, {"NaN", Num::unclear, NAN}, {"1e999", Num::bad, 0}, {"", Num::bad, 0}, {"x", Num::bad, 0}, {"1,5", Num::bad, 0}, {"1 2", Num::bad, 0}, {"0.25x", Num::bad, 0}};
    return t;
}
std::pair<Num, double> number(const string& s)
{
    for (auto& [t, n, v] : doubles())
        if (t == s) return {n, v};
    char* e;
    const double v = std::strtod(s.c_str(), &e);
    mc::check(*e == 0 && !s.empty(), "harness: number " + s);
    return {Num::ok, v};
}
bool fits(double v) { return std::isfinite(v) && std::fabs(v) < 9e9; }
using Name = std::tuple<string, string, int, string, int>;
Name name_of(const full_variable_name& v) { return {v.entity_name, v.variable_group_name, v.variable_group_instance, v.variable_name, v.variable_instance}; }
struct Meaning
{
    enum { ok, reject, any } verdict = ok;
    string why;
    double start = 0;
    optional<double> base;
    optional<int> threads;
    std::map<string, std::pair<string, double>> sims;
    struct C
    {
        string o1, n1;
        bool linear;
        double factor, offset;
    };
    std::map<std::pair<string, string>, C> conns; // by target
    std::map<string, std::map<std::pair<string, string>, scalar_value>> sets;
    void bad(const string& w) { if (verdict != reject) { verdict = reject; why = w; } }
    void unclear(const string& w) { if (verdict == ok) { verdict = any; why = w; } }
};
optional<scalar_value> value(Meaning& m, const Param& p)
{
    static const std::set<string> ints = {"5", "-7", "+8", " 9 ", "007", "2147483647", "-2147483648"}, bools = {"true", "false", "1", "0"};
    if (p.kind == "Real") {
        const auto [n, v] = number(p.text);
        if (n == Num::bad) m.bad("value " + p.text);
        if (n == Num::unclear) m.unclear("value " + p.text);
        return scalar_value(v);
    }
    if (p.kind == "Integer") {
        if (!ints.count(p.text)) m.bad("value " + p.text);
        return scalar_value((int)std::strtol(p.text.c_str(), nullptr, 10));
    }
    if (p.kind == "Boolean") {
        if (!bools.count(p.text)) m.bad("value " + p.text);
        return scalar_value(p.text == "true" || p.text == "1");
    }
    if (p.kind == "String") return scalar_value(p.text);
    // kinds of SSP parameters which libcosim has no values for; unknown kinds
    if (p.kind == "Enumeration" || p.kind == "Binary") m.unclear("parameter type " + p.kind);
    else m.bad("parameter type " + p.kind);
    return std::nullopt;
}
Meaning meaning(const Doc& d)
{
    Meaning m;
    m.sets[""];
    if (d.experiment) {
        auto get = [&](const optional<string>& t, const char* what, bool time = true) -> optional<double> {
            if (!t) return std::nullopt;
            const auto [n, v] = number(*t);
            if (n == Num::bad || (time && !fits(v))) m.bad(string("invalid ") + what);
            return v;
        };
        m.start = get(d.start, "start time").value_or(0);
        // the stop time is not used for anything
        if (d.stop && (number(*d.stop).first != Num::ok || !fits(number(*d.stop).second))) m.unclear("stop time");
        m.base = get(d.base, "base step size");
        if (m.base && *m.base < 1e-9) m.bad("base step size");
        if (d.base && d.threads) {
            static const std::map<string, int> ok = {{"1", 1}, {"2", 2}, {"0", 0}, {"003", 3}};
            auto t = ok.find(*d.threads);
            if (t != ok.end()) m.threads = t->second;
            else m.bad("number of threads");
        }
    }
    std::set<string> names;
    for (auto& c : d.comps) {
        string model;
        for (auto& s : sources())
            if (s.text == c.source) model = s.model;
        if (model.empty()) {
            m.bad("no model " + c.source);
            continue;
        }
        if (c.name.empty() || !names.insert(c.name).second) m.bad("component name " + c.name);
        double hint = 0;
        if (c.hint) {
            const auto [n, v] = number(*c.hint);
            if (n != Num::ok || !fits(v) || v < 0) m.bad("step size hint");
            else hint = v;
        }
        m.sims[c.name] = {model, hint};
        for (auto& k : c.connectors) {
            if (k[2] == "Enumeration" || k[2] == "Binary") m.unclear("type of connector");
            if (k[2] == "Foo") m.bad("type of connector");
        }
        std::set<string> setNames;
        for (size_t i = 0; i < c.sets.size(); ++i) {
            const auto& s = c.sets[i];
            if (!setNames.insert(s.name).second) m.unclear("two parameter sets of the same name");
            if (s.name.empty() && i > 0) m.unclear("parameter set without name");
            m.sets[s.name];
            std::set<string> seen;
            for (auto& p : s.params) {
                const auto v = value(m, p);
                if (!seen.insert(p.name).second) m.unclear("two values for one parameter");
                const auto vd = models[model]->find(p.name);
                if (!v || !vd || (vd->causality != parameter && vd->causality != input) || vd->variability == constant) continue;
                const variable_type t = p.kind == "Real" ? T_REAL : p.kind == "Integer" ? T_INT : p.kind == "Boolean" ? T_BOOL : T_STR;
                if (t != vd->type) continue;
                m.sets[s.name][{c.name, p.name}] = *v;
                if (i == 0) m.sets[""][{c.name, p.name}] = *v;
            }
        }
    }
    for (auto& c : d.conns) {
        const variable_description* v[2] = {};
        bool known = true;
        const string* ends[2][2] = {{&c.o1, &c.n1}, {&c.o2, &c.n2}};
        for (int i = 0; i < 2; ++i) {
            const Comp* comp = nullptr;
            for (auto& x : d.comps)
                if (x.name == *ends[i][0]) comp = &x;
            bool connector = false;
            if (comp)
                for (auto& k : comp->connectors) connector |= k[0] == *ends[i][1];
            if (comp && m.sims.count(comp->name)) v[i] = models[m.sims[comp->name].first]->find(*ends[i][1]);
            if (!connector || !v[i]) known = false;
        }
        if (!known) {
            m.bad("unknown component, connector or variable");
            continue;
        }
        if (v[0]->type != v[1]->type) m.bad("types differ");
        if (v[0]->causality != output && v[0]->causality != calculated_parameter) m.bad("not an output");
        if (v[1]->causality != input) m.bad("not an input");
        double f = 1, o = 0;
        if (c.transform == 1) {
            if (v[0]->type != T_REAL) m.bad("linear transformation of another type");
            for (auto [t, p] : {std::pair(&c.factor, &f), std::pair(&c.offset, &o)})
                if (*t) {
                    const auto [n, x] = number(**t);
                    if (n == Num::bad) m.bad("factor or offset");
                    if (n == Num::unclear) m.unclear("factor or offset");
                    *p = x;
                }
        }
        if (c.transform > 1) m.bad("a transformation which is not supported");
        if (!m.conns.emplace(std::pair(c.o2, c.n2), Meaning::C{c.o1, c.n1, c.transform == 1, f, o}).second) m.bad("connected twice");
    }
    return m;
}

// --- loading ---------------------------------------------------------------------------------------------------------
struct Loaded
{
    bool ok = false;
    string error;
    ssp_configuration cfg;
    int threads = 0;
};
int thread_count() { return (int)std::distance(fs::directory_iterator("/proc/self/task"), fs::directory_iterator()); }
Loaded load(const string& path, const optional<string>& ssdName = std::nullopt)
{
    Loaded l;
    mc::transition();
    const int before = thread_count();
    try {
        ssp_loader loader;
        auto r = std::make_shared<model_uri_resolver>();
        r->add_sub_resolver(std::make_shared<Resolver>());
        loader.set_model_uri_resolver(r);
        if (ssdName) loader.set_ssd_file_name(*ssdName);
        l.cfg = loader.load(path);
        l.ok = true;
        l.threads = thread_count() - before;
    } catch (const std::exception& e) {
        l.error = e.what();
    }
    fmi_stub::caches.clear();
    mc::check(fs::is_empty(root + "/tmp"), "a temporary directory is left behind");
    return l;
}
bool same(const scalar_value& a, const scalar_value& b) { return a == b; }
void compare(Loaded& l, const Meaning& m, const string& what)
{
    if (m.verdict == Meaning::any) return;
    if (m.verdict == Meaning::reject) {
        mc::check(!l.ok, what + "\n was accepted in spite of: " + m.why);
        return;
    }
    mc::check(l.ok, what + "\n was refused: " + l.error);
    auto near = [](auto got, double want) { return std::fabs((double)(std::chrono::duration_cast<duration>(got).count() - (long double)want * 1e9L)) <= 1.0 + std::fabs(want) * 1e-6; };
    mc::check(near(l.cfg.start_time.time_since_epoch(), m.start), what + "\n start time");
    mc::check((l.cfg.algorithm != nullptr) == m.base.has_value(), what + "\n algorithm");
    if (m.threads) {
        const int most = std::max(0, (int)std::thread::hardware_concurrency() - 1);
        mc::check(l.threads == std::min(*m.threads, most), what + "\n worker threads: " + std::to_string(l.threads));
    }
    if (m.base) {
        // the step size is visible only by stepping
        execution exec(l.cfg.start_time, l.cfg.algorithm);
        exec.step();
        mc::check(near(exec.current_time() - l.cfg.start_time, *m.base), what + "\n base step size");
    }
    // entities
    struct F
    {
        double factor, offset;
        optional<Name> from;
        vector<Name> to;
    };
    std::map<string, F> fns;
    size_t n = 0;
    for (auto& e : l.cfg.system_structure.entities()) {
        const string name(e.name);
        if (auto s = m.sims.find(name); s != m.sims.end()) {
            ++n;
            mc::check(entity_type_to<model>(e.type) == models[s->second.first], what + "\n model of " + name);
            mc::check(near(e.step_size_hint, s->second.second), what + "\n step size hint of " + name);
            continue;
        }
        auto t = entity_type_to<function_type>(e.type);
        mc::check(dynamic_cast<linear_transformation_function_type*>(t.get()), what + "\n entity " + name);
        auto real = [&](int i) {
            auto p = e.parameter_values.find(i);
            const auto v = p == e.parameter_values.end() ? t->description().parameters.at(i).default_value : p->second;
            return std::holds_alternative<double>(v) ? std::get<double>(v) : (double)std::get<int>(v);
        };
        fns[name] = {real(linear_transformation_function_type::factor_parameter_index), real(linear_transformation_function_type::offset_parameter_index), {}, {}};
    }
    mc::check(n == m.sims.size(), what + "\n number of components");
    // connections
    std::map<std::pair<string, string>, Meaning::C> got;
    for (auto c : l.cfg.system_structure.connections()) {
        const bool from = fns.count(c.source.entity_name) > 0, to = fns.count(c.target.entity_name) > 0;
        mc::check(!(from && to), what + "\n transformations connected to each other");
        if (to) {
            mc::check(c.target.variable_name == string(), what + "\n input of transformation") ;
            fns[c.target.entity_name].from = name_of(c.source);
        } else if (from)
            fns[c.source.entity_name].to.push_back(name_of(c.target));
        else
            got.emplace(std::pair(c.target.entity_name, c.target.variable_name), Meaning::C{c.source.entity_name, c.source.variable_name, false, 1, 0});
    }
    for (auto& [name, f] : fns) {
        mc::check(f.from && !f.to.empty(), what + "\n transformation without connections");
        for (auto& t : f.to) got.emplace(std::pair(std::get<0>(t), std::get<3>(t)), Meaning::C{std::get<0>(*f.from), std::get<3>(*f.from), true, f.factor, f.offset});
    }
    mc::check(got.size() == m.conns.size(), what + "\n number of connections");
    for (auto& [t, c] : m.conns) {
        auto g = got.find(t);
        mc::check(g != got.end() && g->second.o1 == c.o1 && g->second.n1 == c.n1, what + "\n missing connection to " + t.first + ":" + t.second);
        // a transformation which changes nothing may be left out
        mc::check(g->second.factor == c.factor && g->second.offset == c.offset, what + "\n transformation of " + t.first + ":" + t.second);
    }
    // parameters
    mc::check(l.cfg.parameter_sets.size() == m.sets.size(), what + "\n number of parameter sets");
    for (auto& [name, set] : m.sets) {
        auto g = l.cfg.parameter_sets.find(name);
        mc::check(g != l.cfg.parameter_sets.end(), what + "\n parameter set " + name);
        mc::check(g->second.size() == set.size(), what + "\n size of parameter set '" + name + "'");
        for (auto& [v, x] : g->second) {
            auto w = set.find({v.entity_name, v.variable_name});
            mc::check(v.is_simulator_variable() && w != set.end() && same(w->second, x), what + "\n value of " + v.variable_name + " in parameter set '" + name + "'");
        }
    }
}
void write_dir(const string& dir, const Files& f)
{
    fs::remove_all(dir);
    fs::create_directories(dir);
    for (auto& [n, x] : f) spit(dir + "/" + n, x);
}
void write_zip(const string& path, const Files& f)
{
    fs::remove(path);
    int err;
    auto z = zip_open(path.c_str(), ZIP_CREATE | ZIP_TRUNCATE, &err);
    for (auto& [n, x] : f) zip_file_add(z, n.c_str(), zip_source_buffer(z, x.data(), x.size(), 0), ZIP_FL_ENC_UTF_8);
    if (zip_close(z)) mc::fail("harness: zip_close");
}
string all_text(const Files& f)
{
    string s;
    for (auto& [n, x] : f) s += "--- " + n + "\n" + x;
    return s;
}
void test(const Doc& d, bool comments = false)
{
    const auto files = to_files(d, "SystemStructure.ssd", comments);
    const auto dir = root + "/dir";
    write_dir(dir, files);
    const auto m = meaning(d);
    auto l = load(dir);
    if (mc::tracing()) mc::note(all_text(files) + "\n meaning: " + (m.verdict == Meaning::ok ? "ok" : m.why) + "\n result: " + (l.ok ? "ok" : l.error));
    compare(l, m, all_text(files));
    mc::outcome(mc::Str() << m.verdict << l.ok << m.conns.size());
}

// --- scenarios ------------------------------------------------------------------------------------------------------
vector<std::array<string, 3>> all_connectors()
{
    return {{"ro0", "output", "Real"}, {"ro1", "output", "Real"}, {"ro2", "output", "Real"}, {"ri0", "input", "Real"}, {"ri1", "input", "Real"}, {"ri2", "input", "Real"}, {"io", "output", "Integer"}, {"ii", "input", "Integer"}, {"bo", "output", "Boolean"}, {"bi", "input", "Boolean"},
        {"so", "output", "String"}, {"si", "input", "String"}, {"calc", "calculatedParameter", "Real"}, {"par", "parameter", "Real"}, {"nope", "input", "Real"}, {"dotted.name[1]", "input", "Real"}};
}
Doc two()
{
    Doc d;
    for (auto [n, s] : {std::pair("a", "mA.fmu"), std::pair("b", "resources/mB.fmu")}) {
        Comp c;
        c.name = n;
        c.source = s;
        c.connectors = all_connectors();
        d.comps.push_back(c);
    }
    return d;
}
void experiment(bool wide)
{
    prepare();
    Doc d;
    d.comps.push_back({"a", "mock:mC", {}, {}, {}});
    d.experiment = true;
    auto pick = [&](optional<string>& t, const char* l, int n = 99) {
        const int k = mc::choose(std::min(n, (int)doubles().size()) + 1, l);
        if (k) t = std::get<0>(doubles()[k - 1]);
    };
    pick(d.start, "start");
    const bool algorithm = mc::choose(2, "algorithm");
    if (algorithm) {
        pick(d.base, "base");
        if (!d.base) mc::discard();
        const vector<optional<string>> t = {std::nullopt, "1", "2", "0", "003", "", "x", "1.5", "99999999999"};
        if (wide || !d.start) d.threads = mc::pick(t, "threads");
    }
    if (wide || !algorithm) pick(d.stop, "stop");
    if (!d.start && !d.stop && !d.base) d.experiment = mc::choose(2, "experiment");
    if (wide || !d.start) {
        d.experimentFirst = mc::choose(2, "first");
        d.otherAnnotation = mc::choose(2, "other annotation");
    }
    test(d);
}
void components(bool wide)
{
    prepare();
    Doc d;
    static const vector<string> names = {"a", "b", "", "a b", "<&\"'>", "\xc3\xa6", "a.b"};
    const int n = 1 + mc::choose(wide ? 3 : 2, "components");
    for (int i = 0; i < n; ++i) {
        Comp c;
        c.name = i == 0 || wide ? mc::pick(names, "name") : names[mc::choose(2, "name")];
        c.source = (i == 0 ? mc::pick(sources(), "source") : sources()[mc::choose(3, "source") * 2]).text;
        const int k = mc::choose(i == 0 ? (int)doubles().size() + 1 : 2, "hint");
        if (k) c.hint = std::get<0>(doubles()[k - 1]);
        if (i == 0) c.otherAnnotation = mc::choose(2, "other annotation");
        d.comps.push_back(c);
    }
    test(d, wide ? mc::choose(2) : false);
}
const vector<Param>& params()
{
    static vector<Param> v;
    if (v.empty()) {
        for (auto& [t, n, x] : doubles()) v.push_back({"ri0", "Real", t});
        for (auto t : {"5", "-7", "+8", " 9 ", "007", "2147483647", "2147483648", "-2147483648", "", "x", "1.0", "0x1"}) v.push_back({"ii", "Integer", t});
        for (auto t : {"true", "false", "1", "0", "TRUE", "2", "", "yes"}) v.push_back({"bi", "Boolean", t});
        for (auto t : {"", "text", "two words", " <&\"' ", "1", "\xc3\xa6\xe2\x82\xac"}) v.push_back({"si", "String", t});
        for (auto n : {"ro0", "par", "calc", "loc", "const", "cpar", "zz", "", "ii", "bi", "si", "dotted.name[1]"}) v.push_back({n, "Real", "0.25"});
        for (auto n : {"ri0", "ipar", "io", "bi"}) v.push_back({n, "Integer", "5"});
        v.push_back({"ri0", "Boolean", "1"});
        v.push_back({"ri0", "String", "1"});
        v.push_back({"spar", "String", "x"});
        v.push_back({"ii", "Enumeration", "1"});
        v.push_back({"si", "Binary", "00"});
        v.push_back({"si", "Foo", "00"});
    }
    return v;
}
const vector<Param>& few_params()
{
    static const vector<Param> v = {{"ri0", "Real", "0.25"}, {"ri0", "Real", "2"}, {"par", "Real", "1e1"}, {"zz", "Real", "2"}, {"ii", "Integer", "x"}};
    return v;
}
void parameter_values(int n)
{
    prepare();
    Doc d = two();
    Set s{"set", (bool)mc::choose(2, "file"), {}};
    const int k = mc::choose(n + 1, "parameters");
    for (int i = 0; i < k; ++i) s.params.push_back(mc::pick(params(), "parameter"));
    d.comps[0].sets.push_back(s);
    test(d);
}
void parameter_sets(bool wide)
{
    prepare();
    Doc d = two();
    static const vector<string> names = {"x", "y", "", "a b"};
    for (auto& c : d.comps) {
        const int k = mc::choose(wide ? 4 : 3, "sets");
        for (int i = 0; i < k; ++i) {
            Set s{names[mc::choose(i || !wide ? 2 + (i == 0) : 4, "name")], (wide ? i < 2 : i == (&c == &d.comps[0])) && mc::choose(2, "file") == 1, {}};
            const int p = mc::choose(wide && i < 2 ? 3 : 2, "parameters");
            for (int j = 0; j < p; ++j) s.params.push_back(few_params()[mc::choose(&c != &d.comps[0] ? 2 : i == 0 ? 5 : 3, "parameter")]);
            c.sets.push_back(s);
        }
    }
    test(d);
}
void connections(int max)
{
    prepare();
    Doc d = two();
    static const vector<std::pair<string, string>> from = {{"a", "ro0"}, {"b", "ro1"}, {"a", "calc"}, {"a", "io"}, {"b", "so"}, {"a", "bo"}, {"a", "par"}, {"a", "zz"}, {"zz", "ro0"}, {"a", "ro3"}, {"", "ro0"}, {"a", ""}};
    static const vector<std::pair<string, string>> to = {{"b", "ri0"}, {"a", "ri1"}, {"b", "ii"}, {"a", "si"}, {"a", "bi"}, {"b", "par"}, {"a", "ro0"}, {"b", "zz"}, {"zz", "ri0"}, {"b", "nope"}, {"b", "ri3"}, {"b", "dotted.name[1]"}};
    const int n = 1 + mc::choose(max, "connections");
    for (int i = 0; i < n; ++i) {
        const auto& f = from[mc::choose(i == 0 ? (int)from.size() : 4, "from")];
        const auto& t = to[mc::choose(i == 0 ? (int)to.size() : 4, "to")];
        Conn c{f.first, f.second, t.first, t.second};
        c.transform = mc::choose(i == 0 ? 5 : 2, "transformation");
        if (c.transform == 1) {
            c.factor = i == 0 ? "2" : "4";
            c.offset = i == 0 ? "3" : "5";
        }
        d.conns.push_back(c);
    }
    test(d);
}
void transformations()
{
    prepare();
    Doc d = two();
    Conn c{"a", "ro0", "b", "ri0"};
    c.transform = 1;
    const int f = mc::choose((int)doubles().size() + 1, "factor"), o = mc::choose((int)doubles().size() + 1, "offset");
    if (f) c.factor = std::get<0>(doubles()[f - 1]);
    if (o) c.offset = std::get<0>(doubles()[o - 1]);
    d.conns.push_back(c);
    test(d);
}
/// Many transformations, in whatever way random numbers may come out
void many_transformations()
{
    prepare();
    Doc d = two();
    rngRepeats = 1 + mc::choose(5, "random numbers repeat");
    const vector<std::array<string, 4>> c = {{"a", "ro0", "b", "ri0"}, {"a", "ro0", "b", "ri1"}, {"b", "ro1", "a", "ri0"}, {"b", "ro2", "a", "ri1"}, {"b", "calc", "b", "ri2"}};
    const int n = 1 + mc::choose((int)c.size());
    for (int i = 0; i < n; ++i) {
        Conn x{c[i][0], c[i][1], c[i][2], c[i][3]};
        x.transform = mc::choose(2, "linear");
        x.factor = std::to_string(i + 2);
        x.offset = std::to_string(i + 7);
        d.conns.push_back(x);
    }
    if (mc::choose(2, "reversed")) std::reverse(d.conns.begin(), d.conns.end());
    if (mc::choose(2, "components reversed")) std::reverse(d.comps.begin(), d.comps.end());
    test(d);
}
void connector_types()
{
    prepare();
    Doc d = two();
    static const vector<string> types = {"Real", "Integer", "Boolean", "String", "Enumeration", "Binary", "Foo"};
    d.comps[0].connectors = {{"ro0", "output", mc::pick(types, "type")}, {"io", "output", mc::pick(types, "type")}};
    if (mc::choose(2)) d.conns.push_back({"a", "ro0", "b", "ri0"});
    test(d);
}
Doc everything()
{
    Doc d = two();
    d.experiment = true;
    d.start = "0.25";
    d.stop = "1e1";
    d.base = "1E-4";
    d.threads = "2";
    d.otherAnnotation = true;
    d.comps.push_back({"c", "mock:mC", "0.25", all_connectors(), {{"x", false, {{"par", "Real", "2"}, {"si", "String", "two words"}}}, {"y", true, {{"par", "Real", "0.25"}}}}});
    d.comps[0].sets = {{"y", true, {{"ii", "Integer", "-7"}, {"bi", "Boolean", "true"}}}};
    d.comps[1].hint = "1E-4";
    Conn t{"a", "ro0", "b", "ri0", 1, "2", "3"};
    d.conns = {{"b", "io", "a", "ii"}, t, {"c", "calc", "a", "ri0"}};
    return d;
}
/// The same contents as a directory, as a file, in an archive; with and without the default name
void ways()
{
    prepare();
    const Doc d = everything();
    static const vector<string> names = {"SystemStructure", "Other", "two words", "a%20b", "x.y"};
    const auto& name = mc::pick(names, "name");
    const int way = mc::choose(3, "directory, file, archive");
    static const vector<string> dirs = {"plain", "two words", "\xc3\xa6", "a%20b", "h#h", "q?q"};
    const auto& where = mc::pick(dirs, "place");
    const bool rel = mc::choose(2, "relative path");
    const bool tell = mc::choose(2, "name given");
    const bool decoy = mc::choose(2, "another description too");
    auto files = to_files(d, name + ".ssd", mc::choose(2, "comments"));
    if (decoy) {
        Doc e;
        e.comps.push_back({"decoy", "mock:mC", {}, {}, {}});
        files[name == "SystemStructure" ? "Decoy.ssd" : "SystemStructure.ssd"] = to_files(e).at("SystemStructure.ssd");
    }
    const string base = root + "/ways/" + where, dir = base + "/dir";
    fs::remove_all(base);
    write_dir(dir, files);
    string path = way == 0 ? dir : way == 1 ? dir + "/" + name + ".ssd" : base + "/file.ssp";
    if (way == 2) {
        write_zip(path, files);
        fs::remove_all(dir);
    }
    if (rel) {
        if (chdir(base.c_str())) mc::fail("harness: chdir");
        path = path.substr(base.size() + 1);
    }
    auto l = load(path, tell ? optional<string>(name) : std::nullopt);
    if (chdir(root.c_str())) mc::fail("harness: chdir");
    fs::remove_all(root + "/ways");
    const bool found = way == 1 || tell || name == "SystemStructure";
    if (found) compare(l, meaning(d), path);
    else if (!decoy) mc::check(!l.ok, "loaded without a description");
    else {
        mc::check(l.ok, "refused: " + l.error);
        for (auto& e : l.cfg.system_structure.entities()) mc::check(e.name == "decoy", "wrong description");
    }
    mc::outcome(mc::Str() << found << l.ok << decoy);
}
/// Mandatory data missing; wrong places
void broken()
{
    prepare();
    const auto files = to_files(everything());
    const string x = files.at("SystemStructure.ssd");
    static const vector<std::pair<string, string>> edits = {
        {"<ssd:SystemStructureDescription name=\"n\"", "<ssd:SystemStructureDescription"}, {" version=\"1.0\" xmlns", " xmlns"}, {"ssd:SystemStructureDescription", "ssd:Other"}, {"<ssd:System name", "<ssd:Systen name"},
        {"<ssd:Component name=\"a\"", "<ssd:Component"}, {" source=\"mA.fmu\"", ""}, {" source=\"mA.fmu\"", " source=\"\""}, {"<ssd:Connector name=\"ro0\"", "<ssd:Connector"}, {"<ssd:Connector name=\"ro0\" kind=\"output\"><ssc:Real/></ssd:Connector>", ""},
        {" startElement=\"a\"", ""}, {" startConnector=\"ro0\"", ""}, {" endElement=\"b\"", ""}, {" endConnector=\"ri0\"", ""}, {"<ssv:Parameter name=\"par\">", "<ssv:Parameter>"}, {"<ssv:Real value=\"2\"/>", ""}, {"<ssv:Real value=\"2\"/>", "<ssv:Real/>"},
        {"<ssv:ParameterSet version=\"1.0\" name=\"x\">", "<ssv:ParameterSet version=\"1.0\">"}, {" baseStepSize=\"1E-4\"", ""}, {"<osp:FixedStepAlgorithm baseStepSize=\"1E-4\" ", "<osp:OtherAlgorithm baseStepSize=\"1E-4\" "}, {"<osp:StepSizeHint value=\"0.25\"/>", "<osp:StepSizeHint/>"},
        {"set 0.ssv", "missing.ssv"}, {"</ssd:SystemStructureDescription>", ""}, {"<ssd:Elements>", "<ssd:Elements"}};
    const int k = mc::choose((int)edits.size() + 9, "defect");
    Files f = files;
    string y = x, path = root + "/dir";
    if (k < (int)edits.size()) {
        // the one of the platform, not of the example annotation
        const auto at = edits[k].first.find("StepSize") == string::npos ? y.find(edits[k].first) : y.rfind(edits[k].first);
        mc::check(at != string::npos, "harness: " + edits[k].first);
        y.replace(at, edits[k].first.size(), edits[k].second);
        if (edits[k].second == "ssd:Other") y.replace(y.rfind("ssd:SystemStructureDescription"), 30, "ssd:Other");
        if (edits[k].second == "<ssd:Systen name") y.replace(y.rfind("/ssd:System>"), 12, "/ssd:Systen>");
    }
    const int j = k - (int)edits.size();
    if (j == 0) y = "";
    if (j == 1) y = "not XML";
    if (j == 2) y = "<a/>";
    if (j == 5) path = root + "/dir/missing.ssd";
    if (j == 6) path = root + "/missing";
    if (j == 7) path = root + "/missing.ssp";
    f["SystemStructure.ssd"] = y;
    if (j == 3) f["set 0.ssv"] = "";
    if (j == 4) f["set 0.ssv"] = "<a/>";
    write_dir(root + "/dir", f);
    if (j == 8) {
        path = root + "/bad.ssp";
        spit(path, "not an archive");
    }
    const auto l = load(path);
    mc::check(!l.ok, y + "\n was accepted");
}
/// Every truncation must be refused; every other damage at least must not crash.
void damaged(bool wide)
{
    prepare();
    const auto files = to_files(everything());
    static const vector<string> which = {"SystemStructure.ssd", "set 0.ssv", "archive"};
    const int w = mc::choose(3, "file");
    string x;
    if (w < 2) x = files.at(which[w]);
    else {
        auto f = files;
        write_zip(root + "/x.ssp", f);
        x = slurp(root + "/x.ssp");
    }
    int last = (int)x.size();
    if (w < 2) last = (int)x.rfind(w ? "</ssv:ParameterSet>" : "</ssd:SystemStructureDescription>") + (w ? 19 : 33);
    if (!wide && w == 2) mc::discard(); // see C25 for archives
    const int at = mc::choose(last, "position");
    const int how = mc::choose(wide ? 8 : 4, "cut off, byte missing, byte changed, byte repeated");
    string y = x;
    if (how == 0) y.resize(at);
    if (how == 1) y.erase(at, 1);
    if (how == 2) y[at] ^= 1;
    if (how == 3) y.insert(at, 1, x[at]);
    if (how == 4) y[at] = '<';
    if (how == 5) y[at] = '&';
    if (how == 6) y[at] = 0;
    if (how == 7) y[at] = '\xff';
    string path = root + "/dir";
    if (w < 2) {
        auto f = files;
        f[which[w]] = y;
        write_dir(path, f);
    } else {
        path = root + "/x.ssp";
        spit(path, y);
    }
    const auto l = load(path);
    mc::outcome(mc::Str() << how << l.ok);
    if (how == 0) mc::check(!l.ok, y + "\n was accepted though it is incomplete");
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C27";
    s.assumptions = {
        "mock models, found by a resolver of the harness by the contents of files",
        "left open: parameter sets with the same name in one component, several values for one parameter in a set, infinite numbers, Enumeration and Binary data, other prefixes than ssd, ssc, ssv, osp",
        "times are compared with a tolerance of 1 ns"};
    const bool th = mc::thorough();
    s.add("experiment", [th] { experiment(th); });
    s.add("components", [th] { components(th); });
    s.add("parameter_values", [th] { parameter_values(th ? 3 : 2); });
    s.add("parameter_sets", [th] { parameter_sets(th); });
    s.add("connections", [th] { connections(th ? 3 : 2); });
    s.add("transformations", transformations);
    s.add("many_transformations", many_transformations);
    s.add("connector_types", connector_types);
    s.add("ways", ways);
    s.add("broken", broken);
    s.add("damaged", [th] { damaged(th); });
}
