// C13: scenario files are read faithfully or rejected.
#include "sim.hpp"
#include "cosim/manipulator/scenario_manager.hpp"
#include "cosim/scenario_parser.hpp"
#include <cmath>
#include <fstream>
#include <unordered_map>
using namespace sim;

namespace
{
struct Stub : manipulable
{
    std::string n;
    cosim::model_description md;
    std::string name() const override { return n; }
    cosim::model_description model_description() const override { return md; }
    void expose_for_getting(variable_type, value_reference) override { mc::fail("reading a scenario exposed a variable"); }
    void expose_for_setting(variable_type, value_reference) override { mc::fail("reading a scenario exposed a variable"); }
    double get_real(value_reference) const override { mc::fail("?"); }
    int get_integer(value_reference) const override { mc::fail("?"); }
    bool get_boolean(value_reference) const override { mc::fail("?"); }
    std::string_view get_string(value_reference) const override { mc::fail("?"); }
    void set_real_input_modifier(value_reference, std::function<double(double, duration)>) override { mc::fail("?"); }
    void set_integer_input_modifier(value_reference, std::function<int(int, duration)>) override { mc::fail("?"); }
    void set_boolean_input_modifier(value_reference, std::function<bool(bool, duration)>) override { mc::fail("?"); }
    void set_string_input_modifier(value_reference, std::function<std::string(std::string_view, duration)>) override { mc::fail("?"); }
    void set_real_output_modifier(value_reference, std::function<double(double, duration)>) override { mc::fail("?"); }
    void set_integer_output_modifier(value_reference, std::function<int(int, duration)>) override { mc::fail("?"); }
    void set_boolean_output_modifier(value_reference, std::function<bool(bool, duration)>) override { mc::fail("?"); }
    void set_string_output_modifier(value_reference, std::function<std::string(std::string_view, duration)>) override { mc::fail("?"); }
};

struct Var { std::string name; variable_type type; variable_causality causality; value_reference ref; };
std::vector<Var> vars(int sim)
{
    std::vector<Var> v;
    const char* n[] = {"real", "int", "bool", "str"};
    for (auto t : all_types()) {
        const std::string p = n[(int)t];
        const value_reference b = 10 * sim;
        v.push_back({p + "In", t, variable_causality::input, b + 1});
        v.push_back({p + "Out", t, variable_causality::output, b + 0});
        v.push_back({p + "Par", t, variable_causality::parameter, b + 2});
        v.push_back({p + "Calc", t, variable_causality::calculated_parameter, b + 3});
        v.push_back({p + "Loc", t, variable_causality::local, b + 4});
    }
    v.push_back({sim ? "only1" : "only0", T_REAL, variable_causality::input, 77u + sim});
    return v;
}
const std::unordered_map<simulator_index, manipulable*>& sims()
{
    static auto* m = [] {
        auto* r = new std::unordered_map<simulator_index, manipulable*>;
        for (int i = 0; i < 2; ++i) {
            auto* s = new Stub;
            s->n = i ? "model b" : "a";
            for (auto& v : vars(i)) s->md.variables.push_back({v.name, v.ref, v.type, v.causality, variable_variability::discrete, std::nullopt});
            (*r)[i * 3] = s; // indices 0 and 3
        }
        return r;
    }();
    return *m;
}

scenario::scenario read(const std::string& text, const char* ext)
{
    const auto f = mc::scratch() + "/scenario" + ext;
    {
        std::ofstream o(f, std::ios::binary);
        o << text;
    }
    mc::transition();
    return parse_scenario(f, sims());
}

using Opt = std::optional<std::string>;
struct Ev { Opt time, model, variable, action, value; };
struct Doc { Opt model, variable, action, end; std::vector<Ev> ev; };

bool bare(const std::string& s) { return !s.empty() && (isdigit(s[0]) || s[0] == '-' || s[0] == '[' || s == "true" || s == "false"); }
std::string json(const Doc& d)
{
    auto item = [](std::string& s, const char* k, const Opt& v) {
        if (!v) return;
        if (s.back() != '{') s += ", ";
        s += std::string("\"") + k + "\": " + (bare(*v) ? *v : "\"" + *v + "\"");
    };
    std::string s = "{";
    if (d.model || d.variable || d.action) {
        std::string t = "{";
        item(t, "model", d.model);
        item(t, "variable", d.variable);
        item(t, "action", d.action);
        s += "\"defaults\": " + t + "}";
    }
    s += std::string(s.back() == '{' ? "" : ", ") + "\"events\": [";
    for (auto& e : d.ev) {
        std::string t = "{";
        item(t, "time", e.time);
        item(t, "model", e.model);
        item(t, "variable", e.variable);
        item(t, "action", e.action);
        item(t, "value", e.value);
        s += (s.back() == '[' ? "" : ", ") + t + "}";
    }
    s += "]";
    if (d.end) s += ", \"end\": " + *d.end;
    return s + "}";
}
std::string yaml(const Doc& d)
{
    std::string s = "---\n";
    if (d.end) s += "end: " + *d.end + "\n";
    s += "events:\n";
    for (auto& e : d.ev) {
        const char* p = "  - ";
        auto item = [&](const char* k, const Opt& v) {
            if (!v) return;
            s += std::string(p) + k + ": " + *v + "\n";
            p = "    ";
        };
        item("value", e.value);
        item("action", e.action);
        item("variable", e.variable);
        item("model", e.model);
        item("time", e.time);
        if (p[2] == '-') s += "  - {}\n";
    }
    if (d.ev.empty()) s += "  []\n";
    if (d.model || d.variable || d.action) {
        s += "defaults:\n";
        if (d.action) s += "  action: " + *d.action + "\n";
        if (d.variable) s += "  variable: " + *d.variable + "\n";
        if (d.model) s += "  model: " + *d.model + "\n";
    }
    return s;
}

// --- what a document means -----------------------------------------------------------------------------
struct Meaning { long long time; int sim; Var var; int kind; std::string value; }; // kind 0 reset 1 override 2 bias
const std::vector<std::string> NUMBERS{"0", "1", "-3", "0.5", "2.5e-1", "12345678", "1.25", "-0.75", "1e-9"};
bool is_int(const std::string& s) { return s == "0" || s == "1" || s == "-3" || s == "12345678"; }
bool is_num(const std::string& s) { return std::find(NUMBERS.begin(), NUMBERS.end(), s) != NUMBERS.end(); }

enum Verdict { good, bad, open };
// `open`: not determined by the property (adding to a boolean), anything but a crash is accepted
Verdict meaning(const Doc& d, std::vector<Meaning>& out)
{
    Verdict r = good;
    for (auto& e : d.ev) {
        Meaning m;
        if (!e.time || !is_num(*e.time)) return bad;
        m.time = llround(std::strtod(e.time->c_str(), nullptr) * 1e9);
        const Opt model = e.model ? e.model : d.model, variable = e.variable ? e.variable : d.variable, action = e.action ? e.action : d.action;
        if (!model || !variable || !action) return bad;
        if (*model != "a" && *model != "model b") return bad;
        m.sim = *model == "a" ? 0 : 3;
        bool found = false;
        for (auto& v : vars(m.sim ? 1 : 0))
            if (v.name == *variable) {
                m.var = v;
                found = true;
            }
        if (!found || m.var.causality == variable_causality::local) return bad;
        m.kind = *action == "reset" ? 0 : *action == "override" ? 1 : *action == "bias" ? 2 : -1;
        if (m.kind < 0) return bad;
        if (m.kind == 2 && m.var.type == T_STR) return bad;
        if (m.kind == 2 && m.var.type == T_BOOL) r = open;
        if (m.kind) {
            if (!e.value) return bad;
            switch (m.var.type) {
                case T_REAL: if (!is_num(*e.value)) return bad; break;
                case T_INT: if (!is_int(*e.value)) return bad; break;
                case T_BOOL: if (*e.value != "true" && *e.value != "false") return bad; break;
                default: if ((*e.value)[0] == '[') return bad;
            }
            m.value = *e.value;
        }
        out.push_back(m);
    }
    return r;
}
template<typename M, typename F>
void same(const scenario::event& e, bool isNull, const F& f)
{
    auto* m = std::get_if<M>(&e.action.modifier);
    if (!m) mc::fail("the modifier has the wrong type");
    mc::check(isNull == !m->f, "a reset has a modifier or an action has none");
    if (m->f) f(*m);
}
void compare(const scenario::event& e, const Meaning& m)
{
    const auto t = e.time.time_since_epoch().count();
    // the library's conversion from seconds may be off by one nanosecond
    mc::check(std::llabs(t - m.time) <= 1, mc::Str() << "event time " << t << ", should be " << m.time);
    mc::check(e.action.simulator == m.sim, "wrong simulator");
    mc::check(e.action.variable == m.var.ref, "wrong variable");
    mc::check(e.action.is_input == (m.var.causality == variable_causality::input || m.var.causality == variable_causality::parameter), "input taken for output or the other way round");
    const duration dt(7);
    switch (m.var.type) {
        case T_REAL:
            same<scenario::real_modifier>(e, !m.kind, [&](auto& x) {
                const double v = std::strtod(m.value.c_str(), nullptr);
                for (double o : {0.0, 3.25, -8.0}) mc::check(x.f(o, dt) == (m.kind == 1 ? v : o + v), "wrong modified real value");
            });
            break;
        case T_INT:
            same<scenario::integer_modifier>(e, !m.kind, [&](auto& x) {
                const int v = std::atoi(m.value.c_str());
                for (int o : {0, 3, -8}) mc::check(x.f(o, dt) == (m.kind == 1 ? v : o + v), "wrong modified integer value");
            });
            break;
        case T_BOOL:
            same<scenario::boolean_modifier>(e, !m.kind, [&](auto& x) {
                for (bool o : {false, true}) {
                    const bool y = x.f(o, dt);
                    if (m.kind == 1) mc::check(y == (m.value == "true"), "wrong modified boolean value");
                }
            });
            break;
        default:
            same<scenario::string_modifier>(e, !m.kind, [&](auto& x) {
                for (auto o : {"", "abc"}) mc::check(x.f(o, dt) == m.value, "wrong modified string value");
            });
    }
}
void decide(const Doc& d, int format)
{
    const auto text = format ? yaml(d) : json(d);
    if (mc::tracing()) mc::note(text);
    std::vector<Meaning> m;
    auto v = meaning(d, m);
    const bool endBad = d.end && !is_num(*d.end);
    if (endBad) v = bad;
    scenario::scenario s;
    try {
        s = read(text, format ? ".yml" : ".json");
    } catch (const std::exception& e) {
        mc::check(v != good, "a valid scenario file was rejected: " + std::string(e.what()) + "\n" + text);
        mc::outcome("rejected");
        return;
    }
    if (v == bad) mc::fail("an invalid scenario file was accepted:\n" + text);
    mc::check(s.events.size() == m.size(), "wrong number of events:\n" + text);
    for (std::size_t i = 0; i < m.size(); ++i) compare(s.events[i], m[i]);
    mc::check(s.end.has_value() == d.end.has_value(), "end time invented or ignored");
    if (d.end) mc::check(std::llabs(s.end->time_since_epoch().count() - llround(std::strtod(d.end->c_str(), nullptr) * 1e9)) <= 1, "wrong end time");
    mc::outcome(mc::Str() << "read " << m.size());
}

std::vector<Opt> menu(std::vector<std::string> v, bool none = true)
{
    std::vector<Opt> r;
    if (none) r.push_back(std::nullopt);
    for (auto& x : v) r.push_back(x);
    return r;
}
std::vector<std::string> variable_names()
{
    std::vector<std::string> r;
    for (auto& v : vars(0)) r.push_back(v.name);
    r.push_back("only1");
    r.push_back("none");
    return r;
}

// One event, everything crossed.
void one_event(bool all)
{
    Doc d;
    Ev e;
    e.variable = mc::pick(menu(variable_names()), "variable");
    e.action = mc::pick(menu({"override", "bias", "reset", "overide"}), "action");
    e.value = mc::pick(menu({"1", "true", "0.5", "text", "[1]"}), "value");
    e.model = mc::pick(menu({"a", "model b", "c"}), "model");
    e.time = mc::pick(all ? menu({"0.5", "1", "soon", "[1]"}) : menu({"0.5"}), "time");
    const int df = mc::choose(8, "defaults");
    if (df & 1) d.model = "model b";
    if (df & 2) d.variable = "intOut";
    if (df & 4) d.action = "bias";
    d.ev = {e};
    decide(d, mc::choose(2, "format"));
}
// Times and end times, values of every form.
void numbers()
{
    Doc d;
    Ev e;
    std::vector<std::string> n = NUMBERS, bad{"x", "true", "[1]", "1.2.3", "--1", "1e", "12s"};
    const int which = mc::choose(3, "time, end, value");
    n.insert(n.end(), bad.begin(), bad.end());
    const auto v = mc::pick(n, "number");
    e.time = which == 0 ? v : "1";
    if (which == 1) d.end = v;
    e.value = which == 2 ? v : "1";
    e.model = "a";
    e.variable = which == 2 ? mc::pick(std::vector<std::string>{"realIn", "intOut", "boolIn", "strIn"}, "variable") : "realIn";
    e.action = "override";
    d.ev = {e};
    const int f = mc::choose(2, "format");
    if (!f && std::find(bad.begin(), bad.end(), v) != bad.end() && which == 1 && v[0] != '[') d.end = "\"" + v + "\"";
    decide(d, f);
}
// Times which cannot be represented must not be misread.
void extreme_times()
{
    const auto v = mc::pick(std::vector<std::string>{".inf", "-.inf", ".nan", "1e300", "-1e300", "1e10", "9223372036.9", "9223372036"}, "time");
    const int which = mc::choose(2, "time or end");
    const std::string text = "events:\n  - {time: " + std::string(which ? "1" : v) + ", model: a, variable: realIn, action: reset}\n" + (which ? "end: " + v + "\n" : "");
    scenario::scenario s;
    try {
        s = read(text, ".yml");
    } catch (const std::exception&) {
        mc::check(v != "9223372036", "a valid time was rejected");
        mc::outcome("rejected");
        return;
    }
    mc::check(s.events.size() == 1 && s.end.has_value() == (which == 1), "wrong events or end");
    const double t = to_double_time_point(which ? *s.end : s.events[0].time);
    mc::check(std::abs(t - std::strtod(v.c_str(), nullptr)) < 1, "time " + v + " is read as " + std::to_string(t));
    mc::outcome("read");
}
// Several events: order, defaults, one invalid event spoils all.
void several(int n)
{
    Doc d;
    if (mc::choose(2, "defaults")) {
        d.model = "a";
        d.variable = "strOut";
        d.action = "reset";
    }
    d.end = mc::pick(menu({"1.25"}), "end");
    for (int i = 0; i < n; ++i) {
        Ev e;
        e.time = mc::pick(std::vector<std::string>{"1", "0.5"}, "time");
        switch (mc::choose(6, "event")) {
            case 0: e.model = "a"; e.variable = "realIn"; e.action = "override"; e.value = "1.25"; break;
            case 1: e.model = "model b"; e.variable = "intPar"; e.action = "bias"; e.value = "-3"; break;
            case 2: e.model = "model b"; e.action = "override"; e.value = "word"; break;
            case 3: e.variable = "boolCalc"; e.action = "override"; e.value = "true"; break;
            case 4: break;
            default: e.model = "a"; e.variable = "only1"; break;
        }
        d.ev.push_back(e);
    }
    decide(d, mc::choose(2, "format"));
}
// Every prefix of a file, and every file with one or two characters changed, removed or inserted.
void mutations(int edits)
{
    Doc d;
    d.model = "a";
    d.end = "1.25";
    d.ev = {Ev{"0.5", std::nullopt, "realIn", "bias", "1"}, Ev{"1", "model b", "strOut", "override", "word"}};
    const int f = mc::choose(2, "format");
    auto text = f ? yaml(d) : json(d);
    static const std::string alphabet = "{}[]:,\"'-\n #&*!%|>@`0a.\t\\?=\x80\x01";
    if (edits == 0) text.resize(mc::choose((int)text.size() + 1, "length"));
    int pos = 0;
    for (int i = 0; i < edits; ++i) {
        pos = edits > 1 ? pos + mc::choose(8, "distance") : mc::choose((int)text.size(), "position");
        if (edits > 1 && i == 0) pos = mc::choose((int)text.size(), "position");
        if (pos >= (int)text.size()) break;
        const int what = mc::choose(1 + 2 * (int)alphabet.size(), "remove, replace, insert");
        if (what == 0) text.erase(pos, 1);
        else if (what <= (int)alphabet.size()) text[pos] = alphabet[what - 1];
        else text.insert(pos, 1, alphabet[what - 1 - alphabet.size()]);
    }
    if (mc::tracing()) mc::note(text);
    try {
        auto s = read(text, f ? ".yml" : ".json");
        for (auto& e : s.events) {
            mc::check(e.action.simulator == 0 || e.action.simulator == 3, "an event refers to an unknown simulator");
            bool found = false;
            for (auto& v : vars(e.action.simulator ? 1 : 0)) found = found || (v.ref == e.action.variable && v.type == (variable_type)e.action.modifier.index() && v.causality != variable_causality::local);
            mc::check(found, "an event refers to a variable which does not exist or cannot be modified:\n" + text);
        }
        mc::outcome(mc::Str() << "read " << s.events.size());
    } catch (const std::exception&) {
        mc::outcome("rejected");
    }
}
// Documents of an unexpected structure.
void structure()
{
    const std::vector<std::string> node{"", "~", "1", "word", "[]", "[1]", "[{time: 1, model: a, variable: realIn, action: reset}]", "{}", "{time: 1, model: a, variable: realIn, action: reset}", "[[1]]", "[~]", "[{}]", "[{time: {a: 1}}]"};
    const int where = mc::choose(4, "root, events, defaults, field");
    const int k = mc::choose((int)node.size(), "node");
    const auto& n = node[k];
    std::string text = where == 0 ? n : where == 1 ? "events: " + n : where == 2 ? "defaults: " + n + "\nevents: [{time: 1, model: a, variable: realIn, action: reset}]"
                                                                               : "events: [{time: 1, model: a, variable: realIn, action: override, value: " + n + "}]";
    const bool list = n[0] == '[';
    try {
        auto s = read(text + "\n", ".yml");
        if (where == 0) mc::check(s.events.empty() && (n.empty() || n == "~" || n[0] == '{'), "a file whose top level is not a mapping was accepted:\n" + text);
        if (where == 1) mc::check(n.empty() || n == "~" || n == "[]" || (k == 6 && s.events.size() == 1), "events which are not a sequence of events were accepted:\n" + text);
        if (where == 2) mc::check(s.events.size() == 1 && !list, "defaults which are not a mapping were accepted:\n" + text);
        if (where == 3) mc::check(n == "1" && s.events.size() == 1, "an impossible value was accepted:\n" + text);
        mc::outcome("read");
    } catch (const std::exception& e) {
        mc::check(!(where == 1 && (n == "[]" || k == 6)) && !(where == 2 && n == "{}") && !(where == 3 && n == "1"), "a valid file was rejected: " + text);
        mc::outcome("rejected");
    }
}
void missing_file()
{
    const auto p = mc::scratch() + (mc::choose(2, "missing, directory") ? "" : "/no/such/file.json");
    mc::transition();
    mc::check(!completes([&] { parse_scenario(p, sims()); }), "a file which does not exist was read");
    scenario_manager m;
    mc::check(!completes([&] { m.load_scenario(filesystem::path(p), time_point()); }) && !m.is_scenario_running(), "a file which does not exist was loaded");
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C13";
    s.assumptions = {"biasing a boolean variable is left open", "yaml-cpp as installed"};
    const bool t = mc::thorough();
    s.add("one_event", [=] { one_event(t); });
    s.add("numbers", numbers);
    s.add("extreme_times", extreme_times);
    s.add("several", [=] { several(t ? 4 : 3); });
    s.add("prefixes", [] { mutations(0); });
    s.add("one_edit", [] { mutations(1); });
    if (t) s.add("two_edits", [] { mutations(2); });
    s.add("structure", structure);
    s.add("missing_file", missing_file);
}
