// C16: log files contain exactly the configured samples.
#include "sim.hpp"
#include "cosim/observer/file_observer.hpp"
#include <cmath>
#include <dirent.h>
#include <fstream>
#include <map>
#include <set>
#include <sys/stat.h>
#include <thread>
using namespace sim;

namespace
{
constexpr long long START = 500000000, STEP = 100000000; // 0.5 s, 0.1 s

/// Its string outputs contain characters which mean something in a CSV file.
struct StrSlave : Slave
{
    bool plain = false;
    static std::string decorate(unsigned ref, const std::string& v) { return ref == 3 ? v + ",\"x\",\r\ny" : v; }
    void get_string_variables(gsl::span<const value_reference> r, gsl::span<std::string> v) const override
    {
        Slave::get_string_variables(r, v);
        if (!plain)
            for (std::size_t i = 0; i < (std::size_t)r.size(); ++i) v[i] = decorate(r[i], v[i]);
    }
};
struct Column { std::string name; variable_type type; unsigned ref; bool local; };

using Row = std::pair<step_number, std::map<std::string, std::string>>; // step -> fields; "Time" is one of them

struct World
{
    std::unique_ptr<execution> exe;
    std::vector<std::shared_ptr<StrSlave>> sl;
    std::vector<int> factors;
    std::vector<std::vector<Column>> cols;
    World(std::vector<int> f, std::vector<variable_type> types, bool rich)
        : factors(f)
    {
        quiet_logs();
        auto alg = std::make_shared<fixed_step_algorithm>(duration(STEP), 0u);
        exe = std::make_unique<execution>(tp(START), alg);
        for (std::size_t i = 0; i < f.size(); ++i) {
            auto s = std::make_shared<StrSlave>();
            s->id = (int)i;
            s->plain = !rich;
            s->keepLog = false;
            const char* n[] = {"real", "int", "bool", "str"};
            for (auto t : types) {
                const std::string p = n[(int)t];
                s->var(p + "Out", 0, t, variable_causality::output);
                if (!rich) continue;
                s->var(p + "In[1,2]", 1, t, variable_causality::input, 0);
                s->var(p + "Out2", 3, t, variable_causality::output);
                s->var(p + "Loc", 5, t, variable_causality::local);
            }
            cols.emplace_back();
            for (auto& v : s->vars) cols.back().push_back({v.name, v.type, v.reference, v.causality == variable_causality::local});
            if (rich) s->vars.push_back(variable_description{"enum", 8, variable_type::enumeration, variable_causality::output, variable_variability::discrete, std::nullopt});
            sl.push_back(s);
            exe->add_slave(s, "s" + std::to_string(i));
            alg->set_stepsize_decimation_factor((int)i, f[i]);
        }
    }
    Row row(int i, step_number n, const std::vector<Column>& c) const
    {
        Row r;
        r.first = n;
        r.second["Time"] = std::to_string((START + n * STEP) / 1e9);
        for (auto& x : c) {
            const long v = as_seen(x.type, sl[i]->number((int)x.type, x.ref));
            r.second[x.name] = x.type == T_STR ? StrSlave::decorate(sl[i]->plain ? 0 : x.ref, std::to_string(v)) : std::to_string(v);
        }
        return r;
    }
};

std::vector<std::string> list(const std::string& dir)
{
    std::set<std::string> s;
    if (auto* d = opendir(dir.c_str())) {
        while (auto* e = readdir(d))
            if (e->d_name[0] != '.') s.insert(e->d_name);
        closedir(d);
    }
    return {s.begin(), s.end()};
}
std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    return {std::istreambuf_iterator<char>(i), {}};
}
/// Splits a CSV file (RFC 4180) into records.
std::vector<std::vector<std::string>> csv(const std::string& text, const std::string& name)
{
    std::vector<std::vector<std::string>> r;
    std::size_t p = 0;
    while (p < text.size()) {
        r.emplace_back();
        for (;;) {
            std::string f;
            if (p < text.size() && text[p] == '"') {
                for (++p;; ++p) {
                    if (p >= text.size()) mc::fail(name + ": quoted field without end");
                    if (text[p] != '"') f += text[p];
                    else if (p + 1 < text.size() && text[p + 1] == '"') f += text[p++];
                    else break;
                }
                ++p;
                if (p < text.size() && text[p] != ',' && text[p] != '\n') mc::fail(name + ": characters after a quoted field");
            } else {
                while (p < text.size() && text[p] != ',' && text[p] != '\n') f += text[p++];
            }
            r.back().push_back(f);
            if (p >= text.size()) mc::fail(name + ": the last row is not complete: " + f);
            if (text[p++] == '\n') break;
        }
    }
    return r;
}
/// All rows logged for simulator `sim`.
std::vector<Row> read_log(const std::string& dir, const std::string& sim, const std::vector<Column>& cols)
{
    std::vector<Row> rows;
    for (auto& f : list(dir)) {
        if (f.rfind(sim, 0) != 0 || (f[sim.size()] != '.' && f[sim.size()] != '_') || f.size() < 4 || f.substr(f.size() - 4) != ".csv") continue;
        std::vector<std::string> header;
        const auto text = slurp(dir + "/" + f);
        for (auto& rec : csv(text, f)) {
            if (rec[0] == "Time") {
                header = rec;
                std::set<std::string> names(rec.begin(), rec.end()), should{"Time", "StepCount"};
                for (auto& c : cols) should.insert(c.name);
                if (names != should || rec.size() != should.size()) mc::fail(f + ": wrong columns:\n" + text);
                continue;
            }
            if (rec.size() != header.size()) mc::fail(f + ": a row with " + std::to_string(rec.size()) + " fields instead of " + std::to_string(header.size()) + ":\n" + text);
            Row r;
            for (std::size_t i = 0; i < rec.size(); ++i) {
                if (header[i] == "StepCount") r.first = std::stoll(rec[i]);
                else r.second[header[i]] = rec[i];
            }
            rows.push_back(r);
        }
    }
    return rows;
}
bool same(const Row& a, const Row& b, const std::vector<Column>& cols)
{
    if (a.first != b.first) return false;
    auto num = [](const std::string& s) { return std::strtod(s.c_str(), nullptr); };
    if (std::abs(num(a.second.at("Time")) - num(b.second.at("Time"))) > 1e-4) return false;
    for (auto& c : cols) {
        auto &x = a.second.at(c.name), &y = b.second.at(c.name);
        if (c.type == T_STR ? x != y : x.empty() || num(x) != num(y)) return false;
    }
    return true;
}
std::string show(const std::vector<Row>& r)
{
    mc::Str s;
    for (auto& x : r) {
        s << "\n  " << x.first << ":";
        for (auto& f : x.second) s << " " << f.first << "=" << f.second;
    }
    return s;
}

std::string dir()
{
    mc::clear_scratch();
    return mc::scratch() + "/logs";
}

struct Sel { bool logged = false; std::vector<int> vars; std::optional<int> dec; };
struct Config { bool present = false, xml = false, stamped = true; int precision = -1; Sel s[2]; };

std::shared_ptr<file_observer> make(const World& w, const Config& c, const std::string& d)
{
    if (!c.present) return std::make_shared<file_observer>(d);
    if (c.xml) {
        const auto f = mc::scratch() + "/LogConfig.xml";
        std::ofstream o(f);
        o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- a comment -->\n<simulators xmlns=\"http://opensimulationplatform.com/LogConfig\"" << (c.stamped ? "" : " timeStampedFileNames=\"false\"") << ">\n";
        for (int i = 0; i < 2; ++i) {
            if (!c.s[i].logged) continue;
            o << "  <simulator name=\"s" << i << "\"";
            if (c.s[i].dec) o << " decimationFactor=\"" << *c.s[i].dec << "\"";
            o << ">\n";
            for (auto v : c.s[i].vars) o << "    <variable name=\"" << w.cols[i][v].name << "\"/>\n    <!--variable name=\"x\"/-->\n";
            o << "  </simulator>\n";
        }
        o << "</simulators>\n";
        o.close();
        return std::make_shared<file_observer>(d, filesystem::path(f));
    }
    file_observer_config f;
    f.set_timestamped_filenames(c.stamped);
    if (c.precision >= 0) f.fixed_precision(c.precision);
    for (int i = 0; i < 2; ++i) {
        if (!c.s[i].logged) continue;
        std::optional<std::size_t> dec;
        if (c.s[i].dec) dec = *c.s[i].dec;
        std::vector<std::string> names;
        for (auto v : c.s[i].vars) names.push_back(w.cols[i][v].name);
        if (names.empty()) f.log_all_simulator_variables("s" + std::to_string(i), dec);
        else f.log_simulator_variables("s" + std::to_string(i), names, dec);
    }
    return std::make_shared<file_observer>(d, f);
}
std::vector<Column> selected(const World& w, const Config& c, int i)
{
    std::vector<Column> r;
    if (!c.present) {
        for (auto& x : w.cols[i]) if (!x.local) r.push_back(x);
    } else if (c.s[i].vars.empty()) r = w.cols[i];
    else for (auto v : c.s[i].vars) r.push_back(w.cols[i][v]);
    return r;
}

/// Steps (s), starting (+) and stopping (-) the recording.
void run(World& w, const Config& c, int before, const std::vector<int>& script, bool stale)
{
    const auto d = dir();
    if (stale) {
        mkdir(d.c_str(), 0777);
        std::ofstream(d + "/s0.csv") << "junk from before\n";
    }
    std::vector<Row> should[2];
    std::vector<Column> cols[2];
    for (int i = 0; i < 2; ++i) cols[i] = selected(w, c, i);
    step_number n = 0;
    for (; n < before; ++n) w.exe->step();
    std::string trail = mc::Str() << before << " steps, add";
    bool rec = true, init = before > 0;
    {
        auto obs = make(w, c, d);
        auto sample = [&](bool all) {
            if (!rec) return;
            for (int i = 0; i < 2; ++i) {
                if (c.present && !c.s[i].logged) continue;
                if (!all && n % w.factors[i]) continue;
                if (n % (c.present ? c.s[i].dec.value_or(1) : 1)) continue;
                should[i].push_back(w.row(i, n, cols[i]));
            }
        };
        w.exe->add_observer(obs);
        if (init) sample(true);
        for (int op : script) {
            mc::transition();
            if (op == 0) {
                trail += " step";
                if (!init) {
                    init = true;
                    sample(true);
                }
                w.exe->step();
                ++n;
                sample(false);
            } else {
                const bool start = op == 1;
                trail += start ? " start" : " stop";
                const bool ok = completes([&] { start ? obs->start_recording() : obs->stop_recording(); });
                mc::check(ok == (rec != start), trail + (ok ? ": was not refused" : ": was refused"));
                rec = start;
                mc::check(obs->is_recording() == rec, trail + ": is_recording() is wrong");
                if (!rec) {
                    // everything is on disk by now
                    for (int i = 0; i < 2; ++i)
                        if (!c.present || c.s[i].logged) mc::check(read_log(d, "s" + std::to_string(i), cols[i]).size() == should[i].size(), trail + ": rows missing after recording was stopped");
                }
            }
        }
        w.exe.reset();
    }
    for (int i = 0; i < 2; ++i) {
        const std::string name = "s" + std::to_string(i);
        if (c.present && !c.s[i].logged) {
            for (auto& f : list(d)) mc::check(f.rfind(name, 0) != 0 || (stale && f == "s0.csv"), trail + ": a log file for a simulator which is not logged");
            continue;
        }
        auto is = read_log(d, name, cols[i]);
        bool ok = is.size() == should[i].size();
        for (std::size_t k = 0; ok && k < is.size(); ++k) ok = same(is[k], should[i][k], cols[i]);
        if (!ok) mc::fail(mc::Str() << trail << ": log of " << name << ":" << show(is) << "\nshould be:" << show(should[i]));
    }
    mc::outcome(mc::Str() << should[0].size() << "/" << should[1].size());
}

void sequences(int depth)
{
    World w({1, 2}, all_types(), true);
    Config c;
    const int k = mc::choose(4, "configuration");
    if (k) {
        c.present = true;
        c.stamped = k == 2;
        c.xml = k == 3;
        c.s[0].logged = true;
        c.s[0].dec = k == 1 ? 2 : 1;
        c.s[0].vars = {0, 15, 7};
        c.s[1].logged = k != 2;
    }
    const int before = mc::choose(4, "steps before the observer is added");
    std::vector<int> script;
    for (int i = 0; i < depth; ++i) {
        const int op = mc::choose(4, "end, step, start, stop");
        if (!op) break;
        script.push_back(op - 1);
    }
    run(w, c, before, script, k == 1);
}

void configurations(bool wide)
{
    World w({1, mc::choose(3, "factor") + 1}, all_types(), true);
    Config c;
    c.present = true;
    c.xml = mc::choose(2, "xml");
    c.stamped = mc::choose(2, "time stamps");
    if (!c.xml && mc::choose(2, "precision")) c.precision = 2;
    const std::vector<std::vector<int>> vars{{}, {0}, {1}, {3}, {14}, {15, 0}, {5, 6, 7}, {14, 2, 10, 0}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}};
    const std::vector<std::optional<int>> dec{std::nullopt, 1, 2, 3, 5};
    for (int i = 0; i < 2; ++i) {
        c.s[i].logged = wide || i == 0 ? true : mc::choose(2, "logged") != 0;
        if (!c.s[i].logged) continue;
        c.s[i].vars = i == 0 || wide ? mc::pick(vars, "variables") : vars[6];
        c.s[i].dec = mc::pick(dec, "decimation");
    }
    // (a file with another run's time stamp is none of ours)
    run(w, c, 0, {0, 0, 0, 2, 0, 1, 0, 0, 0}, !c.stamped && c.s[0].logged && mc::choose(2, "stale file"));
}

// Configurations which cannot be carried out.
void bad_configurations()
{
    World w({1, 1}, {T_REAL}, true);
    const auto d = dir();
    const auto f = mc::scratch() + "/LogConfig.xml";
    struct B { const char* xml; int verdict; }; // 0 must be refused, 1 must work, 2 must not crash
    const std::vector<B> texts{
        {"", 0},
        {"<simulators>", 0},
        {"<other/>", 0},
        {"<simulators/>", 1},
        {"<simulators><simulator/></simulators>", 0},
        {"<simulators><simulator name='s0'><variable/></simulator></simulators>", 0},
        {"<simulators><simulator name='s0'><variable name='none'/></simulator></simulators>", 0},
        {"<simulators><simulator name='s0'><variable name='enum'/></simulator></simulators>", 0},
        {"<simulators><simulator name='s0' decimationFactor='0'/></simulators>", 0},
        {"<simulators><simulator name='s0' decimationFactor='-1'/></simulators>", 2},
        {"<simulators><simulator name='s0' decimationFactor='x'/></simulators>", 2},
        {"<simulators><simulator name='unknown'><variable name='none'/></simulator></simulators>", 1},
        {"<simulators><simulator name='s0'/><simulator name='s1' decimationFactor='2'/></simulators>", 1},
    };
    const auto& t = texts[mc::choose((int)texts.size(), "text")];
    std::ofstream(f) << t.xml;
    const bool ok = completes([&] {
        auto o = std::make_shared<file_observer>(d, filesystem::path(f));
        w.exe->add_observer(o);
        w.exe->step();
        w.exe->step();
        o->stop_recording();
    });
    mc::check(t.verdict == 2 || ok == (t.verdict == 1), mc::Str() << t.xml << (ok ? " was accepted" : " was refused"));
    mc::check(!completes([&] { file_observer o(d, filesystem::path(f + "x")); }), "a configuration file which does not exist was accepted");
    World x({1, 1}, {T_REAL}, true);
    file_observer_config c;
    auto ok2 = completes([&] {
        c.log_simulator_variables("s0", {}, 0);
        auto o = std::make_shared<file_observer>(d, c);
        x.exe->add_observer(o);
        x.exe->step();
    });
    mc::check(!ok2, "decimation factor 0 was accepted");
    mc::outcome(ok ? "ok" : "refused");
}

#ifdef MC_SCHED
// Recording is switched by other threads while stepping.
void concurrent(std::vector<std::vector<int>> plans, int steps, bool stamped, int factor, int dec, int sims)
{
    World w(sims == 2 ? std::vector<int>{1, factor} : std::vector<int>{factor}, {T_REAL, T_STR}, false);
    const auto d = dir();
    file_observer_config conf;
    conf.set_timestamped_filenames(stamped);
    for (int i = 0; i < sims; ++i) conf.log_simulator_variables("s" + std::to_string(i), {}, dec);
    auto obs = std::make_shared<file_observer>(d, conf);
    w.exe->add_observer(obs);
    struct Ev { int op; long a, b; bool ok; };
    std::vector<std::vector<Ev>> ev(plans.size());
    struct St { long a, b; };
    std::vector<St> st; // by step number
    st.push_back({0, 0});
    mc::quiet(true);
    w.exe->step();
    mc::quiet(false);
    st.push_back({0, 0});
    std::vector<std::vector<Row>> all(sims);
    for (int i = 0; i < sims; ++i)
        for (int n = 0; n < 2; ++n) all[i].push_back({});
    std::vector<std::thread> th;
    for (std::size_t k = 0; k < plans.size(); ++k)
        th.emplace_back([&, k] {
            for (int op : plans[k]) {
                Ev e{op, mc::stamp(), 0, false};
                e.ok = completes([&] { op ? obs->start_recording() : obs->stop_recording(); });
                e.b = mc::stamp();
                ev[k].push_back(e);
            }
        });
    for (int n = 2; n < steps + 2; ++n) {
        const long a = mc::stamp();
        w.exe->step();
        st.push_back({a, mc::stamp()});
    }
    for (auto& t : th) t.join();
    const bool atEnd = obs->is_recording();
    obs.reset();
    w.exe.reset();
    // the requests must have been granted or refused as if they had been made one by one
    std::vector<Ev> lin;
    std::vector<std::size_t> pos(plans.size(), 0);
    mc::Str o;
    std::vector<std::vector<Row>> logs;
    for (int i = 0; i < sims; ++i) {
        logs.push_back(read_log(d, "s" + std::to_string(i), w.cols[i]));
        for (std::size_t k = 1; k < logs[i].size(); ++k) mc::check(logs[i][k - 1].first < logs[i][k].first, "rows out of order or duplicated:" + show(logs[i]));
        for (auto& r : logs[i]) {
            const int f = w.factors[i];
            mc::check(r.first == 0 || r.first % f == 0, "a row for a step at which the simulator did not complete:" + show(logs[i]));
            mc::check(r.first % dec == 0, "a row for a step which should be left out:" + show(logs[i]));
            const long v = i * 1000 + 1 + r.first / f + ((r.first == 0) ? 0 : 0);
            Row should;
            should.first = r.first;
            should.second = {{"Time", std::to_string((START + r.first * STEP) / 1e9)}, {"realOut", std::to_string(v)}, {"strOut", std::to_string(v + 30)}};
            mc::check(same(r, should, w.cols[i]), "a row with wrong values:" + show(logs[i]));
        }
    }
    auto consistent = [&]() -> bool {
        bool rec = true;
        for (auto& e : lin) {
            if (e.ok != (rec != (e.op == 1))) return false;
            if (e.ok) rec = e.op == 1;
        }
        if (rec != atEnd) return false;
        for (int i = 0; i < sims; ++i)
            for (int n = 0; n < (int)st.size(); ++n) {
                if ((n && n % w.factors[i]) || n % dec) continue;
                // states of recording during this step
                bool some = false, every = true, r = true;
                long since = -1;
                for (std::size_t k = 0; k <= lin.size(); ++k) {
                    const long until = k < lin.size() ? lin[k].b : 1L << 60;
                    const bool overlaps = st[n].a <= until && st[n].b >= since;
                    if (overlaps) {
                        some = some || r;
                        every = every && r;
                    }
                    if (k < lin.size()) {
                        if (lin[k].ok) r = lin[k].op == 1;
                        since = lin[k].a;
                    }
                }
                const bool logged = std::any_of(logs[i].begin(), logs[i].end(), [&](auto& x) { return x.first == n; });
                if (logged && !some) return false;
                if (!logged && every) return false;
            }
        return true;
    };
    std::function<bool()> go = [&]() -> bool {
        bool any = false;
        for (std::size_t k = 0; k < ev.size(); ++k) {
            if (pos[k] == ev[k].size()) continue;
            any = true;
            const auto e = ev[k][pos[k]];
            bool first = true;
            for (std::size_t j = 0; j < ev.size(); ++j)
                for (std::size_t i = pos[j]; i < ev[j].size(); ++i) first = first && !(ev[j][i].b < e.a);
            if (!first) continue;
            lin.push_back(e);
            ++pos[k];
            if (go()) return true;
            --pos[k];
            lin.pop_back();
        }
        return !any && consistent();
    };
    for (auto& p : ev)
        for (auto& e : p) o << (e.op ? "+" : "-") << e.ok;
    for (auto& l : logs) {
        o << " |";
        for (auto& r : l) o << " " << r.first;
    }
    if (!go()) {
        mc::Str m;
        for (auto& p : ev)
            for (auto& e : p) m << " " << (e.op ? "start" : "stop") << "[" << e.a << "," << e.b << "]" << e.ok;
        m << "; steps";
        for (auto& s : st) m << " [" << s.a << "," << s.b << "]";
        mc::fail("no order of the requests explains the rows: " + std::string(o) + ";" + std::string(m));
    }
    mc::outcome(o);
}
#endif
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C16";
    s.assumptions = {"sequentially consistent interleavings with data race detection; mock slaves", "writing to the file system does not fail"};
    const bool t = mc::thorough();
#ifdef MC_SCHED
    auto add = [&](std::string n, std::vector<std::vector<int>> p, int steps, bool stamped, int factor, int dec, int sims, int bound) {
        auto& x = s.add(n, [=] { concurrent(p, steps, stamped, factor, dec, sims); });
        x.sched = true;
        x.bound = bound;
    };
    add("stop", {{0}}, 2, false, 1, 1, 2, t ? 6 : 5);
    add("stop_start", {{0, 1}}, t ? 4 : 3, false, 1, 1, 2, t ? 5 : 3);
    add("stop_start_stamped", {{0, 1}}, 3, true, 1, 1, 1, t ? 6 : 4);
    add("stop_start_slow_decimated", {{0, 1}}, 4, false, 2, 2, 2, t ? 4 : 2);
    add("two_controllers", {{0, 1}, {0}}, 2, false, 1, 1, 1, t ? 4 : 3);
    add("two_starts", {{0, 1}, {1}}, 1, false, 1, 1, 1, t ? 5 : 4);
    add("two_stops", {{0}, {0}}, 1, false, 1, 1, 1, t ? 6 : 5);
#else
    s.add("sequences", [=] { sequences(t ? 7 : 5); });
    s.add("configurations", [=] { configurations(t); });
    s.add("bad_configurations", bad_configurations);
#endif
}
