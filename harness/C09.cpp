// C09: observers and manipulators are notified completely and in order.
#include "sim.hpp"
using namespace sim;

namespace
{
// All events in the order in which they happen: notifications (with who got them) and slave steps.
struct World
{
    std::shared_ptr<fixed_step_algorithm> algo;
    std::unique_ptr<execution> exe;
    std::vector<std::shared_ptr<Slave>> sl;
    std::vector<int> factor;
    std::vector<std::string> log;
    int observers = 0, manipulators = 0;
    std::vector<std::pair<variable_id, variable_id>> conns;
    int steps = 0;
    bool initialized = false;
    std::vector<std::shared_ptr<void>> keep;
};
constexpr long long START = 50, BASE = 10;

std::string take(World& w, const std::string& who, std::vector<std::string> expectedUnordered, const std::vector<std::string>& tail = {})
{
    // events of `who` in w.log must be: the expected ones in any order, then the tail in order
    std::vector<std::string> mine;
    for (auto& e : w.log)
        if (e.rfind(who + ":", 0) == 0) mine.push_back(e.substr(who.size() + 1));
    std::vector<std::string> head(mine.begin(), mine.begin() + std::min(mine.size(), expectedUnordered.size()));
    std::sort(head.begin(), head.end());
    std::sort(expectedUnordered.begin(), expectedUnordered.end());
    std::vector<std::string> rest(mine.begin() + head.size(), mine.end());
    if (head != expectedUnordered || rest != tail) {
        std::string s = who + " got [";
        for (auto& e : mine) s += e + " ";
        s += "] instead of [";
        for (auto& e : expectedUnordered) s += e + " ";
        s += "] [";
        for (auto& e : tail) s += e + " ";
        return s + "]";
    }
    return "";
}
void expect(World& w, const std::string& who, const std::vector<std::string>& u, const std::vector<std::string>& tail = {})
{
    const auto e = take(w, who, u, tail);
    if (!e.empty()) mc::fail(e);
}

std::string added(World& w, int i) { return mc::Str() << "added(" << i << ",s" << i << "," << START + BASE * w.steps << ")"; }
std::string connected(const std::pair<variable_id, variable_id>& c) { return mc::Str() << "connected(" << c.first.simulator << "." << c.first.reference << "," << c.second.simulator << "." << c.second.reference << ")"; }

void add_slave(World& w)
{
    const int i = (int)w.sl.size();
    const int f = i == 1 ? 2 : 1;
    auto s = make_slave(i, {T_REAL});
    s->keepLog = false;
    s->hook = [&w, i](Slave&, char op) { if (op == 'D' || op == 'U' || op == 'B') w.log.push_back(mc::Str() << "s" << i << ":" << op); };
    w.sl.push_back(s);
    w.factor.push_back(f);
    const auto got = w.exe->add_slave(s, "s" + std::to_string(i), duration(BASE * f));
    mc::check(got == i, "simulator index is not the next one");
    for (int o = 0; o < w.observers; ++o) expect(w, "o" + std::to_string(o), {added(w, i)});
    for (int m = 0; m < w.manipulators; ++m) expect(w, "m" + std::to_string(m), {added(w, i)});
}
void add_observer(World& w)
{
    const std::string who = "o" + std::to_string(w.observers++);
    auto o = std::make_shared<Obs>();
    o->on = [&w, who](const std::string& e) { w.log.push_back(who + ":" + e); };
    w.exe->add_observer(o);
    std::vector<std::string> sims, conns;
    for (std::size_t i = 0; i < w.sl.size(); ++i) sims.push_back(added(w, (int)i));
    // simulators before the connections that involve them, and initialisation last
    std::vector<std::string> mine;
    for (auto& e : w.log)
        if (e.rfind(who + ":", 0) == 0) mine.push_back(e);
    std::vector<std::string> all = sims;
    for (auto& c : w.conns) all.push_back(connected(c));
    for (std::size_t i = 0; i < mine.size(); ++i)
        if (mine[i].find("connected(") != std::string::npos)
            mc::check(i >= sims.size(), "observer was told of a connection before its simulators");
    std::vector<std::string> tail;
    if (w.initialized) tail.push_back(mc::Str() << "init(" << w.steps << "," << START + BASE * w.steps << ")");
    expect(w, who, all, tail);
}
void add_manipulator(World& w)
{
    const std::string who = "m" + std::to_string(w.manipulators++);
    auto m = std::make_shared<Man>();
    m->on = [&w, who](const std::string& e) { w.log.push_back(who + ":" + e); };
    w.exe->add_manipulator(m);
    std::vector<std::string> sims;
    for (std::size_t i = 0; i < w.sl.size(); ++i) sims.push_back(added(w, (int)i));
    expect(w, who, sims);
}
void connect(World& w)
{
    const int n = (int)w.sl.size();
    const int k = (int)w.conns.size();
    if (n < 1 || k >= n) mc::discard();
    const std::pair<variable_id, variable_id> c{variable_id{0, T_REAL, 0}, variable_id{k, T_REAL, 1}};
    w.exe->connect_variables(c.first, c.second);
    w.conns.push_back(c);
    for (int o = 0; o < w.observers; ++o) expect(w, "o" + std::to_string(o), {connected(c)});
    // a connection which is refused is not announced
    w.log.clear();
    mc::check(!completes([&] { w.exe->connect_variables(c.first, c.second); }), "connected twice");
    mc::check(w.log.empty(), "a refused connection was announced");
}
void step(World& w, int n)
{
    if (n == 1) w.exe->step();
    else w.exe->simulate_until(tp(START + BASE * (w.steps + n)));
    std::size_t pos = 0;
    // split the log into the events of each step
    for (int k = 0; k < n; ++k) {
        std::vector<std::string> before, steps, after;
        const long long t0 = START + BASE * w.steps, t1 = t0 + BASE;
        // 0: initialisation (first step only)
        if (!w.initialized) {
            std::vector<std::string> got;
            while (pos < w.log.size() && (w.log[pos].find(":U") != std::string::npos || w.log[pos].find(":B") != std::string::npos)) ++pos;
            for (int o = 0; o < w.observers; ++o) {
                mc::check(pos < w.log.size() && w.log[pos].find("init(") != std::string::npos, "observer was not told of initialisation right after it");
                got.push_back(w.log[pos++]);
            }
            std::vector<std::string> want;
            for (int o = 0; o < w.observers; ++o) want.push_back(mc::Str() << "o" << o << ":init(0," << START << ")");
            std::sort(got.begin(), got.end());
            mc::check(got == want, "wrong initialisation notifications");
            w.initialized = true;
        }
        // 1: every manipulator, with the start time of the step
        std::vector<std::string> got(w.log.begin() + std::min(pos, w.log.size()), w.log.begin() + std::min(pos + w.manipulators, w.log.size())), want;
        pos += w.manipulators;
        for (int m = 0; m < w.manipulators; ++m) want.push_back(mc::Str() << "m" << m << ":commencing(" << t0 << ")");
        std::sort(got.begin(), got.end());
        mc::check(got == want, mc::Str() << "manipulators were not all notified (only) at the beginning of step " << w.steps + 1);
        // 2: every slave due
        want.clear();
        for (std::size_t i = 0; i < w.sl.size(); ++i)
            if (w.steps % w.factor[i] == 0) want.push_back(mc::Str() << "s" << i << ":D");
        got.assign(w.log.begin() + std::min(pos, w.log.size()), w.log.begin() + std::min(pos + want.size(), w.log.size()));
        pos += want.size();
        std::sort(got.begin(), got.end());
        mc::check(got == want, mc::Str() << "slaves were not stepped between the notifications of step " << w.steps + 1);
        // 3: per observer: the finished simulators, then the step
        ++w.steps;
        std::vector<std::string> fin;
        for (std::size_t i = 0; i < w.sl.size(); ++i)
            if (w.steps % w.factor[i] == 0) fin.push_back(mc::Str() << "simstep(" << i << "," << w.steps << "," << BASE << "," << t1 << ")");
        const std::size_t total = w.observers * (fin.size() + 1);
        std::vector<std::string> part(w.log.begin() + std::min(pos, w.log.size()), w.log.begin() + std::min(pos + total, w.log.size()));
        pos += total;
        World tmp;
        tmp.log = part;
        for (int o = 0; o < w.observers; ++o)
            expect(tmp, "o" + std::to_string(o), fin, {mc::Str() << "step(" << w.steps << "," << BASE << "," << t1 << ")"});
    }
    mc::check(pos == w.log.size(), "notifications too many or too few");
}

void run(int depth)
{
    quiet_logs();
    World w;
    w.algo = std::make_shared<fixed_step_algorithm>(duration(BASE), 0u);
    w.exe = std::make_unique<execution>(tp(START), w.algo);
    for (int d = 0; d < depth; ++d) {
        w.log.clear();
        switch (mc::choose(7, "add slave, observer, manipulator, connect, step, two steps, function")) {
            case 0:
                if (w.initialized || w.sl.size() >= 3) mc::discard();
                add_slave(w);
                break;
            case 1:
                if (w.observers >= 2) mc::discard();
                add_observer(w);
                break;
            case 2:
                if (w.manipulators >= 2) mc::discard();
                add_manipulator(w);
                break;
            case 3: connect(w); break;
            case 4: step(w, 1); break;
            case 5: step(w, 2); break;
            case 6:
                // (functions are not announced; nothing else may be either)
                w.exe->add_function(std::make_shared<Fun>());
                mc::check(w.log.empty(), "notification caused by a function");
                break;
        }
    }
    mc::outcome(mc::Str() << w.sl.size() << w.observers << w.manipulators << w.conns.size() << w.steps);
}
/// Observers and manipulators that are added in the middle of a step, from a callback of the other kind or of a slave
void joining(int steps)
{
    quiet_logs();
    execution exe(tp(START), std::make_shared<fixed_step_algorithm>(duration(BASE), 0u));
    const bool joinsManipulator = mc::choose(2, "joining manipulator");
    enum Place { FROM_OTHER, SETUP, START_SIM, STEP, SIM_STEP, STEP_COMPLETE, INIT, PLACES };
    const int place = mc::choose(PLACES, "where");
    if (!joinsManipulator && place >= SIM_STEP) mc::discard();
    const bool once = place == SETUP || place == START_SIM || place == INIT;
    const int at = once ? 0 : mc::choose(steps, "when");
    const int alone = mc::choose(2, "others");
    const int slaves = 1 + mc::choose(2, "slaves");
    const int slow = mc::choose(2, "slow");
    const int which = mc::choose(slaves, "which slave");
    const bool connection = mc::choose(2, "connection");
    std::vector<std::string> log;
    auto record = [&](const std::string& e) { log.push_back(e); };
    auto joining = [&, done = false]() mutable {
        if (done) return;
        done = true;
        if (joinsManipulator) {
            auto m = std::make_shared<Man>();
            m->on = record;
            exe.add_manipulator(m);
        } else {
            auto o = std::make_shared<Obs>();
            o->on = record;
            exe.add_observer(o);
        }
    };
    int step = 0; // the one in progress
    std::vector<std::shared_ptr<Slave>> sl;
    auto obs = std::make_shared<Obs>();
    auto man = std::make_shared<Man>();
    auto others = [&] {
        if (alone) {
            exe.add_observer(std::make_shared<Obs>());
            exe.add_manipulator(std::make_shared<Man>());
        }
    };
    others();
    if (joinsManipulator) {
        obs->onInit = [&](step_number, time_point) { if (place == INIT) joining(); };
        obs->onStep = [&](step_number, duration, time_point) { if (place == STEP_COMPLETE && step == at) joining(); };
        obs->onSimStep = [&](simulator_index i, step_number, duration, time_point) { if ((place == SIM_STEP || place == FROM_OTHER) && step == at && i == which) joining(); };
        exe.add_observer(obs);
    } else {
        man->onStep = [&](time_point) { if (place == FROM_OTHER && step == at) joining(); };
        exe.add_manipulator(man);
    }
    others();
    for (int i = 0; i < slaves; ++i) {
        sl.push_back(make_slave(i, {T_REAL}));
        sl[i]->hook = [&, i](Slave&, char op) {
            if (i != which) return;
            if (op == 'U' && place == SETUP) joining();
            if (op == 'B' && place == START_SIM) joining();
            if (op == 'D' && place == STEP && step == at) joining();
        };
        exe.add_slave(sl[i], "s" + std::to_string(i), duration(BASE * (slow && i == 0 ? 2 : 1)));
    }
    if (connection) exe.connect_variables(variable_id{0, T_REAL, 0}, variable_id{slaves - 1, T_REAL, 1});
    std::vector<std::string> want;
    bool joined = false;
    for (step = 0; step < steps; ++step) {
        log.clear();
        exe.step();
        want.clear();
        const long long t0 = START + BASE * step, t1 = t0 + BASE;
        auto finished = [&](int i) { return (step + 1) % (slow && i == 0 ? 2 : 1) == 0; };
        // how the step looks to someone who is there already, with the added() that go with joining
        const bool joins = !joined && step >= at && !log.empty();
        std::size_t head = 0;
        if (joins) {
            joined = true;
            const bool after = place == SIM_STEP || place == STEP_COMPLETE || (joinsManipulator && place == FROM_OTHER);
            for (int i = 0; i < slaves; ++i) want.push_back(mc::Str() << "added(" << i << ",s" << i << "," << (after ? t1 : t0) << ")");
            if (!joinsManipulator && connection) want.push_back(mc::Str() << "connected(0.0," << slaves - 1 << ".1)");
            head = want.size();
            if (joinsManipulator && (place == SETUP || place == START_SIM || place == INIT)) want.push_back(mc::Str() << "commencing(" << t0 << ")");
            if (!joinsManipulator) want.push_back(mc::Str() << "init(" << step << "," << t0 << ")");
        } else if (joined && joinsManipulator)
            want.push_back(mc::Str() << "commencing(" << t0 << ")");
        std::size_t sims = want.size(), simsEnd = sims;
        if (joined && !joinsManipulator) {
            for (int i = 0; i < slaves; ++i)
                if (finished(i)) want.push_back(mc::Str() << "simstep(" << i << "," << step + 1 << "," << BASE << "," << t1 << ")");
            simsEnd = want.size();
            want.push_back(mc::Str() << "step(" << step + 1 << "," << BASE << "," << t1 << ")");
        }
        auto got = log;
        auto text = [](const std::vector<std::string>& v) { std::string s; for (auto& e : v) s += e + " "; return s; };
        const std::string what = mc::Str() << "joining " << (joinsManipulator ? "manipulator" : "observer") << ", place " << place << ", step " << step << ": got " << text(got) << "instead of " << text(want);
        mc::check(got.size() == want.size(), what);
        // (the order of simulators does not matter)
        std::sort(got.begin(), got.begin() + head);
        std::sort(want.begin(), want.begin() + head);
        std::sort(got.begin() + sims, got.begin() + simsEnd);
        std::sort(want.begin() + sims, want.begin() + simsEnd);
        mc::check(got == want, what);
        if (joins)
            for (std::size_t i = 0; i < log.size(); ++i)
                if (log[i].rfind("connected(", 0) == 0) mc::check((int)i >= slaves, "told of a connection before the simulators");
    }
    const bool comes = !(place == STEP && slow && which == 0 && at % 2) && !(joinsManipulator && (place == SIM_STEP || place == FROM_OTHER) && slow && which == 0 && (at + 1) % 2);
    mc::check(joined == comes, mc::Str() << "place " << place << " at " << at << (comes ? " was never reached" : " was reached"));
    mc::outcome(mc::Str() << place << joinsManipulator << joined);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C09";
    s.assumptions = {"recording observers and manipulators; mock slaves"};
    const bool t = mc::thorough();
    s.add("joining_during_steps", [t] { joining(t ? 7 : 5); });
    s.add("histories", [t] { run(t ? 9 : 8); });
}
