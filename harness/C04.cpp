// C04: connected inputs carry the latest source value; nothing else is transferred; connections can be added and removed.
#include "sim.hpp"

#include "cosim/slave_simulator.hpp"

#include <algorithm>
#include <map>
#include <numeric>

using namespace sim;

namespace
{
enum Kind { SS, SF, FS };
struct Cand
{
    Kind kind;
    int src, dst, dstIn; // simulator index (or function input index for SF)
};
// three simulators, one function with two inputs; the first four share no target conflict freely
const std::vector<Cand> cands{
    {SS, 0, 1, 1},
    {SS, 1, 2, 1},
    {SS, 2, 0, 1},
    {SF, 0, 0, 0},
    {SF, 1, 0, 1},
    {FS, 0, 2, 1},
    {FS, 0, 1, 1},
    {SS, 0, 0, 1},
    {SS, 1, 0, 3},
};
const int NS = 3;

struct World
{
    variable_type type;
    fixed_step_algorithm algo{duration(10), 0u};
    std::vector<std::shared_ptr<Slave>> sl;
    std::vector<std::unique_ptr<slave_simulator>> ss;
    Fun fun;
    std::vector<int> df = std::vector<int>(NS, 1);
    std::vector<bool> present = std::vector<bool>(NS, true);
    std::vector<bool> on = std::vector<bool>(cands.size(), false);
    long funIn[2] = {0, 0};
    long funOut = 0;
    std::map<unsigned, long> pending[NS];
    std::size_t logPos[NS] = {};
    int counter = 0;

    bool same_target(const Cand& a, const Cand& b) const
    {
        if ((a.kind == SF) != (b.kind == SF)) return false;
        return a.dst == b.dst && a.dstIn == b.dstIn;
    }
    bool possible(int c) const
    {
        for (std::size_t i = 0; i < cands.size(); ++i)
            if (on[i] && same_target(cands[i], cands[c])) return false;
        auto& k = cands[c];
        if (k.kind != FS && !present[k.src]) return false;
        if (k.kind != SF && !present[k.dst]) return false;
        return true;
    }
    void toggle(int c)
    {
        auto& k = cands[c];
        const auto rin = (value_reference)k.dstIn;
        if (on[c]) {
            if (k.kind == SF) algo.disconnect_variable(function_io_id{0, type, Fun::in_ref(type, k.dstIn)});
            else algo.disconnect_variable(variable_id{k.dst, type, rin});
        } else {
            if (k.kind == SS) algo.connect_variables(variable_id{k.src, type, 0}, variable_id{k.dst, type, rin});
            if (k.kind == SF) algo.connect_variables(variable_id{k.src, type, 0}, function_io_id{0, type, Fun::in_ref(type, k.dstIn)});
            if (k.kind == FS) algo.connect_variables(function_io_id{0, type, Fun::out_ref(type)}, variable_id{k.dst, type, rin});
        }
        on[c] = !on[c];
    }
    void remove(int i)
    {
        algo.remove_simulator(i);
        present[i] = false;
        for (std::size_t c = 0; c < cands.size(); ++c) {
            auto& k = cands[c];
            if ((k.kind != FS && k.src == i) || (k.kind != SF && k.dst == i)) on[c] = false;
        }
    }
    int fdf() const
    {
        int f = 1;
        for (std::size_t c = 0; c < cands.size(); ++c)
            if (on[c] && cands[c].kind == FS) f = std::lcm(f, df[cands[c].dst]);
        return f;
    }
    // what the specification says happens at a communication point
    void model_transfer()
    {
        const int ff = fdf();
        for (std::size_t c = 0; c < cands.size(); ++c) {
            if (!on[c]) continue;
            auto& k = cands[c];
            if (k.kind == SS && counter % df[k.src] == 0 && counter % df[k.dst] == 0) pending[k.dst][k.dstIn] = sl[k.src]->number((int)type, 0);
            if (k.kind == SF && counter % df[k.src] == 0 && counter % ff == 0) funIn[k.dstIn] = sl[k.src]->number((int)type, 0);
        }
        if (counter % ff == 0) funOut = Fun::compute((int)type, fun.base, funIn, 2);
        for (std::size_t c = 0; c < cands.size(); ++c)
            if (on[c] && cands[c].kind == FS && counter % ff == 0) pending[cands[c].dst][cands[c].dstIn] = funOut;
    }
    std::string state() const
    {
        mc::Str s;
        s << "factors";
        for (int f : df) s << ' ' << f;
        s << ", connections";
        for (std::size_t c = 0; c < cands.size(); ++c)
            if (on[c]) s << " " << (cands[c].kind == FS ? "F" : std::to_string(cands[c].src)) << "->" << (cands[c].kind == SF ? "F" : std::to_string(cands[c].dst)) << "." << cands[c].dstIn;
        s << ", communication point " << counter;
        return s;
    }
    // compares what simulator i was given between two points of its log with the expectation
    void check_writes(int i, const std::map<unsigned, long>& want)
    {
        std::map<unsigned, long> got;
        auto& l = sl[i]->log;
        for (std::size_t p = logPos[i]; p < l.size(); ++p)
            if (l[p].op == 'W') {
                mc::check(l[p].type == (int)type, "variable of another type written");
                mc::check(!got.count(l[p].ref), mc::Str() << "input " << l[p].ref << " of simulator " << i << " written twice before a step; " << state());
                got[l[p].ref] = l[p].v;
            }
        logPos[i] = l.size();
        if (got != want) {
            mc::Str m;
            m << "simulator " << i << " was given";
            for (auto& g : got) m << " in" << g.first << "=" << g.second;
            m << " but should have been given";
            for (auto& g : want) m << " in" << g.first << "=" << g.second;
            mc::fail(m << "; " << state());
        }
    }
    void step()
    {
        for (int i = 0; i < NS; ++i) logPos[i] = sl[i]->log.size();
        auto before = counter;
        algo.do_step(tp(counter * 10));
        mc::transition();
        for (int i = 0; i < NS; ++i) {
            if (!present[i]) {
                mc::check(logPos[i] == sl[i]->log.size(), "removed simulator was used");
            } else if (before % df[i] == 0) {
                check_writes(i, pending[i]);
                pending[i].clear();
            } else {
                check_writes(i, {});
            }
        }
        ++counter;
        model_transfer();
    }
};

void run(int steps, int changes, bool allSubsets, bool factorChanges, int types = 4)
{
    quiet_logs();
    World w;
    w.type = all_types()[mc::choose(types, "type")];
    w.fun.nIn = 2;
    w.fun.base = 1;
    static const std::vector<int> fs{1, 2, 3};
    const int factorsFirst = mc::choose(2, "factors after connecting");
    std::vector<int> want;
    for (int i = 0; i < NS; ++i) {
        w.sl.push_back(make_slave(i, {w.type}));
        w.sl.back()->var("in3", 3, w.type, variable_causality::input, 7);
        w.ss.push_back(std::make_unique<slave_simulator>(w.sl.back(), "s" + std::to_string(i)));
        want.push_back(mc::pick(fs, "factor"));
    }
    w.algo.setup(tp(0), std::nullopt);
    for (int i = 0; i < NS; ++i) w.algo.add_simulator(i, w.ss[i].get(), duration(0));
    w.algo.add_function(0, &w.fun);
    auto setFactors = [&] {
        for (int i = 0; i < NS; ++i) {
            w.algo.set_stepsize_decimation_factor(i, want[i]);
            w.df[i] = want[i];
        }
    };
    if (!factorsFirst) setFactors();
    for (std::size_t c = 0; c < cands.size(); ++c) {
        if (!w.possible((int)c)) continue;
        if (allSubsets ? mc::choose(2, "connect") : (c != 3)) w.toggle((int)c);
    }
    if (factorsFirst) setFactors();
    // before initialisation connections may already be removed again
    if (changes > 0) {
        const int c = mc::choose((int)cands.size() + 1, "toggle before initialisation") - 1;
        if (c >= 0) {
            if (!w.on[c] && !w.possible(c)) mc::discard();
            w.toggle(c);
            --changes;
        }
    }
    w.algo.initialize();
    w.model_transfer();
    for (int i = 0; i < NS; ++i) {
        for (auto& [ref, v] : w.pending[i])
            mc::check(w.sl[i]->val[(int)w.type][ref] == v, mc::Str() << "input " << ref << " of simulator " << i << " was " << w.sl[i]->val[(int)w.type][ref] << " instead of " << v << " when the simulation started; " << w.state());
        if (!w.pending[i].count(3)) mc::check(w.sl[i]->val[(int)w.type][3] == as_seen(w.type, 7), "unconnected input was written");
        // nothing may be written between start and first step
        auto& l = w.sl[i]->log;
        auto b = std::find_if(l.begin(), l.end(), [](auto& c) { return c.op == 'B'; });
        mc::check(std::none_of(b, l.end(), [](auto& c) { return c.op == 'W'; }), "variables written between start and first step");
    }
    for (int k = 0; k < steps; ++k) {
        if (changes > 0 && k > 0) {
            const int extra = factorChanges ? NS : 0;
            int c = mc::choose((int)cands.size() + 2 + extra, "change") - 1;
            if (c >= 0) {
                --changes;
                if (c < (int)cands.size()) {
                    if (!w.on[c] && !w.possible(c)) mc::discard();
                    w.toggle(c);
                } else if (c == (int)cands.size()) {
                    w.remove(2);
                } else {
                    const int i = c - (int)cands.size() - 1;
                    const int nf = mc::pick(fs, "new factor");
                    if (nf == w.df[i] || !w.present[i] || w.counter % nf || w.counter % w.df[i]) mc::discard();
                    w.algo.set_stepsize_decimation_factor(i, nf);
                    w.df[i] = nf;
                }
            }
        }
        w.step();
    }
    mc::outcome_hash(mc::hash_str(w.state()));
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C04";
    s.assumptions = {"three mock simulators and one mock function; step size factors 1 to 3; at most the stated number of connection changes per run"};
    const bool t = mc::thorough();
    s.add("fixed_connections", [] { run(7, 0, true, false); });
    s.add("one_change", [t] { run(t ? 8 : 5, 1, true, false, t ? 4 : 1); });
    s.add("changes_from_full", [t] { run(t ? 8 : 7, t ? 3 : 2, false, true); });
    if (t) s.add("two_changes", [] { run(6, 2, true, false); });
}
