// C01: the worker pool runs every submitted task exactly once and completes before wait returns.
#include "mc.hpp"

#include "cosim/utility/thread_pool.hpp"

#include <memory>

namespace
{
struct Cfg
{
    unsigned workers;
    std::vector<int> rounds; // tasks per round
    bool submitterWaitsTwice = false;
};

void run(const Cfg& cfg)
{
    int total = 0;
    for (int r : cfg.rounds) total += r;
    auto done = std::make_unique<int[]>(total); // plain memory: unordered access is reported as a data race
    for (int i = 0; i < total; ++i) done[i] = 0;
    std::string order;
    {
        cosim::utility::thread_pool pool(cfg.workers);
        int base = 0;
        for (std::size_t r = 0; r < cfg.rounds.size(); ++r) {
            for (int i = 0; i < cfg.rounds[r]; ++i) {
                pool.submit([&done, k = base + i] {
                    mc::point();
                    done[k] += 1;
                });
                mc::transition();
            }
            pool.wait_for_tasks_to_finish();
            if (cfg.submitterWaitsTwice) pool.wait_for_tasks_to_finish();
            base += cfg.rounds[r];
            for (int i = 0; i < total; ++i) {
                if (i < base && done[i] != 1)
                    mc::fail(mc::Str() << "task " << i << " ran " << done[i] << " times before the wait of round " << r << " returned");
            }
        }
    }
    for (int i = 0; i < total; ++i)
        mc::check(done[i] == 1, mc::Str() << "task " << i << " ran " << done[i] << " times in total");
    mc::outcome(order);
}
} // namespace

void mc_register(mc::Suite& s)
{
    s.property = "C01";
    s.assumptions = {"sequentially consistent interleavings plus happens-before race detection"};
    auto add = [&](const char* name, Cfg c, int q, int t) {
        auto& x = s.add(name, [c] { run(c); });
        x.sched = true;
        x.spurious = true;
        x.bound = mc::thorough() ? t : q;
    };
    add("zero_workers", {0, {2, 0, 1}}, 1, 1);
    add("one_worker", {1, {2, 1}}, 3, 5);
    add("two_workers_two_tasks", {2, {2}}, 3, 5);
    add("two_workers_reuse", {2, {1, 2}}, 2, 4);
    add("two_workers_empty_round", {2, {0, 2, 0}, true}, 2, 3);
    add("three_workers_three_tasks", {3, {3}}, 2, 3);
    add("two_workers_four_tasks", {2, {4}}, 2, 3);
}
