#include "locks.hpp"
#include "cosim/utility/concurrency.hpp"
#ifndef OPEN_LOCK
#    define OPEN_LOCK open_p1
#endif
namespace
{
using L = cosim::utility::file_lock;
struct Impl : AnyLock
{
    L l;
    explicit Impl(L&& x) : l(std::move(x)) { }
    Impl(const std::string& p, cosim::utility::file_lock_initial_state s) : l(p, s) { }
    bool acquire(bool shared, bool tryOnly) override
    {
        if (tryOnly) return shared ? l.try_lock_shared() : l.try_lock();
        shared ? l.lock_shared() : l.lock();
        return true;
    }
    void release(bool shared) override { shared ? l.unlock_shared() : l.unlock(); }
    std::unique_ptr<AnyLock> move_away() override { return std::make_unique<Impl>(std::move(l)); }
    void assign(AnyLock& o) override { l = std::move(static_cast<Impl&>(o).l); }
};
}
std::unique_ptr<AnyLock> OPEN_LOCK(const std::string& path, Initially i)
{
    using S = cosim::utility::file_lock_initial_state;
    return std::make_unique<Impl>(path, i == Initially::unlocked ? S::not_locked : i == Initially::exclusive ? S::locked : S::locked_shared);
}
