// File locks of one of two simulated processes.
#pragma once
#include <memory>
#include <string>

struct AnyLock
{
    virtual ~AnyLock() = default;
    virtual bool acquire(bool shared, bool tryOnly) = 0;
    virtual void release(bool shared) = 0;
    virtual std::unique_ptr<AnyLock> move_away() = 0;     // move-constructs a new object from this one
    virtual void assign(AnyLock& other) = 0;              // move-assigns
};
enum class Initially { unlocked, exclusive, shared };
std::unique_ptr<AnyLock> open_p1(const std::string& path, Initially i = Initially::unlocked);
std::unique_ptr<AnyLock> open_p2(const std::string& path, Initially i = Initially::unlocked);
