// Persistent file caches of one of two simulated processes.
#pragma once
#include <memory>
#include <string>

struct AnyDir
{
    virtual ~AnyDir() = default;
    virtual std::string path() const = 0;
};
struct NoSuchKey { };
struct AnyCache
{
    virtual ~AnyCache() = default;
    virtual std::unique_ptr<AnyDir> rw(const std::string& key) = 0;
    virtual std::unique_ptr<AnyDir> ro(const std::string& key) = 0;
    virtual void cleanup() = 0;
};
std::unique_ptr<AnyCache> cache_p1(const std::string& root);
std::unique_ptr<AnyCache> cache_p2(const std::string& root);
