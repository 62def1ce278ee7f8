#include "caches.hpp"
#include "cosim/file_cache.hpp"
#include <stdexcept>
#ifndef CACHE
#    define CACHE cache_p1
#endif
namespace
{
template<typename T>
struct Dir : AnyDir
{
    std::unique_ptr<T> d;
    explicit Dir(std::unique_ptr<T> x) : d(std::move(x)) { }
    std::string path() const override { return d->path().string(); }
};
template<typename T>
std::unique_ptr<AnyDir> wrap(std::unique_ptr<T> x) { return std::make_unique<Dir<T>>(std::move(x)); }
struct Impl : AnyCache
{
    cosim::persistent_file_cache c;
    explicit Impl(const std::string& root) : c(root) { }
    std::unique_ptr<AnyDir> rw(const std::string& key) override { return wrap(c.get_directory_rw(key)); }
    std::unique_ptr<AnyDir> ro(const std::string& key) override
    {
        try {
            return wrap(c.get_directory_ro(key));
        } catch (const std::logic_error&) {
            throw NoSuchKey();
        }
    }
    void cleanup() override { c.cleanup(); }
};
}
std::unique_ptr<AnyCache> CACHE(const std::string& root) { return std::make_unique<Impl>(root); }
