// Stands in for the FMU importer, which cannot be built here. See fmi_stub.hpp.
#include "fmi_stub.hpp"
namespace fmi_stub
{
std::function<std::shared_ptr<cosim::fmi::fmu>(const cosim::filesystem::path&)> import;
std::vector<std::shared_ptr<cosim::file_cache>> caches;
} // namespace fmi_stub

struct jm_callbacks
{
};
namespace cosim::fmi
{
importer::importer(std::shared_ptr<file_cache> cache)
    : fileCache_(std::move(cache))
    , handle_(nullptr, [](fmi_import_context_t*) {})
{
}
std::shared_ptr<importer> importer::create(std::shared_ptr<file_cache> cache)
{
    fmi_stub::caches.push_back(cache);
    return std::shared_ptr<importer>(new importer(std::move(cache)));
}
std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& p)
{
    return fmi_stub::import ? fmi_stub::import(p) : nullptr;
}
} // namespace cosim::fmi
