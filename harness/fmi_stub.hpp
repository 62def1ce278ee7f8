#pragma once
#include "cosim/fmi/fmu.hpp"
#include "cosim/fmi/importer.hpp"
#include <functional>
#include <vector>
namespace fmi_stub
{
/// Called when an FMU is imported
extern std::function<std::shared_ptr<cosim::fmi::fmu>(const cosim::filesystem::path&)> import;
/// The caches importers were created with
extern std::vector<std::shared_ptr<cosim::file_cache>> caches;
} // namespace fmi_stub
