#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"
using namespace Maike;
namespace spec
{
	fs::path const* dep_name(Db::Dependency const& d) { return &d.name(); }
	int dep_origin(Db::Dependency const& d) { return static_cast<int>(d.expectedOrigin()); }
	size_t dep_props(Db::Dependency const& d) { return d.properties().size(); }
	std::vector<std::regex> const* patterns(Cxx::SourceFileLoader const& l) { return &l.generated_includes(); }
	int project() { return static_cast<int>(Db::SourceFileOrigin::Project); }
	int system() { return static_cast<int>(Db::SourceFileOrigin::System); }
	int generated() { return static_cast<int>(Db::SourceFileOrigin::Generated); }
}
