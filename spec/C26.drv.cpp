#include "core/db/source_file_record.cpp"
#include "core/db/dependency.cpp"
using namespace Maike;
namespace spec
{
	using namespace Db;
	json_t* handle(KeyValueStore::JsonHandle& c) { return c.handle(); }
	json_t* config_handle(Compiler& c) { return c.m_config.m_handle.handle(); }
	void make(void* p, json_t* h) { new(p) KeyValueStore::JsonHandle{h, "x"}; }
	fs::path& recipe(Compiler& c) { return c.m_recipe; }
	KeyValueStore::Compound& config(Compiler& c) { return c.m_config; }
	std::vector<TargetInfo>& targets(SourceFileInfo& i) { return i.m_targets; }
	fs::path const& target_name(TargetInfo const& t) { return t.name(); }
	Compiler& own(SourceFileInfo& i) { return i.m_compiler; }
	void set_default(SourceFileInfo& i, Compiler const* c) { i.m_compiler_default = c; }
	void record(SourceFileRecordConst* r, SourceFileId id, fs::path const* p, SourceFileInfo const* i) { r->m_id = id; r->r_path = p; r->r_src_file_info = i; }
	fs::path& exe(Exec::Command& c) { return c.executable; }
	std::vector<std::string>& args(Exec::Command& c) { return c.args; }
	std::string const& arg(std::vector<std::string>& v, size_t k) { return v[k]; }
	fs::path const& dep_name(Dependency const& d) { return d.name(); }
	SourceFileOrigin dep_origin(Dependency const& d) { return d.expectedOrigin(); }
	char const* origin_name(SourceFileOrigin o) { return toString(o); }
	std::vector<Property> const& props(Dependency const& d) { return d.properties(); }
	std::string const& prop_name(Property const& p) { return p.name(); }
	std::string const& prop_value(Property const& p) { return p.value(); }
	size_t sizes(int k) { return k == 0 ? sizeof(TargetInfo) : k == 1 ? sizeof(Dependency) : k == 2 ? sizeof(Property) : sizeof(std::string); }
}
