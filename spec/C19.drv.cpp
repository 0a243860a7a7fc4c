#include "core/source_tree_loader/source_file_load_ctxt.cpp"
using namespace Maike;
namespace spec
{
	using Ctxt = SourceTreeLoader::SourceFileLoadContext;
	void ctx(Ctxt* p, fs::path const& src, fs::path const& sd, fs::path const& td) { new(p) Ctxt{std::ref(src), std::ref(sd), std::ref(td)}; }
	fs::path const& file_dir(Ctxt const& c) { return c.sourceFileDir(); }
	fs::path const& source_dir(Ctxt const& c) { return c.sourceDir(); }
	fs::path const& target_dir(Ctxt const& c) { return c.targetDir(); }
	fs::path const& dep_name(Db::Dependency const& d) { return d.name(); }
	Db::SourceFileOrigin dep_origin(Db::Dependency const& d) { return d.expectedOrigin(); }
	void dep_make(Db::Dependency* p, fs::path const& n, Db::SourceFileOrigin o) { new(p) Db::Dependency{n, o, std::vector<Db::Property>{}}; }
	fs::path const& target_name(Db::TargetInfo const& t) { return t.name(); }
	void target_make(Db::TargetInfo* p, fs::path const& n) { new(p) Db::TargetInfo{fs::path{n}, std::vector<Db::Dependency>{}}; }
	void compound_make(KeyValueStore::Compound* p, json_t* h) { new(&p->m_handle.m_handle) std::unique_ptr<json_t, KeyValueStore::JsonHandle::JsonDeleter>{h}; }
}
