#include "core/source_tree_loader/command_dictionary.cpp"
using namespace Maike;
namespace spec
{
	using D = SourceTreeLoader::CommandDictionary;
	using V = std::pair<fs::path const, D::result_type>;
	void init(D* p, D::Content* c) { new(&p->m_content) std::unique_ptr<D::Content>{c}; }
	fs::path const& project(D::Content const& c) { return c.m_search_paths[0]; }
	fs::path const& system(D::Content const& c) { return c.m_search_paths[1]; }
	void* mutex(D::Content& c) { return &c.m_mtx; }
	void* map(D::Content& c) { return &c.m_commands; }
	fs::path const& res_path(D::result_type const& r) { return r.first; }
	Db::SourceFileOrigin res_origin(D::result_type const& r) { return r.second; }
	D::result_type& node_value(V& v) { return v.second; }
	fs::path const& in_key(std::pair<fs::path, D::result_type> const& v) { return v.first; }
	D::result_type const& in_value(std::pair<fs::path, D::result_type> const& v) { return v.second; }
	void node_make(V* v, fs::path const& k, fs::path const& p, Db::SourceFileOrigin o) { new(v) V{k, D::result_type{p, o}}; }
	void set_project(D& d, fs::path&& p) { d.projectDir(std::move(p)); }
	void set_system(D& d, fs::path&& p) { d.systemDir(std::move(p)); }
}
