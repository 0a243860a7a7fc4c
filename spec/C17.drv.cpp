#include "core/db/dependency_graph.cpp"
using namespace Maike;
namespace spec
{
	using G = Db::DependencyGraph;
	using Node = std::pair<fs::path const, Db::SourceFileInfo>;
	using Nodes = std::vector<Db::SourceFileRecordConst>;
	using Deps = std::vector<Db::Dependency>;
	G::SourceFileList& map(G& g) { return g.m_src_files; }
	Nodes& nodes(G& g) { return g.m_nodes; }
	fs::path const& key(Node const& n) { return n.first; }
	Db::SourceFileInfo& value(Node& n) { return n.second; }
	Deps const& use(Db::SourceFileInfo const& i) { return i.useDeps(); }
	Deps const& build(Db::SourceFileInfo const& i) { return i.buildDeps(); }
	fs::path const* rec_path(Db::SourceFileRecordConst const& r) { return r.r_path; }
	Db::SourceFileInfo const* rec_info(Db::SourceFileRecordConst const& r) { return r.r_src_file_info; }
	size_t rec_id(Db::SourceFileRecordConst const& r) { return r.m_id.m_value; }
	bool rec_valid(Db::SourceFileRecordConst const& r) { return r.valid(); }
	size_t dep_ref(Db::Dependency const& d) { return d.m_ref.m_value; }
	fs::path const& dep_name(Db::Dependency const& d) { return d.name(); }
	void construct(G* g, G::SourceFileList&& l, bool b) { new(g) G{std::move(l), G::IgnoreResolveErrors{b}}; }
	Db::SourceFileRecordConst get(G const& g, fs::path const& n) { return getNode(g, n); }
}
namespace spec
{
	Db::SourceFileOrigin dep_origin(Db::Dependency const& d) { return d.expectedOrigin(); }
	void dep_set(Db::Dependency& d, size_t k) { d.m_ref = Db::SourceFileId{k}; }
}
