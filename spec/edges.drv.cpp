#include "core/db/dependency_graph.hpp"
using namespace Maike;
namespace spec
{
	void seen(Db::Dependency const&);
	void seen_node(Db::SourceFileRecordConst const&);
	std::vector<Db::Dependency> const& use(Db::SourceFileRecordConst const& r) { return r.sourceFileInfo().useDeps(); }
	std::vector<Db::Dependency> const& build(Db::SourceFileRecordConst const& r) { return r.sourceFileInfo().buildDeps(); }
	bool rec_valid(Db::SourceFileRecordConst const& r) { return r.valid(); }
	void edges(Db::SourceFileRecordConst const& r) { visitEdges([](Db::Dependency const& d) { seen(d); }, r); }
	void use_edges(Db::SourceFileRecordConst const& r) { visitEdges([](Db::Dependency const& d) { seen(d); }, r, Db::UseDepsOnly{}); }
	void nodes(Db::DependencyGraph const& g) { visitNodes([](Db::SourceFileRecordConst const& d) { seen_node(d); }, g); }
	std::vector<Db::SourceFileRecordConst> const& graph_nodes(Db::DependencyGraph const& g) { return g.nodes(); }
	Db::SourceFileRecordConst const& by_id(Db::DependencyGraph const& g, size_t i) { return getNodeById(g, Db::SourceFileId{i}); }
	size_t graph_size(Db::DependencyGraph const& g) { return size(g); }
}
