// An arbitrary graph: everything about it is left to the contracts in graph.py
#include "core/utils/graphutils.hpp"
#include "core/db/source_file_id.hpp"
namespace spec
{
	struct VNode; struct VEdge;
	struct VGraph { using node_type = VNode; using edge_type = VEdge; };
	Maike::Db::SourceFileId id(VNode const&);
	Maike::Db::SourceFileId reference(VEdge const&);
	VNode const& getNodeById(VGraph const&, Maike::Db::SourceFileId);
	size_t size(VGraph const&);
	size_t deg(VNode const&);
	VEdge const& edge(VNode const&, size_t);
	VNode const& node(VGraph const&, size_t);
	void deliver(VNode const&, VEdge const*);
	// ghost code
	void expand(VNode const&);
	void edge_done(VNode const&, size_t);
	template<class F> void visitEdges(F&& f, VNode const& n)
	{
		expand(n);
		for(size_t i = 0; i != deg(n); ++i) { f(edge(n, i)); edge_done(n, i); }
	}
	template<class F> void visitNodes(F&& f, VGraph const& g) { for(size_t i = 0; i != size(g); ++i) { f(node(g, i)); } }
	struct CB { void operator()(VNode const& n, VEdge const* e) const { deliver(n, e); } };
	void from_node(VGraph const& g, VNode const& n) { Maike::processGraphNodeRecursive(CB{}, g, n); }
	void all(VGraph const& g) { Maike::visitNodesInTopoOrder(CB{}, g); }
}
