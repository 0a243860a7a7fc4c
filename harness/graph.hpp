// processGraphNodeRecursive, visitNodesInTopoOrder (on a plain graph and on Db::DependencyGraph) against definitions
#include "vh.hpp"
#include "core/utils/graphutils.hpp"
#include "core/db/dependency_graph.hpp"
#include <algorithm>
#include <set>
#include <map>
struct GEdge { size_t to; };
struct GNode { size_t id; std::vector<GEdge> e; };
struct G { using node_type = GNode; using edge_type = GEdge; std::vector<GNode> n; };
inline size_t id(GNode const& n) { return n.id; }
inline size_t reference(GEdge const& e) { return e.to; }
inline size_t size(G const& g) { return g.n.size(); }
inline GNode const& getNodeById(G const& g, size_t i) { return g.n.at(i); }
template<class F> void visitEdges(F&& f, GNode const& n) { for(auto const& e : n.e) f(e); }
template<class F> void visitNodes(F&& f, G const& g) { for(auto const& n : g.n) f(n); }
static constexpr size_t NONE = static_cast<size_t>(-1);
using Adj = std::vector<std::vector<size_t>>;

inline std::string show(Adj const& a)
{
	std::string r;
	for(size_t i = 0; i < a.size(); ++i)
	{
		r += std::to_string(i) + ":";
		for(auto t : a[i]) r += t == NONE ? "-," : std::to_string(t) + ",";
		r += " ";
	}
	return r;
}
inline std::vector<bool> reach(Adj const& a, size_t s)
{
	std::vector<bool> v(a.size());
	std::vector<size_t> st{s};
	v[s] = true;
	while(!st.empty())
	{
		auto x = st.back(); st.pop_back();
		for(auto t : a[x]) if(t != NONE && !v[t]) { v[t] = true; st.push_back(t); }
	}
	return v;
}
inline bool cyclic(Adj const& a, std::vector<bool> const& in)
{
	// repeatedly remove nodes without remaining targets
	std::vector<bool> gone(a.size());
	bool ch = true;
	while(ch)
	{
		ch = false;
		for(size_t i = 0; i < a.size(); ++i)
		{
			if(!in[i] || gone[i]) continue;
			bool ok = true;
			for(auto t : a[i]) if(t != NONE && !gone[t]) ok = false;
			if(ok) { gone[i] = true; ch = true; }
		}
	}
	for(size_t i = 0; i < a.size(); ++i) if(in[i] && !gone[i]) return true;
	return false;
}
// which = 1: deliveries (C01), 2: cycles (C02)
inline void judge(int which, Adj const& a, std::vector<bool> const& in, bool single, size_t root,
                  std::vector<std::pair<size_t, size_t>> const& seq, bool err, char const* what)
{
	bool cyc = cyclic(a, in);
	if(which == 2)
	{
		vh::expect(cyc == err, std::string{what} + (err ? ": a cycle is reported, but there is none" : ": the cycle is not reported"));
		return;
	}
	std::vector<int> pos(a.size(), -1);
	for(size_t k = 0; k < seq.size(); ++k)
	{
		auto [n, via] = seq[k];
		if(!vh::expect(n < a.size() && in[n], std::string{what} + ": a node that is not asked for is delivered")) return;
		if(!vh::expect(pos[n] < 0, std::string{what} + ": node " + std::to_string(n) + " delivered twice")) return;
		for(auto t : a[n]) if(t != NONE)
			if(!vh::expect(pos[t] >= 0, std::string{what} + ": node " + std::to_string(n) + " delivered before " + std::to_string(t))) return;
		vh::expect(via == n || (via == NONE && (!single || n == root)), std::string{what} + ": node delivered with an edge that does not lead to it");
		pos[n] = int(k);
	}
	if(err || cyc) return;
	for(size_t i = 0; i < a.size(); ++i) if(in[i])
		if(!vh::expect(pos[i] >= 0, std::string{what} + ": node " + std::to_string(i) + " is not delivered")) return;
}
inline void plain(int which, Adj const& a)
{
	vh::begin("graph " + show(a), !a.empty());
	G g;
	for(size_t i = 0; i < a.size(); ++i) { g.n.push_back(GNode{i, {}}); for(auto t : a[i]) g.n[i].e.push_back(GEdge{t}); }
	std::vector<std::pair<size_t, size_t>> seq;
	auto cb = [&](GNode const& n, GEdge const* e) { seq.push_back({n.id, e ? e->to : NONE}); };
	bool err = false;
	try { Maike::visitNodesInTopoOrder(cb, g); } catch(std::runtime_error const&) { err = true; }
	judge(which, a, std::vector<bool>(a.size(), true), false, 0, seq, err, "visitNodesInTopoOrder");
	for(size_t s = 0; s < a.size(); ++s)
	{
		seq.clear(); err = false;
		try { Maike::processGraphNodeRecursive(cb, g, g.n[s]); } catch(std::runtime_error const&) { err = true; }
		judge(which, a, reach(a, s), true, s, seq, err, ("processGraphNodeRecursive from " + std::to_string(s)).c_str());
	}
}
// the same through the product's own graph; edges are split into use and build dependencies
inline void real(int which, Adj const& a, uint64_t split)
{
	using namespace Maike;
	vh::begin("source files " + show(a) + "split " + std::to_string(split), !a.empty());
	auto nm = [](size_t i) { char b[16]; snprintf(b, sizeof b, "f%03zu", i); return fs::path{b}; };
	Db::DependencyGraph::SourceFileList list;
	for(size_t i = 0; i < a.size(); ++i)
	{
		Db::SourceFileInfo info{Db::SourceFileOrigin::Project, Db::Compiler{}};
		std::vector<Db::Dependency> u, b;
		size_t k = 0;
		for(auto t : a[i])
		{
			Db::Dependency d{t == NONE ? fs::path{"nowhere"} : nm(t), Db::SourceFileOrigin::Project, std::vector<Db::Property>{}};
			(((split >> ((i * 7 + k++) % 64)) & 1) ? b : u).push_back(d);
		}
		info.useDeps(std::move(u)).buildDeps(std::move(b));
		list.insert(std::make_pair(nm(i), std::move(info)));
	}
	Db::DependencyGraph g{std::move(list), Db::DependencyGraph::IgnoreResolveErrors{}};
	std::vector<std::pair<size_t, size_t>> seq;
	auto cb = [&](Db::SourceFileRecordConst const& n, Db::Dependency const* e) { seq.push_back({n.id().value(), e ? e->reference().value() : NONE}); };
	bool err = false;
	try { visitNodesInTopoOrder(cb, g); } catch(std::runtime_error const&) { err = true; }
	judge(which, a, std::vector<bool>(a.size(), true), false, 0, seq, err, "visitNodesInTopoOrder(source files)");
	for(size_t s = 0; s < a.size(); ++s)
	{
		seq.clear(); err = false;
		try { processGraphNodeRecursive(cb, g, getNodeById(g, Db::SourceFileId{s})); } catch(std::runtime_error const&) { err = true; }
		judge(which, a, reach(a, s), true, s, seq, err, ("processGraphNodeRecursive(source files) from " + std::to_string(s)).c_str());
	}
}
inline int run(int which)
{
	// all graphs with up to 3 nodes, without and with repeated edges in both orders
	for(size_t n = 0; n <= 3; ++n)
	{
		std::vector<std::vector<size_t>> rows{{}};
		for(size_t len = 1; len <= 3; ++len)
		{
			auto lo = rows.size();
			std::vector<std::vector<size_t>> add;
			for(auto const& r : rows) if(r.size() == len - 1) for(size_t t = 0; t <= n; ++t) { auto q = r; q.push_back(t == n ? NONE : t); add.push_back(q); }
			(void)lo;
			if(n < 3 || len < 3) rows.insert(rows.end(), add.begin(), add.end());
		}
		if(n == 3) { rows.push_back({0, 1, 2}); rows.push_back({2, 1, 0}); rows.push_back({1, 2, 1}); rows.push_back({1, 1, 2}); }
		std::vector<size_t> ix(n);
		while(true)
		{
			Adj a;
			for(auto i : ix) a.push_back(rows[i]);
			plain(which, a);
			size_t k = 0;
			while(k < n && ++ix[k] == rows.size()) ix[k++] = 0;
			if(k == n) break;
		}
	}
	// all simple graphs with 4 nodes, targets in ascending order
	for(unsigned m = 0; m < 65536; ++m)
	{
		Adj a(4);
		for(unsigned b = 0; b < 16; ++b) if(m >> b & 1) a[b / 4].push_back(b % 4);
		plain(which, a);
		if(m % 64 == 0) real(which, a, vh::rnd());
	}
	while(vh::more())
	{
		size_t n = 1 + vh::below(vh::coin(1, 4) ? 60 : 12);
		Adj a(n);
		std::vector<size_t> perm(n);
		for(size_t i = 0; i < n; ++i) perm[i] = i;
		for(size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[vh::below(i)]);
		size_t m = vh::below(3 * n + 1);
		for(size_t k = 0; k < m; ++k)
		{
			auto x = vh::below(n), y = vh::below(n);
			if(x == y) continue;
			if(x < y) std::swap(x, y);
			a[perm[x]].push_back(perm[y]);
			if(vh::coin(1, 12)) a[perm[x]].push_back(perm[y]);
			if(vh::coin(1, 20)) a[perm[x]].push_back(NONE);
		}
		if(vh::coin(1, 3)) a[vh::below(n)].push_back(vh::below(n));     // possibly a cycle
		if(vh::coin(3, 4)) plain(which, a); else real(which, a, vh::coin() ? 0 : vh::rnd());
	}
	// long chain and wide fan
	{
		size_t n = vh::thorough ? 200000 : 20000;
		G g;
		for(size_t i = 0; i < n; ++i) { g.n.push_back(GNode{i, {}}); if(i) g.n[i].e.push_back(GEdge{i - 1}); }
		vh::begin("chain of " + std::to_string(n));
		size_t k = 0; bool ok = true;
		try { Maike::processGraphNodeRecursive([&](GNode const& x, GEdge const*) { ok = ok && x.id == k; ++k; }, g, g.n.back()); } catch(...) { ok = false; }
		vh::expect(ok && k == n, "chain not delivered in order");
	}
	return vh::done();
}
