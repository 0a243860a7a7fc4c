// C17: each dependency is resolved to the file of that name, or reported
#include "vh.hpp"
#include "core/db/dependency_graph.hpp"
#include <map>
#include <set>
using namespace Maike;
using O = Db::SourceFileOrigin;
int main()
{
	vh::init("random source lists of up to 12 files with up to 6 use and build dependencies each, some naming no file, with errors ignored or not; non-trivial: at least one dependency");
	static char const* pool[] = {"a", "b", "a/b", "a.b", "a-b", "a/b/c", "A", "b/a", "", ".", "z.hpp", "z", "zz", "a/", "\xc3\xa9", "a b", "a0", "/a", "/usr/x"};
	for(int i = 0; i < (vh::thorough ? 1000000 : 60000) && vh::more(); ++i)
	{
		std::set<std::string> names;
		for(size_t k = 0, n = vh::below(13); k < n; ++k) names.insert(pool[vh::below(sizeof(pool) / sizeof(*pool))]);
		std::vector<std::string> nv(names.begin(), names.end());
		Db::DependencyGraph::SourceFileList list;
		std::string text;
		bool missing = false, any = false;
		for(auto const& n : nv)
		{
			Db::SourceFileInfo info{O::Project, Db::Compiler{}};
			std::vector<Db::Dependency> d[2];
			text += vh::show(n) + ":";
			for(int b = 0; b < 2; ++b)
				for(size_t k = 0, m = vh::below(4); k < m; ++k)
				{
					std::string x = vh::coin(29, 30) ? nv[vh::below(nv.size())] : pool[vh::below(sizeof(pool) / sizeof(*pool))];
					if(vh::coin(1, 60)) x = "nowhere";
					missing = missing || !names.count(x);
					any = true;
					text += (b ? " |" : " ") + vh::show(x);
					d[b].push_back(Db::Dependency{fs::path{x}, vh::coin() ? O::Project : vh::coin() ? O::System : O::Generated, std::vector<Db::Property>{}});
				}
			text += "; ";
			info.useDeps(std::move(d[0])).buildDeps(std::move(d[1]));
			list.insert(std::make_pair(fs::path{n}, std::move(info)));
		}
		bool ignore = vh::coin();
		vh::begin(text + (ignore ? "errors ignored" : ""), any);
		auto copy = list;
		try
		{
			Db::DependencyGraph g{std::move(list), Db::DependencyGraph::IgnoreResolveErrors{ignore}};
			if(!vh::expect(!missing || ignore, "no error though a dependency names no file")) continue;
			auto const& nodes = g.nodes();
			if(!vh::expect(nodes.size() == copy.size() && size(g) == copy.size(), std::to_string(nodes.size()) + " nodes")) continue;
			size_t k = 0;
			for(auto const& [path, info] : copy)
			{
				auto const& n = nodes[k];
				if(!vh::expect(n.valid() && n.id().valid() && n.id().value() == k && n.path().native() == path.native(), "node " + std::to_string(k) + " is " + (n.valid() ? n.path().string() : "invalid"))) break;
				auto comp = [&](std::vector<Db::Dependency> const& got, std::vector<Db::Dependency> const& src) {
					if(!vh::expect(got.size() == src.size(), "number of dependencies of " + path.string())) return;
					for(size_t j = 0; j < got.size(); ++j)
					{
						vh::expect(got[j].name() == src[j].name() && got[j].expectedOrigin() == src[j].expectedOrigin(), "dependency " + std::to_string(j) + " of " + path.string() + " changed");
						auto ref = got[j].reference();
						auto it = copy.find(src[j].name());
						if(it == copy.end()) vh::expect(!ref.valid(), "dependency on " + src[j].name().string() + " refers to a node");
						else vh::expect(ref.valid() && ref.value() == size_t(std::distance(copy.begin(), it)), "dependency of " + vh::show(path.string()) + " on " + vh::show(src[j].name().string()) + " refers to node " + (ref.valid() ? std::to_string(ref.value()) : "none"));
					}
				};
				comp(n.sourceFileInfo().useDeps(), info.useDeps());
				comp(n.sourceFileInfo().buildDeps(), info.buildDeps());
				++k;
			}
			for(auto p : pool)
			{
				auto n = getNode(g, fs::path{p});
				auto it = copy.find(fs::path{p});
				if(it == copy.end()) vh::expect(!n.valid(), std::string{"lookup of "} + vh::show(p) + " finds a node");
				else vh::expect(n.valid() && n.id().value() == size_t(std::distance(copy.begin(), it)), std::string{"lookup of "} + vh::show(p));
			}
		}
		catch(std::runtime_error const& e) { vh::expect(missing && !ignore, std::string{"error though every dependency names a file: "} + e.what()); }
	}
	return vh::done();
}
