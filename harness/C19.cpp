// C19: references and targets are mapped to the right place in the tree
#include "vh.hpp"
#include "core/source_tree_loader/source_file_load_ctxt.hpp"
#include "core/key_value_store/array.hpp"
using namespace Maike;
using O = Db::SourceFileOrigin;
using P = std::vector<std::string>;
// paths as component lists; abs: starts at the root
struct Path { bool abs; P c; };
static Path parse(std::string const& s)
{
	Path r{!s.empty() && s[0] == '/', {}};
	std::string w;
	for(char ch : s + "/")
	{
		if(ch != '/') { w += ch; continue; }
		if(w == "..") { if(!r.c.empty() && r.c.back() != "..") r.c.pop_back(); else if(!r.abs) r.c.push_back(w); }
		else if(!w.empty() && w != ".") r.c.push_back(w);
		w.clear();
	}
	return r;
}
static Path cat(Path a, Path const& b)
{
	if(b.abs) return b;
	for(auto const& x : b.c)
	{
		if(x == ".." && !a.c.empty() && a.c.back() != "..") a.c.pop_back();
		else if(x == ".." && a.abs && a.c.empty()) {}
		else a.c.push_back(x);
	}
	return a;
}
static Path rel(Path const& a, Path const& base)
{
	Path r{false, {}};
	size_t k = 0;
	while(k < a.c.size() && k < base.c.size() && a.c[k] == base.c[k]) ++k;
	for(size_t i = k; i < base.c.size(); ++i) r.c.push_back("..");
	for(size_t i = k; i < a.c.size(); ++i) r.c.push_back(a.c[i]);
	return r;
}
static std::string str(Path const& p)
{
	std::string r = p.abs ? "/" : "";
	for(size_t i = 0; i < p.c.size(); ++i) r += (i ? "/" : "") + p.c[i];
	return r.empty() ? "." : r;
}
// a final separator or dot does not matter for the place
static std::string canon(fs::path const& p) { return str(parse(p.string())); }

int main()
{
	vh::init("source and target directories (relative, '.', absolute), referring files up to 3 levels deep, references with and without './' and with '..', every origin; non-trivial: all");
	static char const* dirs[] = {".", "src", "src/core", "/proj/src", "a"};
	static char const* tgts[] = {"__targets", "out/put", "/abs/t", "."};
	static char const* refs[] = {"./x.o", "x.hpp", "sub/x.hpp", "./sub/x.o", "./../y.o", "../y.o", "./../../z", "./", ".", "", ".x", "./.x", "a/./b", "a//b", "a/../b", "core/x", "./core/x", "/usr/include/x", "s p", "..", "./..", "../../../w", "src/x", "./a/../b.o", "/", "x/"};
	O os[] = {O::Project, O::Generated, O::System, O::PkgConfig};
	for(auto sd : dirs) for(auto td : tgts) for(int depth = 0; depth < 4; ++depth)
	{
		static char const* sub[] = {"", "d1/", "d1/d2/", "core/src/q/"};
		auto below = std::string{sub[depth]} + "file.cpp";
		fs::path spath = std::string{sd} == "." && vh::coin() ? fs::path{below} : fs::path{std::string{sd} + "/" + below};
		fs::path sdir{sd}, tdir{td};
		SourceTreeLoader::SourceFileLoadContext ctxt{spath, sdir, tdir};
		auto fdir = parse(spath.parent_path().string());
		for(auto ref : refs)
		{
			if(std::string{ref} == "../../../w" && sd[0] == '/') continue;      // above the root of the file system: no such place
			for(auto o : os)
			{
				std::string r{ref};
				vh::begin("source file " + spath.string() + " in " + sd + ", targets in " + td + ", reference " + vh::show(r) + " of origin " + std::to_string(int(o)));
				std::string want;
				bool inside = o == O::Project || o == O::Generated;
				auto exact = !inside;
				if(!inside) want = r;
				else
				{
					auto p = r.compare(0, 2, "./") == 0 ? cat(fdir, parse(r)) : cat(parse(sd), parse(r));
					if(o == O::Generated)
					{
						if(p.abs != parse(sd).abs) continue;      // no place under the source directory
						p = cat(parse(td), rel(p, parse(sd)));
					}
					want = str(p);
				}
				auto got = SourceTreeLoader::prependSearchPath(ctxt, fs::path{r}, o);
				auto d = SourceTreeLoader::prependSearchPath(ctxt, Db::Dependency{fs::path{r}, o, std::vector<Db::Property>{}});
				auto dv = SourceTreeLoader::prependSearchPath(ctxt, std::vector<Db::Dependency>{Db::Dependency{fs::path{r}, o, std::vector<Db::Property>{}}, Db::Dependency{fs::path{r}, O::System, std::vector<Db::Property>{}}});
				if(exact) vh::expect(got.native() == want && d.name().native() == want, "resolved to " + vh::show(got.string()));
				else
				{
					vh::expect(canon(got) == want && got == d.name(), "resolved to " + vh::show(got.string()) + ", expected " + vh::show(want));
					vh::expect(got.native() == got.lexically_normal().native(), "not normalised: " + vh::show(got.string()));
				}
				vh::expect(d.expectedOrigin() == o && dv.size() == 2 && dv[0].name() == got && dv[0].expectedOrigin() == o && dv[1].name() == fs::path{r}, "dependency list");
				auto j = KeyValueStore::Compound{}.set("ref", r.c_str()).set("rel", "impl");
				char const* on[] = {"project", "generated", "system", "pkg-config"};
				for(int mode = 0; mode < 2; ++mode)
				{
					if(mode) j.set("origin", toString(o));
					auto q = SourceTreeLoader::getDependency(ctxt, j.reference(), mode ? O::System : o);
					vh::expect(q.name() == got && q.expectedOrigin() == o && q.properties().size() == 1, "from a tag: " + vh::show(q.name().string()));
				}
			}
			if(std::string{ref}.empty() || ref[0] == '/') continue;
			vh::begin("source file " + spath.string() + " in " + sd + ", targets in " + td + ", target name " + vh::show(ref));
			auto got = SourceTreeLoader::makeTargetName(ctxt, fs::path{ref});
			auto want = str(cat(parse(td), rel(cat(fdir, parse(ref)), parse(sd))));
			vh::expect(canon(got) == want, "placed at " + vh::show(got.string()) + ", expected " + vh::show(want));
			vh::expect(got.native() == got.lexically_normal().native(), "not normalised: " + vh::show(got.string()));
			auto j = KeyValueStore::Compound{}.set("name", ref);
			vh::expect(SourceTreeLoader::getTarget(ctxt, j.reference()).name() == got, "from a tag");
			// tags with lists
			auto dep = [&](char const* o) { auto d = KeyValueStore::Compound{}.set("ref", ref); if(o) d.set("origin", o); return d; };
			auto list = [&] { return KeyValueStore::Array{}.append(dep("generated")).append(dep(nullptr)).append(dep("project")); };
			auto same = [&](std::vector<Db::Dependency> const& v, O dflt) {
				O w[] = {O::Generated, dflt, O::Project};
				for(size_t k = 0; k < 3; ++k) if(v.size() < 3 || v[k].expectedOrigin() != w[k] || v[k].name() != SourceTreeLoader::prependSearchPath(ctxt, fs::path{ref}, w[k])) return false;
				return true; };
			for(int has = 0; has < 4; ++has)
			{
				auto t = KeyValueStore::Compound{}.set("name", ref);
				if(has & 1) t.set("dependencies", list());
				if(has & 2) t.set("pkgconfig_libs", KeyValueStore::Array{}.append("lib x").append("./y"));
				auto ti = SourceTreeLoader::getTarget(ctxt, t.reference());
				auto v = ti.useDeps();
				bool ok = v.size() == (has & 1 ? 3 : 0) + (has & 2 ? 2 : 0) && (!(has & 1) || same(v, O::System));
				if(ok && has & 2) ok = v[v.size() - 2].name().native() == "lib x" && v.back().name().native() == "./y" && v.back().expectedOrigin() == O::PkgConfig;
				vh::expect(ok, "dependencies of a target in its tags");
				KeyValueStore::Compound tags;
				if(has & 1) tags.set("target", KeyValueStore::Compound{}.set("name", ref));
				if(has & 2) tags.set("targets", KeyValueStore::Array{}.append(KeyValueStore::Compound{}.set("name", "q")).append(KeyValueStore::Compound{}.set("name", ref)));
				auto ts = SourceTreeLoader::getTargets(ctxt, tags);
				ok = ts.size() == (has & 1 ? 1 : 0) + (has & 2 ? 2 : 0);
				if(ok && has & 1) ok = ts[0].name() == got;
				if(ok && has & 2) ok = ts.back().name() == got && ts[ts.size() - 2].name() == SourceTreeLoader::makeTargetName(ctxt, "q");
				vh::expect(ok, "targets in the tags of a file");
				KeyValueStore::Compound use;
				if(has & 1) use.set("dependencies", list());
				if(has & 2) use.set("dependencies_extra", list());
				auto a = SourceTreeLoader::getUseDeps(ctxt, use), b = SourceTreeLoader::getChildTargetUseDeps(ctxt, use);
				vh::expect(a.size() == (has & 1 ? 3 : 0) && b.size() == (has & 2 ? 3 : 0) && (!(has & 1) || same(a, O::Generated)) && (!(has & 2) || same(b, O::Generated)), "dependencies in the tags of a file");
			}
		}
	}
	return vh::done();
}
