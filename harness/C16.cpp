// C16: a target is defined by exactly one source file
#include "vh.hpp"
#include "core/db/source_file_list.hpp"
#include <map>
using namespace Maike;
// names written out by components, so that the normal form is known without asking the library
static std::string spell(std::vector<std::string> const& c)
{
	std::string r;
	if(vh::coin(1, 6)) r += "./";
	for(size_t i = 0; i < c.size(); ++i)
	{
		if(i) r += vh::coin(1, 6) ? "//" : "/";
		if(vh::coin(1, 8)) r += "./";
		if(vh::coin(1, 8)) r += "zz/../";
		r += c[i];
	}
	return r;
}
static std::string join(std::vector<std::string> const& c)
{
	std::string r;
	for(size_t i = 0; i < c.size(); ++i) r += (i ? "/" : "") + c[i];
	return r;
}
int main()
{
	vh::init("random source lists of up to 6 files with up to 4 targets each, names drawn from a small set and spelled in different ways; non-trivial: at least two targets");
	for(int i = 0; i < (vh::thorough ? 1000000 : 60000) && vh::more(); ++i)
	{
		Db::SourceFileList list;
		static Db::Compiler const dflt{fs::path{"recipe"}, false};
		std::string text;
		size_t total = 0;
		auto names = [&](size_t range) { std::vector<std::string> c; for(size_t k = 0, n = 1 + vh::below(2); k < n; ++k) c.push_back(std::string(1, char('a' + vh::below(range)))); if(vh::coin(1, 3)) c.back() += ".o"; return c; };
		size_t range = 2 + vh::below(12);
		std::map<std::string, std::vector<std::string>> spec;
		for(size_t f = 0, n = vh::below(7); f < n; ++f)
		{
			auto src = "s/" + join(names(5));
			if(spec.count(src)) continue;
			auto& ts = spec[src];
			std::vector<Db::TargetInfo> tv;
			text += src + ":";
			for(size_t t = 0, m = vh::below(5); t < m; ++t)
			{
				std::string norm, sp;
				if(vh::coin(1, 6)) { norm = sp = src; }                       // the file is its own target
				else
				{
					auto c = names(range);
					if(vh::coin(1, 3)) c.insert(c.begin(), "s");
					norm = join(c);
					if(norm == src) continue;
					sp = spell(c);
				}
				ts.push_back(norm);
				text += " " + sp;
				tv.push_back(Db::TargetInfo{fs::path{sp}, std::vector<Db::Dependency>{}});
				++total;
			}
			text += "; ";
			list.insert(std::make_pair(fs::path{src}, Db::SourceFileInfo{std::move(tv), std::cref(dflt), Db::Compiler{}, Db::SourceFileOrigin::Project, Db::RebuildPolicy::OnlyIfOutOfDate}));
		}
		vh::begin(text, total > 1);
		std::map<std::string, std::string> want;
		bool dup = false;
		for(auto const& [src, ts] : spec) for(auto const& t : ts) if(t != src && !want.insert({t, src}).second) dup = true;
		try
		{
			auto got = Db::collectTargets(list);
			vh::expect(!dup, "no error though a target is defined twice");
			std::string g, w;
			for(auto const& x : got) g += x.first.string() + "<-" + x.second.sourceFilename().string() + " ";
			std::map<std::string, std::string> tmp;
			for(auto const& x : got) tmp[x.first.string()] = x.second.sourceFilename().string();
			if(!dup) vh::expect(tmp == want && got.size() == want.size(), "targets " + g);
		}
		catch(std::exception const& e) { vh::expect(dup, std::string{"error though every target is defined once: "} + e.what()); }
		// one file after the other
		Db::TargetList out;
		bool threw = false;
		try { for(auto const& x : list) Db::collectTargets(x, out); } catch(std::exception const&) { threw = true; }
		vh::expect(threw == dup, "collecting file by file");
	}
	return vh::done();
}
