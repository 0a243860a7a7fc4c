// C18: the longest matching file name extension
#include "vh.hpp"
#include "core/utils/fs.hpp"
#include <map>
using namespace Maike;
static std::string full(std::string f)
{
	auto s = f.rfind('/');
	if(s != std::string::npos) f = f.substr(s + 1);
	std::string r;
	while(f != "." && f != "..")
	{
		auto d = f.rfind('.');
		if(d == std::string::npos || d == 0) break;
		r = f.substr(d) + r;
		f = f.substr(0, d);
	}
	return r;
}
static void check(std::string const& name, std::map<std::string, int, std::less<>> const& dict, std::string const& dtext)
{
	vh::begin("file " + vh::show(name) + ", configured " + dtext, name.find('.') != std::string::npos);
	auto e = full(name);
	auto g = getFullExtension(fs::path{name});
	if(!vh::expect(g == e, "full extension is " + vh::show(g) + ", expected " + vh::show(e))) return;
	auto want = dict.end();
	for(size_t i = 0; i < e.size() && want == dict.end(); ++i) if(e[i] == '.') want = dict.find(e.substr(i));
	auto got = matchLongestExtension(fs::path{name}, dict);
	vh::expect(got == want, "chosen " + (got == dict.end() ? "none" : vh::show(got->first)) + ", expected " + (want == dict.end() ? "none" : vh::show(want->first)));
}
int main()
{
	vh::init("all file names of up to 6 (thorough: 7) of the characters . a b / against 6 dictionaries, random names and dictionaries; non-trivial: the name has a dot");
	std::vector<std::map<std::string, int, std::less<>>> dicts{
		{}, {{".a", 1}}, {{".a", 1}, {".b", 2}, {".a.b", 3}, {".b.a", 4}}, {{"", 1}, {".", 2}, {"..a", 3}, {"a", 4}}, {{".ab", 1}, {".b", 2}, {".a.a.a", 3}, {"b.a", 5}}, {{"..", 1}, {".a", 2}, {".a.", 3}, {".b..a", 4}}};
	std::vector<std::string> dt;
	for(auto const& d : dicts) { std::string t; for(auto const& x : d) t += vh::show(x.first) + " "; dt.push_back(t); }
	char const al[] = {'.', 'a', 'b', '/'};
	for(size_t n = 0; n <= (vh::thorough ? 8u : 6u); ++n)
	{
		std::vector<size_t> ix(n, 0);
		while(true)
		{
			std::string s;
			for(auto k : ix) s += al[k];
			for(size_t d = 0; d < dicts.size(); ++d) check(s, dicts[d], dt[d]);
			size_t p = 0;
			while(p < n && ++ix[p] == 4) ix[p++] = 0;
			if(p == n) break;
		}
	}
	for(int i = 0; i < (vh::thorough ? 1000000 : 60000) && vh::more(); ++i)
	{
		std::map<std::string, int, std::less<>> d;
		std::string t;
		auto ext = [] { static char const* e[] = {"cpp", "hpp", "gen", "test", "a", "", "o", "maikerule", "x y", "\xc3\xa5"}; return "." + std::string{e[vh::below(10)]}; };
		std::string name = vh::coin(1, 8) ? "" : vh::coin(1, 4) ? "dir.cpp/f" : "file";
		for(size_t k = 0, n = vh::below(5); k < n; ++k) name += ext();
		for(size_t k = 0, n = vh::below(6); k < n; ++k) { std::string x; for(size_t j = 0, m = 1 + vh::below(3); j < m; ++j) x += ext(); d[x] = int(k); }
		for(auto const& x : d) t += vh::show(x.first) + " ";
		check(name, d, t);
	}
	return vh::done();
}
