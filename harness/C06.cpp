// C06: C++ dependencies are exactly the include directives
#include "lex.hpp"
#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"
#include <regex>
using namespace Maike;
struct Src { std::string const* s; size_t pos; size_t chunk; };
size_t read(Src& s, std::byte* b, size_t n)
{
	n = std::min(std::min(n, s.chunk), s.s->size() - s.pos);
	memcpy(b, s.s->data() + s.pos, n);
	s.pos += n;
	return n;
}
static std::string show(Db::Dependency const& d)
{
	auto o = d.expectedOrigin();
	return vh::show(d.name().string()) + (o == Db::SourceFileOrigin::System ? " system" : o == Db::SourceFileOrigin::Project ? " project" : o == Db::SourceFileOrigin::Generated ? " generated" : " other");
}
int main()
{
	vh::init("every byte at every place of texts that visit each state; all sequences of up to 4 (thorough: 5) of 24 tokens, each also followed by an include line; random texts of up to 12 lines; texts across the input buffer boundary; texts outside the domain are skipped; non-trivial: texts with an include directive in the reference scan");
	std::vector<std::vector<std::string>> cfgs{{}, {".*\\.gen\\.hpp$"}, {"^x/", "k$"}, {"nothing", "a"}};
	std::vector<Cxx::SourceFileLoader> ls;
	std::vector<std::vector<std::regex>> rx;
	for(auto const& c : cfgs)
	{
		ls.emplace_back(std::vector<std::string>{c});
		rx.emplace_back();
		for(auto const& p : c) rx.back().emplace_back(p, std::regex_constants::basic);
	}
	ls.push_back(Cxx::SourceFileLoader{});
	rx.push_back(rx[1]);
	size_t k = 0;
	lex::all([&](std::string const& s) {
		auto want = lex::scan(s);
		if(!want) return;
		auto c = k++ % ls.size();
		vh::begin("text " + vh::show(s.size() < 3000 ? s : s.substr(s.size() - 400)) + " (" + std::to_string(s.size()) + " bytes), pattern set " + std::to_string(c), !want->deps.empty());
		Src src{&s, 0, k % 5 == 0 ? 3u : 100000u};
		auto got = ls[c].getDependencies(Io::Reader{src});
		std::string g, w;
		for(auto const& d : got) g += show(d) + ", ";
		for(auto const& d : want->deps)
		{
			bool gen = false;
			for(auto const& r : rx[c]) gen = gen || std::regex_search(d.path, r);
			w += vh::show(d.path) + (d.system ? " system" : gen ? " generated" : " project") + ", ";
		}
		vh::expect(g == w, "dependencies [" + g + "] expected [" + w + "]");
	});
	return vh::done();
}
