// C07: build tags are exactly the tagged lines
#include "lex.hpp"
#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"
#include "core/source_file_info_loaders/extension/source_file_loader.hpp"
using namespace Maike;
struct Src { std::string const* s; size_t pos; size_t chunk; };
size_t read(Src& s, std::byte* b, size_t n)
{
	n = std::min(std::min(n, s.chunk), s.s->size() - s.pos);
	memcpy(b, s.s->data() + s.pos, n);
	s.pos += n;
	return n;
}
struct Sink { std::string out; };
void write(Sink& s, std::byte const* b, size_t n) { s.out.append(reinterpret_cast<char const*>(b), n); }

static std::vector<std::string> split(std::string const& s)
{
	std::vector<std::string> r{""};
	for(char c : s) { if(c == '\n') r.emplace_back(); else r.back() += c; }
	return r;
}
static void compare(std::string const& s, std::string const& src, std::string const& tags, std::vector<lex::Line> const& want)
{
	if(!vh::expect(src == s, "the source stream is not a copy: " + vh::show(src.substr(0, 2000)))) return;
	auto l = split(tags);
	if(!vh::expect(l.size() == want.size(), "the tag stream has " + std::to_string(l.size() - 1) + " newlines, the input " + std::to_string(want.size() - 1) + ": " + vh::show(tags.substr(0, 2000)))) return;
	for(size_t i = 0; i < l.size(); ++i)
	{
		bool ok;
		if(want[i].tag)
		{
			ok = l[i].size() == want[i].col + want[i].text.size() && l[i].compare(want[i].col, std::string::npos, want[i].text) == 0;
			for(size_t k = 0; ok && k < want[i].col; ++k) ok = lex::blank(l[i][k]);
		}
		else
		{
			ok = true;
			for(char c : l[i]) ok = ok && lex::blank(c);
		}
		if(!vh::expect(ok, "line " + std::to_string(i + 1) + " of the tag stream is " + vh::show(l[i].substr(0, 500)) + (want[i].tag ? ", expected " + vh::show(want[i].text.substr(0, 500)) + " at column " + std::to_string(want[i].col) : ", expected blanks"))) return;
	}
}
static std::vector<lex::Line> script(std::string const& s)
{
	std::vector<lex::Line> r;
	for(auto const& l : split(s))
	{
		r.emplace_back();
		size_t i = 0;
		while(i < l.size() && lex::blank(l[i])) ++i;
		if(l.compare(i, 2, "#@") == 0) { r.back().tag = true; r.back().col = i + 2; r.back().text = l.substr(i + 2); }
	}
	return r;
}
int main()
{
	vh::init("every byte at every place of texts that visit each state; all sequences of up to 4 (thorough: 5) of 24 tokens, random texts of up to 12 lines, texts across the buffer boundary, for the C++ loader (texts of the domain) and the script loader (all); non-trivial: texts with a tagged line");
	Cxx::SourceFileLoader cxx;
	Extension::SourceFileLoader ext;
	size_t k = 0;
	auto has = [](std::vector<lex::Line> const& l) { for(auto const& x : l) if(x.tag) return true; return false; };
	lex::all([&](std::string const& s) {
		++k;
		auto shown = vh::show(s.size() < 3000 ? s : s.substr(s.size() - 400)) + " (" + std::to_string(s.size()) + " bytes)";
		if(auto want = lex::scan(s); want && !want->odd)
		{
			vh::begin("C++ text " + shown, has(want->lines));
			Src src{&s, 0, k % 5 == 0 ? 3u : 100000u};
			Sink a, b;
			cxx.filterInput(Io::Reader{src}, SourceFileInfoLoaders::SourceOutStream{a}, SourceFileInfoLoaders::TagsOutStream{b});
			compare(s, a.out, b.out, want->lines);
		}
		auto want = script(s);
		vh::begin("script text " + shown, has(want));
		Src src{&s, 0, k % 5 == 0 ? 3u : 100000u};
		Sink a, b;
		ext.filterInput(Io::Reader{src}, SourceFileInfoLoaders::SourceOutStream{a}, SourceFileInfoLoaders::TagsOutStream{b});
		compare(s, a.out, b.out, want);
	});
	return vh::done();
}
