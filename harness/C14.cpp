// C14: the text form of a command, evaluated by a POSIX shell
#include "vh.hpp"
#include "core/exec/command.hpp"
#include <optional>
using namespace Maike;
// words of a command line made of single quotes, backslash escapes and plain characters; nothing: leave it to the shell
static std::optional<std::vector<std::string>> words(std::string const& s)
{
	std::vector<std::string> r;
	bool in = false;
	for(size_t i = 0; i < s.size(); ++i)
	{
		char c = s[i];
		if(c == ' ') { in = false; continue; }
		if(!in) { r.emplace_back(); in = true; }
		if(c == '\'')
		{
			auto e = s.find('\'', i + 1);
			if(e == std::string::npos) return {};
			r.back() += s.substr(i + 1, e - i - 1);
			i = e;
		}
		else if(c == '\\' && i + 1 < s.size() && s[i + 1] != '\n') r.back() += s[++i];
		else if(isalnum(static_cast<unsigned char>(c)) || strchr("/._-+,:=@%", c)) { if(c == '=' ) return {}; r.back() += c; }
		else return {};
	}
	return r;
}
static std::optional<std::vector<std::string>> by_shell(std::string const& s)
{
	auto f = vh::dir + "/cmd.sh", o = vh::dir + "/out";
	auto h = fopen(f.c_str(), "w");
	auto script = "set -f\nset -- " + s + "\nprintf '%s\\000' \"$@\"\n";
	fwrite(script.data(), 1, script.size(), h);
	fclose(h);
	if(system(("cd /nonexistent 2>/dev/null; LC_ALL=C timeout 10 sh " + f + " > " + o + " 2>/dev/null").c_str())) return {};
	std::string d;
	h = fopen(o.c_str(), "r");
	int c;
	while((c = fgetc(h)) != EOF) d += char(c);
	fclose(h);
	std::vector<std::string> r;
	std::string w;
	for(char x : d) { if(x) w += x; else { r.push_back(w); w.clear(); } }
	return r;
}
static int by_sh = 0;
static void check(std::vector<std::string> const& v, bool sh)
{
	std::string t;
	for(auto const& x : v) t += vh::show(x) + " ";
	vh::begin("command " + t);
	Exec::Command cmd{fs::path{v[0]}, std::vector<std::string>(v.begin() + 1, v.end())};
	auto s = toString(cmd);
	auto w = words(s);
	if(!w || sh)
	{
		if(!sh && ++by_sh > 2000) return;
		auto b = by_shell(s);
		if(!vh::expect(b.has_value(), "the shell does not accept " + vh::show(s))) return;
		w = b;
	}
	vh::expect(*w == v, "written as " + vh::show(s));
}
static std::string word(char const* alphabet)
{
	std::string r;
	for(size_t i = 0, n = vh::below(vh::coin(1, 6) ? 40 : 7); i < n; ++i)
		r += alphabet && vh::coin(3, 4) ? alphabet[vh::below(strlen(alphabet))] : char(1 + vh::below(255));
	return r;
}
int main()
{
	vh::init("every byte alone, in pairs with quotes and backslashes, random words over quotes, blanks and shell specials, through a tokenizer, a sample of them through /bin/sh; non-trivial: all");
	char const* special = "'\"\\ \t\n$`*?[]{}()<>|&;#~!=%a";
	for(int c = 1; c < 256; ++c)
	{
		std::string x(1, char(c));
		check({x, x}, c % 3 == 0 || ispunct(c));
		check({"e", "'" + x, x + "'", "\\" + x, x + "\\", "'" + x + "'", x + x}, c % 5 == 0 || ispunct(c));
	}
	check({"", ""}, true);
	check({"a", "", "b", ""}, true);
	for(int i = 0; i < (vh::thorough ? 2000000 : 100000) && vh::more(); ++i)
	{
		std::vector<std::string> v;
		for(size_t k = 0, n = 1 + vh::below(5); k < n; ++k) v.push_back(word(special));
		check(v, i % (vh::thorough ? 400 : 200) == 0);
	}
	return vh::done();
}
