// What the C++ text of a source file means for C06 and C07: a direct scanner, written from the property text.
#pragma once
#include "vh.hpp"
#include <optional>
namespace lex
{
	struct Dep { std::string path; bool system; };
	struct Line { bool tag = false; size_t col = 0; std::string text; };   // col: column of the first byte after //@
	struct Result { std::vector<Dep> deps; std::vector<Line> lines; bool odd = false; };   // odd: a header name contains an opener
	inline bool blank(char c) { return static_cast<unsigned char>(c) <= 32; }
	inline bool ident(char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_' || static_cast<unsigned char>(c) >= 128; }

	// nothing: the text is outside the domain of the properties
	inline std::optional<Result> scan(std::string const& s)
	{
		Result r;
		r.lines.emplace_back();
		size_t i = 0, bol = 0;
		auto at = [&](size_t k, char const* t) { return s.compare(k, strlen(t), t) == 0; };
		auto newline = [&]() { r.lines.emplace_back(); bol = i; };
		auto cont = [&](size_t k) { return s[k] == '\\' && k + 1 < s.size() && s[k + 1] == '\n'; };
		bool start = true;
		while(i < s.size())
		{
			char c = s[i];
			if(c == '\n') { ++i; newline(); start = true; continue; }
			if(cont(i)) return {};
			if(start && blank(c)) { ++i; continue; }
			bool first = start;
			start = false;
			if(at(i, "//"))
			{
				bool tag = first && i + 2 < s.size() && s[i + 2] == '@';
				if(tag) { r.lines.back().tag = true; r.lines.back().col = i + 3 - bol; i += 3; }
				while(i < s.size() && s[i] != '\n') { if(cont(i)) return {}; if(tag) r.lines.back().text += s[i]; ++i; }
				continue;
			}
			if(at(i, "/*"))
			{
				i += 2;
				while(i < s.size() && !at(i, "*/")) { if(cont(i)) return {}; if(s[i++] == '\n') newline(); }
				i = std::min(i + 2, s.size());
				continue;
			}
			if(first && c == '#')
			{
				++i;
				while(i < s.size() && blank(s[i]) && s[i] != '\n') ++i;
				auto b = i;
				if(i < s.size() && s[i] != '\n' && !ident(s[i])) return {};   // null directive with something behind it
				while(i < s.size() && ident(s[i])) ++i;
				auto name = s.substr(b, i - b);
				if(i < s.size() && s[i] == '"' && !name.empty() && name.back() == 'R') return {};
				if(i < s.size() && !blank(s[i]) && s[i] != '"' && s[i] != '<' && s[i] != '/') return {};
				if(name == "include" && i < s.size() && s[i] == '/') return {};   // comment between the name and the path
				while(i < s.size() && blank(s[i]) && s[i] != '\n') ++i;
				if(at(i, "R\"")) return {};
				if(name == "include" && i < s.size() && s[i] == '/') return {};
				if(name == "include" && i < s.size() && (s[i] == '"' || s[i] == '<'))
				{
					char e = s[i] == '"' ? '"' : '>';
					auto p = s.find_first_of(std::string{"\n"} + e, i + 1);
					if(p == std::string::npos) return {};      // unterminated
					for(auto k = i; k < p; ++k) if(at(k, "//") || at(k, "/*") || at(k, "R\"")) r.odd = true;
					if(s[p] == '\n') { i = p; continue; }      // not a directive
					for(auto k = i; k < p; ++k) if(s[k] == 0 || cont(k)) return {};
					r.deps.push_back({s.substr(i + 1, p - i - 1), e == '>'});
					i = p + 1;
				}
				continue;
			}
			if(at(i, "R\""))
			{
				if(i > 0 && s[i - 1] == '/') return {};
				auto b = i;
				while(b > 0 && ident(s[b - 1])) --b;
				auto pre = s.substr(b, i - b);
				if(!(pre.empty() || pre == "u8" || pre == "u" || pre == "U" || pre == "L")) return {};
				if(i > 0 && s[i - 1] == '\'') return {};
				i += 2;
				std::string tag;
				while(i < s.size() && s[i] != '(')
				{
					if(blank(s[i]) || s[i] == ')' || s[i] == '\\' || s[i] == '"' || tag.size() >= 16) return {};
					tag += s[i++];
				}
				if(i == s.size()) return {};
				++i;
				auto end = ")" + tag + "\"";
				while(i < s.size() && !at(i, end.c_str())) { if(s[i++] == '\n') newline(); }
				if(tag.find('\0') != std::string::npos) return {};
				i = std::min(i + end.size(), s.size());
				continue;
			}
			if(c == '"' || (c == '\'' && !(i > 0 && ident(s[i - 1]))))
			{
				auto b = ++i;
				while(i < s.size() && s[i] != c)
				{
					if(s[i] == '\n') return {};
					if(cont(i)) return {};
					if(at(i, "//") || at(i, "/*") || at(i, "R\"")) return {};
					if(s[i] == '\\') { ++i; if(i == s.size()) return {}; if(at(i, "//") || at(i, "/*") || at(i, "R\"")) return {}; }
					++i;
				}
				if(i == s.size()) return {};
				if(i > b && s[i - 1] == 'R' && c == '"') return {};
				++i;
				continue;
			}
			++i;
		}
		return r;
	}
	inline std::vector<char const*> const& tokens()
	{
		static std::vector<char const*> t{"\n", " ", "#include", "\"a\"", "<b>", "//", "/*", "*/", "R\"(", ")\"", "R\"x(", ")x\"", "//@", "x", "/", "*", "#", "\"", ")", "R", "\t", "@", "#@", "\n\n"};
		return t;
	}
	// a text made of lines that are mostly meaningful
	inline std::string text(size_t maxlines)
	{
		static std::vector<char const*> frag{
			"#include \"a.hpp\"", "#include <vector>", "#  include \"x/y.gen.hpp\"", "#include\"k\"", "#include<k>", "#include \"un", "#include <un", "#include MACRO", "#else", "#endif", "#error \"m\"", "#define X 1",
			"# ", "#", "#includes \"q\"", "#include_next <n>", "#import \"i\"", "int main(){}", "f(\"lit\");", "'x'", "1'000", "// c", "/* c */", "/**/", "/***/", "/* * / **/", "/*", "*/", "**/", " *", "//@ tag {\"a\":1}", "//@", "  //@\tt", "//x@", "// @", "/@", "/",
			"R\"(", ")\"", "R\"x(", ")x\"", ")x)x\"", ")y\"", ")\" )x\"", "u8R\"(a)\"", "x = R\"y(#include \"no\")y\";", "R", "R x", "Rr", "a / b", "a /b/ c", "//R\"(", "// /*", "/* // */", "/* R\"( */", "R\"(/*)\"", "R\"(//)\"", "R\"()a)\"",
			"#include \"a\" // c", "#include \"a\" /* c", "#include \"a//b\"", "#include <a/*b>", "#pragma once // c", "#pragma once /* c", "#if/* c", "#if/* c */1", "#else//x", "\"/\"", "@", "#@ t", "'\"'", "\\", "<z>", "\"q\"", ");", "\x80\xff", "#inc\x80lude \"n\"" };
		std::string r;
		size_t n = 1 + vh::below(maxlines);
		for(size_t l = 0; l < n; ++l)
		{
			static char const* ind[] = {"", "", "", " ", "\t", "  \t", "\r", "\x01"};
			r += ind[vh::below(8)];
			for(size_t k = 0, m = vh::coin(1, 8) ? 0 : 1 + vh::below(vh::coin(1, 3) ? 3 : 1); k < m; ++k)
			{
				if(k && vh::coin()) r += ' ';
				r += frag[vh::below(frag.size())];
			}
			if(vh::coin(1, 10)) r += vh::coin() ? ' ' : char(vh::below(256));
			if(l + 1 < n || vh::coin(3, 4)) r += '\n';
		}
		return r;
	}
	// every byte at every place of texts that put the scanners in each of their states
	template<class F>
	void special(F&& fn)
	{
		static char const* const texts[] = {
		   "#include \"ab\"\n#include <cd>\n//@ e f\n#@ g h\n",
		   " #\tinclude  \"a/b\" x\n# include <c/d> y\n//@e\n #@g\n",
		   "/* a */ #include \"b\"\n#include \"c\"\n/**/\n//@ d\n",
		   "/* a\n#include \"b\"\n//@ c\n*/\n#include <d>\n//@ e\n",
		   "// a #include \"b\"\n#include <c>\n//@ d //@ e\n//f\n",
		   "R\"(a)\"\n#include \"b\"\nR\"cd(\n#include \"e\"\n)c\"\n)cd\"\n#include <f>\n//@ g\n",
		   "x = R\"a(b)a\"; // c\n#include \"d\"\n x //@ e\n//@ f\n",
		   "#define a \"b\"\n#pragma c <d>\n#includ \"e\"\n#include\n#include f\n#\n#include \"g\"\n",
		   "#include/*a*/<b>\n#include <c\n#include \"d\n#include \"e\"\n#include <f>\n",
		   "a\"b\"'c'd/e\n#include \"f\"\n/ g\n//@ h\n",
		   "u8R\"**(/* )\")**\" //\n#include \"a\"\n*/\n//@ b\n",
		};
		for(int b = 0; b < 256; ++b)
			for(std::string s : texts)
				for(size_t i = 0; i <= s.size(); ++i)
				{
					fn(s.substr(0, i) + char(b) + s.substr(i));
					if(vh::thorough && i < s.size()) fn(s.substr(0, i) + char(b) + s.substr(i + 1));
				}
		// the same byte in several places, as in the tag at both ends of a raw string
		static char const* const pairs[] = {
		   "R\"{}({})\"\n#include \"a\"\n){}\"\n#include \"b\"\n//@ c\n", "R\"{}(){}\"\n#include \"a{}b\"\n#include <{}>\n//@ {}{}\n#@ {}{}\n",
		   "R\"a{}b()ab\"\n#include \"c\"\n)a{}b\"\n#include \"d\"\n", "R\"ab()a{}b\"\n#include \"c\"\n)ab\"\n#include \"d\"\n",
		   "R\"a(){})a\"\n#include \"c\"\n//@ d\n", "R\"a(){}a\"\n#include \"c\"\n)a\"\n#include \"d\"\n", "/*{}*{}*/\n#include \"a\"\n//@ b\n", "/*{}*{}\n#include \"a\"\n//@ b\n*/",
		   "{}{}#{}{}include{}{}\"a\"{}{}\n{}{}//{}{}@\n{}{}//@{}{}\n#include \"b\"\n", "#include <{}{}a{}/{}b>{}{}\n#include \"{}{}a{}/{}b\"{}{}\n",
		   "//{}#include \"a\"\n//{}{}\n#include \"b\"\n", "{}#include \"a\"\n{}//@ b\n{}#@ c\n", "{}{}x #include \"a\"\n{}{}x //@ b\n{}{}x #@ c\n", "#include{}{}<a>\n#include{}{}x\"a\"\n#{}\n#{}include <b>\n",
		};
		for(int b = 0; b < 256; ++b)
			for(std::string s : pairs)
			{
				std::string r, q;
				for(size_t i = 0; i < s.size(); ++i)
				{
					if(s.compare(i, 2, "{}") == 0) { r += char(b); q += std::string(3, char(b)); ++i; }
					else { r += s[i]; q += s[i]; }
				}
				fn(r);
				fn(q);
				fn("\n" + r + "\n#include \"z\"\n//@ z");
			}
	}

	// fn(text): exhaustive short token sequences, then random texts
	template<class F>
	void all(F&& fn)
	{
		if(auto w = getenv("VH_WITNESS"))      // texts of the verifier, one per line, in hexadecimal
		{
			auto f = fopen(w, "r");
			int c, d = 0, n = 0;
			std::string s;
			while((c = fgetc(f)) != EOF)
			{
				if(c == '\n') { fn(s); fn(s + "\n#include \"z\"\n//@ z"); s.clear(); continue; }
				d = d * 16 + (c <= '9' ? c - '0' : c - 'a' + 10);
				if(++n % 2 == 0) { s += static_cast<char>(d); d = 0; }
			}
			fclose(f);
			return;
		}
		special(fn);
		auto const& t = tokens();
		size_t N = vh::thorough ? 5 : 4;
		std::vector<size_t> ix;
		for(size_t n = 0; n <= N && vh::elapsed() < vh::budget; ++n)
		{
			ix.assign(n, 0);
			while(true)
			{
				std::string s;
				for(auto k : ix) s += t[k];
				fn(s);
				fn(s + "\n#include \"z\"\n//@ z");
				size_t p = 0;
				while(p < n && ++ix[p] == t.size()) ix[p++] = 0;
				if(p == n) break;
				if((vh::evals & 1023) == 0 && vh::elapsed() > vh::budget * 3) break;
			}
		}
		for(size_t i = 0; i < (vh::thorough ? 3000000 : 150000) && vh::elapsed() < vh::budget * 2; ++i) fn(text(i % 10 < 7 ? 4 : 12));
		// across the boundary of the input buffer
		for(size_t i = 0; i < (vh::thorough ? 20000 : 1500) && vh::elapsed() < vh::budget * 3; ++i)
		{
			auto pad = vh::coin() ? std::string(4096 - vh::below(40), ' ') : "/*" + std::string(4096 - vh::below(40), '*') + "/\n";
			if(vh::coin(1, 4)) pad = std::string(4090 - vh::below(10), '\n') + "//@ " + std::string(4096 + vh::below(10), 'q') + "\n";
			fn(pad + text(6));
		}
	}
}
