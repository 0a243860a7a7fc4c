// C15: JSON input reaches the parser complete, and broken input is an error
#include "vh.hpp"
#include "core/key_value_store/compound.hpp"
#include "core/key_value_store/array.hpp"
#include "core/db/compiler.hpp"
#include <sys/stat.h>
using namespace Maike;
struct Src { std::string const* s; size_t pos, chunk; bool err; size_t max_pos = 0; };
size_t read(Src& s, std::byte* b, size_t n)
{
	auto left = s.s->size() - s.pos;
	if(left == 0) return s.err ? size_t(-1) : 0;
	n = std::min(std::min(n, s.chunk), left);
	memcpy(b, s.s->data() + s.pos, n);
	s.pos += n;
	return n;
}
static std::string dump(json_t const* j)
{
	auto p = json_dumps(j, JSON_SORT_KEYS | JSON_ENCODE_ANY | JSON_COMPACT);
	std::string r{p ? p : "?"};
	free(p);
	return r;
}
static bool blank(std::string const& s) { for(unsigned char c : s) if(c > 32) return false; return true; }
static std::string expected(std::string const& s)
{
	json_error_t e;
	if(blank(s)) return "empty";
	auto j = json_loadb(s.data(), s.size(), JSON_DISABLE_EOF_CHECK | JSON_DECODE_ANY | JSON_REJECT_DUPLICATES, &e);
	if(!j) return "error";
	auto r = dump(j);
	json_decref(j);
	return r;
}
static void check(std::string const& s, size_t chunk, bool err)
{
	vh::begin("stream " + (s.size() < 600 ? vh::show(s) : vh::show(s.substr(0, 60)) + "... " + std::to_string(s.size()) + " bytes") + " in chunks of " + std::to_string(chunk) + (err ? ", then error" : ""), !blank(s));
	auto want = expected(s);
	std::string got;
	Src src{&s, 0, chunk, err};
	try
	{
		auto h = KeyValueStore::jsonLoad(Io::Reader{src}, "x");
		got = h.valid() ? dump(h.handle()) : "empty";
	}
	catch(std::exception const&) { got = "error"; }
	if(chunk == 1 && (want[0] == '{' || want[0] == '['))
	{
		json_error_t e;
		json_decref(json_loadb(s.data(), s.size(), JSON_DISABLE_EOF_CHECK | JSON_DECODE_ANY | JSON_REJECT_DUPLICATES, &e));
		if(!vh::expect(src.pos <= size_t(e.position), std::to_string(src.pos) + " bytes were taken from the stream, the document ends after " + std::to_string(e.position))) return;
	}
	if(!vh::expect(got == want, "loaded as " + got.substr(0, 300) + ", expected " + want.substr(0, 300))) return;
	Src src2{&s, 0, chunk, err};
	try
	{
		KeyValueStore::Compound c{Io::Reader{src2}, "x"};
		got = dump(c.handleReference().handle());
	}
	catch(std::exception const&) { got = "error"; }
	if(want == "empty") want = "{}";
	else if(want[0] != '{') want = "error";
	vh::expect(got == want, "configuration loaded as " + got.substr(0, 300) + ", expected " + want.substr(0, 300));
}
static std::string value(int depth)
{
	auto sp = [] { return std::string(vh::coin(1, 3) ? vh::below(3) : 0, " \n\t"[vh::below(3)]); };
	switch(vh::below(depth > 0 ? 8 : 6))
	{
		case 0: return "\"" + std::string(vh::below(vh::coin(1, 10) ? 2000 : 6), vh::coin() ? '}' : 'x') + "\"";
		case 1: return std::to_string(vh::below(100000));
		case 2: return "true";
		case 3: return "-1.5e3";
		case 4: return "null";
		case 5: return "\"a ] } b\"";
		case 6:
		{
			std::string r = "[" + sp();
			for(size_t i = 0, n = vh::below(4); i < n; ++i) r += (i ? "," + sp() : "") + value(depth - 1) + sp();
			return r + "]";
		}
		default:
		{
			std::string r = "{" + sp();
			for(size_t i = 0, n = vh::below(4); i < n; ++i) r += (i ? "," + sp() : "") + "\"k" + std::to_string(i) + (vh::coin(1, 20) ? "0" : "") + "\"" + sp() + ":" + sp() + value(depth - 1) + sp();
			return r + "}";
		}
	}
}
static void recipe(size_t n, int kind)
{
	auto body = kind == 0 ? "{\"a\":\"" + std::string(n, 'q') + "\",\"z\":[1,2]}" : kind == 1 ? "{\"a\":\"" + std::string(n, 'q') + "\"" : std::string(n, ' ');
	vh::begin("recipe that prints " + std::string(kind == 0 ? "a document" : kind == 1 ? "a truncated document" : "blanks") + " of " + std::to_string(body.size()) + " bytes");
	auto f = vh::dir + "/recipe.sh", d = vh::dir + "/data";
	auto h = fopen(d.c_str(), "w");
	fwrite(body.data(), 1, body.size(), h);
	fclose(h);
	h = fopen(f.c_str(), "w");
	fputs(("#!/bin/sh\ncat " + d + "\n").c_str(), h);
	fclose(h);
	chmod(f.c_str(), 0755);
	struct Resolver { std::string f; std::pair<fs::path, Db::SourceFileOrigin> get(fs::path const&) const { return {f, Db::SourceFileOrigin::Project}; } };
	auto want = expected(body);
	for(int how = 0; how < 2; ++how)
	{
		std::string got;
		try
		{
			Db::Compiler c{fs::path{f}, KeyValueStore::Compound{}.set("old", 1), false};
			if(how == 0) { c.resolveRecipe(Resolver{f}); got = dump(c.config().handleReference().handle()); }
			else { auto t = getTags(c, fs::path{"src"}); got = dump(t.handleReference().handle()); }
		}
		catch(std::exception const&) { got = "error"; }
		auto w = want == "empty" ? (how == 0 && body.empty() ? "{\"old\":1}" : "{}") : want;
		if(!vh::expect(got == w, std::string{how ? "tags" : "configuration"} + " read as " + got.substr(0, 200) + ", expected " + w.substr(0, 200))) return;
	}
}
int main()
{
	vh::init("all prefixes of a set of documents, all strings of up to 5 JSON tokens, random documents with trailing text and truncations, in chunks of 1 byte to everything, sizes around the 4096 byte buffer; recipe output of up to 200 kB; non-trivial: not only blanks");
	std::vector<std::string> docs{"{}", "[]", " {} ", "{\"a\":1}", "[1,2, 3]", "{\"a\":{\"b\":[{},{}]}, \"c\":\" } ] \"}", "\"s\"", "12", "true", "null ", "{\"a\" : 1} {\"b\":2}", "{} x", "[] ]", "}", "]", "{\"a\":1,\"a\":2}", "\x01 ", " \n\t\r", "", "\xff", " \xc3\xa9 ", "\xef\xbb\xbf", "\x80\n"};
	for(auto const& d : docs) for(size_t n = 0; n <= d.size(); ++n) for(size_t c : {1, 2, 3, 100}) check(d.substr(0, n), c, n % 2);
	std::vector<char const*> tok{"{", "}", "[", "]", "\"a\"", ":", ",", "1", " ", "\n", "t"};
	for(size_t N = 1; N <= (vh::thorough ? 6u : 5u); ++N)
	{
		std::vector<size_t> ix(N, 0);
		while(true)
		{
			std::string s;
			for(auto k : ix) s += tok[k];
			check(s, N % 2 ? 100 : 1, false);
			size_t p = 0;
			while(p < N && ++ix[p] == tok.size()) ix[p++] = 0;
			if(p == N || vh::elapsed() > vh::budget * 2) break;
		}
	}
	for(size_t n : {0, 1, 3900, 4080, 4085, 4090, 4096, 5000, 70000, 200000}) for(int k = 0; k < 3; ++k) recipe(n, k);
	for(size_t pad = 4060; pad < 4140; ++pad)
		for(auto t : {"{\"a\":1}", "[1,2]", "{\"a\":\"bcd\"", "12345", "{", "x"}) { check(std::string(pad, ' ') + t, 100000, false); check("[\"" + std::string(pad, 'q') + "\"," + t + "]", 4096, false); check("[\"" + std::string(pad, 'q') + "\"," + t, 1000, true); }
	for(int i = 0; i < (vh::thorough ? 1000000 : 40000) && vh::elapsed() < vh::budget * 3; ++i)
	{
		auto s = value(3);
		if(vh::coin(1, 3)) s = s.substr(0, vh::below(s.size() + 1));
		if(vh::coin(1, 4)) s += vh::coin() ? " trailing" : "\n{}";
		if(vh::coin(1, 5)) s = std::string(vh::below(10), ' ') + s;
		check(s, vh::coin() ? 1 + vh::below(8) : 100000, vh::coin());
	}
	return vh::done();
}
