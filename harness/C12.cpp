// C12: build id <-> text
#include "vh.hpp"
#include "core/build/id.hpp"
using namespace Maike::Build;
using Bytes = std::array<std::byte, 32>;
static int hex(unsigned char c)
{
	if(c >= '0' && c <= '9') return c - '0';
	if(c >= 'a' && c <= 'f') return c - 'a' + 10;
	if(c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
static std::string text(Bytes const& b)
{
	std::string r;
	for(auto x : b) { r += "0123456789abcdef"[int(x) >> 4]; r += "0123456789abcdef"[int(x) & 15]; }
	return r;
}
static void round(Bytes const& b)
{
	auto want = text(b);
	vh::begin("id " + want);
	auto t = toString(Id{b});
	if(!vh::expect(t == want, "text is " + vh::show(t))) return;
	bool same = false;
	try { same = Id{t.c_str()}.bytes() == b && Id{t.c_str()} == Id{b}; } catch(...) {}
	vh::expect(same, "text does not read back as the same id");
}
static void parse(std::string s)
{
	s = s.c_str();
	vh::begin("text " + vh::show(s));
	bool ok = true;
	for(size_t i = 0; i < s.size() && i < 64; ++i) ok = ok && hex(static_cast<unsigned char>(s[i])) >= 0;
	bool got = true;
	Bytes b{};
	try { b = Id{s.c_str()}.bytes(); } catch(std::exception const&) { got = false; }
	if(!vh::expect(ok == got, got ? "accepted" : "rejected")) return;
	if(ok && s.size() >= 64)
	{
		Bytes w{};
		for(size_t i = 0; i < 32; ++i) w[i] = std::byte(hex(static_cast<unsigned char>(s[2 * i])) * 16 + hex(static_cast<unsigned char>(s[2 * i + 1])));
		vh::expect(w == b, "read as " + text(b));
	}
}
int main()
{
	vh::init("ids with every byte value in every position, every character in every position of a 64 digit text, random ids and texts; non-trivial: all");
	for(int p = 0; p < 32; ++p) for(int v = 0; v < 256; ++v) for(int bg : {0, 0xff, 0x5a})
	{
		Bytes b; b.fill(std::byte(bg)); b[size_t(p)] = std::byte(v);
		round(b);
	}
	for(size_t p = 0; p < 66; ++p) for(int c = 1; c < 256; ++c)
	{
		std::string s(66, 'a'); s[p] = char(c);
		parse(s);
	}
	for(size_t n = 0; n < 64; ++n) for(int c : std::initializer_list<int>{1, '/', '0', '9', ':', '@', 'A', 'F', 'G', '`', 'a', 'f', 'g', ' ', 0x10, 0x19, 0x80, 0xff, 0xe1, 'x', 'X'}) { parse(std::string(n, '7') + char(c)); }
	for(int i = 0; i < (vh::thorough ? 2000000 : 100000); ++i)
	{
		Bytes b; for(auto& x : b) x = std::byte(vh::below(256));
		round(b);
		auto t = text(b);
		for(auto& c : t) if(vh::coin()) c = char(toupper(c));
		for(size_t k = vh::below(5); k > 0; --k) t += char(1 + vh::below(255));
		parse(t);
		auto d1 = Id{}; round(d1.bytes());
		if(i > 1000 && !vh::thorough) ++i;
	}
	return vh::done();
}
