// C08: buffered reading and writing, type-erased readers and writers, in-memory process input and output
// sources: none
#include "vh.hpp"
#include "core/io/input_buffer.hpp"
#include "core/io/output_buffer.hpp"
#include "core/io/reader.hpp"
#include "core/io/writer.hpp"
#include "core/io/mem_io_redirector.hpp"
#include <memory>
using namespace Maike;
struct Src
{
	std::string const* data;
	std::vector<size_t> const* chunks;
	bool error_at_end;
	size_t pos = 0, call = 0, max_req = 0;
};
size_t read(Src& s, std::byte* b, size_t n)
{
	auto left = s.data->size() - s.pos;
	if(left == 0) { return s.error_at_end ? static_cast<size_t>(-1) : 0; }
	auto k = (*s.chunks)[s.call++ % s.chunks->size()];
	k = std::min(std::min(std::max<size_t>(k, 1), n), left);
	memcpy(b, s.data->data() + s.pos, k);
	s.pos += k;
	return k;
}
struct SrcRef { Src* s; };
size_t read(SrcRef r, std::byte* b, size_t n) { return read(*r.s, b, n); }
struct Sink { std::string* out; };
void write(Sink& s, std::byte const* b, size_t n) { s.out->append(reinterpret_cast<char const*>(b), n); }

static std::string bytes(size_t n)
{
	std::string r(n, 0);
	for(auto& c : r) c = char(vh::coin(1, 3) ? (vh::coin() ? 0xff : 0) : vh::below(256));
	return r;
}
template<size_t Cap>
static void reading(std::string const& d, std::vector<size_t> const& ch, bool err)
{
	std::string cs;
	for(auto c : ch) cs += std::to_string(c) + " ";
	vh::begin("InputBuffer of " + std::to_string(Cap) + ", source " + (d.size() < 200 ? vh::show(d) : std::to_string(d.size()) + " bytes, seeded") + " in chunks " + cs + (err ? "then error" : "then end"));
	for(int erased = 0; erased < 2; ++erased)
	{
		Src s{&d, &ch, err};
		auto go = [&](auto& in) {
			for(size_t i = 0; i < d.size(); ++i)
			{
				int c = in.getchar();
				if(c != int(static_cast<unsigned char>(d[i]))) { vh::fail("byte " + std::to_string(i) + " read as " + std::to_string(c)); return; }
			}
			for(int k = 0; k < 3; ++k)
			{ int c = in.getchar(); if(c != -1) { vh::fail("value " + std::to_string(c) + " after the end"); return; } }
		};
		if(erased) { auto in = std::make_unique<Io::InputBuffer<Io::Reader, Cap>>(Io::Reader{s}); go(*in); }
		else { auto in = std::make_unique<Io::InputBuffer<SrcRef, Cap>>(SrcRef{&s}); go(*in); }
	}
}
template<size_t Cap>
static void writing(std::string const& d, std::vector<size_t> const& flush_at)
{
	std::string cs;
	for(auto c : flush_at) cs += std::to_string(c) + " ";
	vh::begin("OutputBuffer of " + std::to_string(Cap) + ", bytes " + (d.size() < 200 ? vh::show(d) : std::to_string(d.size()) + " bytes, seeded") + " flushed after " + cs);
	for(int mode = 0; mode < 3; ++mode)
	{
		std::string out;
		size_t f = 0;
		auto go = [&](auto& o) {
			for(size_t i = 0; i < d.size(); ++i)
			{
				if(mode == 1) o.putchar(d[i]); else o.putchar(std::byte(d[i]));
				if(out.size() > i + 1 || d.compare(0, out.size(), out) != 0) { vh::fail("the sink has " + vh::show(out.substr(0, 300)) + " after byte " + std::to_string(i)); return false; }
				if(f < flush_at.size() && flush_at[f] == i)
				{
					++f;
					o.flush();
					if(out != d.substr(0, i + 1)) { vh::fail("after flush following byte " + std::to_string(i) + " the sink has " + std::to_string(out.size()) + " bytes"); return false; }
				}
			}
			return true;
		};
		bool ok = false;
		if(mode == 2) { Sink s{&out}; Io::OutputBuffer<Io::Writer, Cap> o{Io::Writer{s}}; ok = go(o); if(!ok) return; }
		else { Io::OutputBuffer<Sink, Cap> o{Sink{&out}}; ok = go(o); if(!ok) return; }
		{
			std::string out2;
			{ Sink s{&out2}; Io::OutputBuffer<Io::Writer, Cap> o{Io::Writer{s}}; for(auto c : d) o.putchar(c); }
			if(!vh::expect(out == d && out2 == d, "after destruction the sink has " + std::to_string(out.size()) + "/" + std::to_string(out2.size()) + " bytes, or others")) return;
		}
	}
}
struct Rec
{
	std::string log;
	size_t ret;
};
size_t read(Rec& r, std::byte* b, size_t n) { r.log += "r" + std::to_string(n) + ","; if(n) b[0] = std::byte(0xa5); return r.ret; }
void write(Rec& r, std::byte const* b, size_t n) { r.log += "w" + std::string(reinterpret_cast<char const*>(b), n) + ","; }
struct RecA : Rec {};
static void erased()
{
	for(size_t ret : {size_t(0), size_t(1), size_t(77), size_t(-1), size_t(1) << 40})
	{
		for(size_t n : {size_t(0), size_t(1), size_t(63)})
		{
			vh::begin("type-erased read of " + std::to_string(n) + " from a source returning " + std::to_string(ret));
			Rec a{"", ret}, b{"", 5};
			std::byte buf[64]{};
			Io::Reader ra{a, "some/path"}, rb{b};
			auto g = Io::read(ra, buf, n);
			auto want = "r" + std::to_string(n) + ",";
			vh::expect(g == ret && a.log == want && b.log.empty(), "returned " + std::to_string(g) + ", calls " + a.log + " / " + b.log);
			if(n) vh::expect(buf[0] == std::byte(0xa5), "another buffer was used");
			g = rb.read(buf, n);
			vh::expect(g == 5 && a.log == want && b.log == want, "wrong source");
			vh::expect(ra.sourcePath() == "some/path", "path");
			vh::expect(ra.identity() == reinterpret_cast<uintptr_t>(&a) && ra.identity() != rb.identity(), "identity");
		}
	}
	for(int k = 0; k < 200; ++k)
	{
		auto d = bytes(vh::below(50));
		vh::begin("type-erased write of " + vh::show(d));
		Rec a, b;
		Io::Writer wa{a}, wb{b};
		Io::write(wa, reinterpret_cast<std::byte const*>(d.data()), d.size());
		Io::write(wa, d.data(), d.size());
		wb.write(reinterpret_cast<std::byte const*>(d.data()), d.size());
		Io::TaggedWriter<1> wt{b};
		wt.write(reinterpret_cast<std::byte const*>(d.data()), d.size());
		vh::expect(a.log == "w" + d + ",w" + d + "," && b.log == a.log, "sink received " + vh::show(a.log) + " and " + vh::show(b.log));
	}
}
static void mem()
{
	auto d = bytes(vh::below(100));
	std::vector<size_t> req;
	std::string cs;
	for(int i = 0; i < 30; ++i) { req.push_back(vh::coin(1, 5) ? 0 : vh::below(20)); cs += std::to_string(req.back()) + " "; }
	vh::begin("in-memory process input " + vh::show(d) + ", requests " + cs);
	bool direct = vh::coin();
	Io::MemRedirector m{reinterpret_cast<std::byte const*>(d.data()), d.size()};
	Io::Redirector r{m};
	std::string got, o, e;
	for(auto n : req)
	{
		std::byte buf[64];
		memset(buf, 0x33, sizeof buf);
		auto k = direct ? m(buf, n, Io::Redirector::StdIn{}) : r.stdin()(r.handle(), buf, n);
		auto want = std::min(n, d.size() - got.size());
		if(!vh::expect(k == want, "a request of " + std::to_string(n) + " gave " + std::to_string(k) + " bytes, expected " + std::to_string(want))) return;
		got.append(reinterpret_cast<char*>(buf), k);
		for(size_t i = k; i < 64; ++i) if(buf[i] != std::byte(0x33)) { vh::fail("wrote beyond the bytes returned"); return; }
	}
	vh::expect(d.compare(0, got.size(), got) == 0, "bytes delivered " + vh::show(got));
	for(int i = 0; i < 10; ++i)
	{
		auto x = bytes(vh::below(30));
		bool er = vh::coin();
		(er ? e : o) += x;
		if(direct) { if(er) m(reinterpret_cast<std::byte const*>(x.data()), x.size(), Io::Redirector::StdErr{}); else m(reinterpret_cast<std::byte const*>(x.data()), x.size(), Io::Redirector::StdOut{}); }
		else (er ? r.stderr() : r.stdout())(r.handle(), reinterpret_cast<std::byte const*>(x.data()), x.size());
	}
	auto str = [](std::vector<std::byte> const& v) { return std::string(reinterpret_cast<char const*>(v.data()), v.size()); };
	vh::expect(str(m.stdout()) == o && str(m.stderr()) == e, "captured output " + vh::show(str(m.stdout())) + " / " + vh::show(str(m.stderr())));
}
template<size_t Cap>
static void both(size_t maxn)
{
	auto d = bytes(vh::below(maxn));
	std::vector<size_t> ch;
	for(size_t i = 0, n = 1 + vh::below(6); i < n; ++i) ch.push_back(vh::coin(1, 4) ? Cap : vh::coin(1, 4) ? Cap - 1 : 1 + vh::below(Cap + 2));
	reading<Cap>(d, ch, vh::coin());
	std::vector<size_t> f;
	for(size_t i = 0; i < d.size(); ++i) if(vh::below(std::max<size_t>(Cap, 3)) == 0 || (vh::coin(1, 3) && (i + 1) % Cap == 0)) f.push_back(i);
	writing<Cap>(d, f);
}
int main()
{
	vh::init("buffers of capacity 1, 2, 3, 7, 16, 4096 over random byte strings, chunk sizes and flush points (all 256 byte values as single-byte strings); non-trivial: all");
	for(int c = 0; c < 256; ++c) { std::string d(1, char(c)); reading<4096>(d, {1}, false); writing<4096>(d, {}); }
	for(size_t n : {size_t(0), size_t(4095), size_t(4096), size_t(4097), size_t(8191), size_t(8192), size_t(8193), size_t(12288)})
	{
		auto d = bytes(n);
		reading<4096>(d, {4096}, false); reading<4096>(d, {4096}, true); reading<4096>(d, {4095, 1}, true); reading<4096>(d, {1}, false);
		writing<4096>(d, {}); writing<4096>(d, {4095}); writing<4096>(d, {4094, 4096});
	}
	erased();
	for(int i = 0; i < (vh::thorough ? 100000 : 3000) && vh::more(); ++i)
	{
		both<1>(20); both<2>(20); both<3>(30); both<7>(60); both<16>(100);
		mem();
		if(i % 50 == 0) both<4096>(14000);
	}
	return vh::done();
}
