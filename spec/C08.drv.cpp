#include <cstring>
#include <algorithm>
#include <stdexcept>
#include "core/io/input_buffer.hpp"
#include "core/io/output_buffer.hpp"
#include "core/io/reader.hpp"
#include "core/io/writer.hpp"
#include "core/io/mem_io_redirector.hpp"
using namespace Maike::Io;
namespace spec
{
	struct Src { int x; };
	struct Snk { int x; };
	size_t read(Src& s, std::byte* buffer, size_t n);
	void write(Snk& s, std::byte const* buffer, size_t n);
	using IB = InputBuffer<Src>;
	using OB = OutputBuffer<Snk>;
	// representation: [a, e) of the buffer is still to be delivered; or nothing was read yet
	void ib_state(IB& b, size_t a, size_t e) { b.r_read_ptr = b.m_buffer.data() + a; b.r_read_end = b.m_buffer.data() + e; }
	void ib_empty(IB& b) { b.r_read_ptr = nullptr; b.r_read_end = nullptr; }
	size_t ib_cap(IB& b) { return b.m_buffer.size(); }
	bool ib_null(IB& b) { return b.r_read_ptr == nullptr; }
	bool ib_null_end(IB& b) { return b.r_read_end == nullptr; }
	size_t ib_a(IB& b) { return static_cast<size_t>(b.r_read_ptr - b.m_buffer.data()); }
	size_t ib_e(IB& b) { return static_cast<size_t>(b.r_read_end - b.m_buffer.data()); }
	std::byte* ib_buf(IB& b) { return b.m_buffer.data(); }
	Src* ib_src(IB& b) { return &b.m_source; }
	void ib_make(void* p, Src s) { new(p) IB{s}; }
	int ib_getchar(IB& b) { return b.getchar(); }

	void ob_state(OB& b, size_t e) { b.r_write_ptr = b.m_buffer.data() + e; }
	size_t ob_cap(OB& b) { return b.m_buffer.size(); }
	size_t ob_e(OB& b) { return static_cast<size_t>(b.r_write_ptr - b.m_buffer.data()); }
	std::byte* ob_buf(OB& b) { return b.m_buffer.data(); }
	Snk* ob_snk(OB& b) { return &b.m_sink; }
	void ob_make(void* p, Snk s) { new(p) OB{s}; }
	void ob_put(OB& b, std::byte x) { b.putchar(x); }
	void ob_putc(OB& b, char x) { b.putchar(x); }
	void ob_flush(OB& b) { b.flush(); }
	void ob_destroy(OB& b) { b.~OB(); }

	size_t via_reader(Src& s, std::byte* b, size_t n) { Reader r{s}; return r.read(b, n); }
	size_t via_reader_free(Src& s, std::byte* b, size_t n) { Reader r{s}; return read(r, b, n); }
	void via_writer(Snk& s, std::byte const* b, size_t n) { Writer w{s}; w.write(b, n); }
	void via_writer_free(Snk& s, std::byte const* b, size_t n) { Writer w{s}; write(w, b, n); }
	void via_writer_char(Snk& s, char const* b, size_t n) { Writer w{s}; write(w, b, n); }
	void via_tagged(Snk& s, std::byte const* b, size_t n) { TaggedWriter<3> w{s}; write(w, b, n); }

	using MR = MemRedirector;
	void mr_state(MR& m, std::byte const* p, size_t n) { m.m_stdin.first = p; m.m_stdin.second = n; }
	std::byte const* mr_ptr(MR& m) { return m.m_stdin.first; }
	size_t mr_rest(MR& m) { return m.m_stdin.second; }
	std::vector<std::byte> const& mr_out(MR& m) { return m.m_stdout; }
	std::vector<std::byte> const& mr_err(MR& m) { return m.m_stderr; }
	size_t mr_in(MR& m, std::byte* b, size_t n) { return m(b, n, Redirector::StdIn{}); }
	void mr_o(MR& m, std::byte const* b, size_t n) { m(b, n, Redirector::StdOut{}); }
	void mr_e(MR& m, std::byte const* b, size_t n) { m(b, n, Redirector::StdErr{}); }
	size_t via_redirector(MR& m, std::byte* b, size_t n) { Redirector r{m}; return r.stdin()(r.handle(), b, n); }
	void via_redirector_o(MR& m, std::byte const* b, size_t n) { Redirector r{m}; r.stdout()(r.handle(), b, n); }
	void via_redirector_e(MR& m, std::byte const* b, size_t n) { Redirector r{m}; r.stderr()(r.handle(), b, n); }
}
