#include <cstddef>
#include <memory>
#include <algorithm>
#include "core/io/fifo.hpp"
namespace spec
{
	using F = Maike::Io::Fifo<std::byte>;
	using Block = std::pair<size_t, std::unique_ptr<std::byte[]>>;
	void* ff_mtx(F& f) { return &f.m_mtx; }
	void* ff_cv(F& f) { return &f.m_cv; }
	void* ff_list(F& f) { return &f.m_elems; }
	size_t ff_left(F& f) { return f.m_bytes_left; }
	void ff_left_put(F& f, size_t n) { f.m_bytes_left = n; }
	std::byte const* ff_ptr(F& f) { return f.r_read_ptr; }
	void ff_ptr_put(F& f, std::byte const* p) { f.r_read_ptr = p; }
	size_t bl_size(Block& b) { return b.first; }
	std::byte* bl_data(Block& b) { return b.second.get(); }
	void bl_put(Block& b, size_t n, std::byte* p) { b.first = n; b.second._M_t._M_ptr() = p; }
	void ff_make(void* p) { new(p) F{}; }
	void ff_write(F& f, std::byte const* p, size_t n) { f.write(p, n); }
	void ff_stop(F& f) { f.stop(); }
	size_t ff_read(F& f, std::byte* p, size_t n) { return f.read(p, n); }
	void ff_write2(F& f, std::byte const* p, size_t n) { write(f, p, n); }
	size_t ff_read2(F& f, std::byte* p, size_t n) { return read(f, p, n); }
}
