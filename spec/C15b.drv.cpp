#include "core/db/compiler.cpp"
using namespace Maike;
namespace spec
{
	using B = ::BufferReader;
	static B& b(void* p) { return *static_cast<B*>(p); }
	void make(void* p, std::vector<std::byte> const& v, size_t at) { new(p) B{v, at}; }
	size_t at(void* b_) { return b(b_).read_offset; }
	std::vector<std::byte> const* buffer(void* b_) { return &b(b_).buffer.get(); }
	size_t read_buffer(void* b_, std::byte* p, size_t n) { return ::read(b(b_), p, n); }
	void* reader_source(Io::Reader const& s) { return s.r_source; }
	size_t reader_read(Io::Reader& s, std::byte* p, size_t n) { return s.read(p, n); }
	std::vector<std::byte>* out(Exec::Result& r) { return &r.m_stdout; }
	std::vector<std::byte>* err(Exec::Result& r) { return &r.m_stderr; }
	void res_set(Exec::Result& r, int signo, int code) { r.m_status.m_signo = signo; r.m_status.m_return_code = code; }
	KeyValueStore::Compound& config(Db::Compiler& c) { return c.m_config; }
	json_t* compound_handle(KeyValueStore::Compound& c) { return c.m_handle.handle(); }
	void compound_set(KeyValueStore::Compound& c, json_t* h) { new(&c) KeyValueStore::Compound{}; c.m_handle.m_handle.release(); c.m_handle.m_handle.reset(h); }
	void handle_make(void* p, json_t* h) { new(p) KeyValueStore::JsonHandle{h, "x"}; }
	fs::path& recipe(Db::Compiler& c) { return c.m_recipe; }
	void configure(Db::Compiler& c) { c.configRecipe(); }
}
