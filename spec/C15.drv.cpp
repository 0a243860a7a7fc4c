#include "core/key_value_store/json_handle.cpp"
#include "core/key_value_store/compound.hpp"
using namespace Maike;
namespace spec
{
	using H = ::ReadHelper;
	static H& h(void* p) { return *static_cast<H*>(p); }
	struct Src { int x; };
	size_t read(Src& s, std::byte* buffer, size_t n);
	bool has_data(void* h_) { return h(h_).m_has_data; }
	bool eof(void* h_) { return h(h_).m_eof; }
	void set(void* h_, bool has_data, bool eof) { h(h_).m_has_data = has_data; h(h_).m_eof = eof; }
	void* source(void* h_) { return h(h_).m_buffer.m_source.r_source; }
	size_t fetch(void* h_, std::byte* b, size_t n) { return h(h_).fetch(b, n); }
	void make_helper(void* p, Io::Reader const& r) { new(p) H{r}; }
	bool asks_data(void* h_) { return h(h_).hasData(); }
	void make_reader(void* p, Src& s) { new(p) Io::Reader{s}; }
	json_t* handle(KeyValueStore::JsonHandle& h) { return h.handle(); }
	void handle_make(void* p, json_t* h) { new(p) KeyValueStore::JsonHandle{h, "x"}; }
	void compound(void* p, Src& s) { new(p) KeyValueStore::Compound{s, "x"}; }
	void compound_reader(void* p, Io::Reader& s) { new(p) KeyValueStore::Compound{s, "x"}; }
	void* reader_source(Io::Reader const& s) { return s.r_source; }
	json_t* compound_handle(KeyValueStore::Compound& c) { return c.m_handle.handle(); }
}
