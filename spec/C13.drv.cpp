#include "core/key_value_store/compound.cpp"
#include "core/key_value_store/array.cpp"
#include "core/db/compiler.hpp"
using namespace Maike;
namespace spec
{
	using namespace KeyValueStore;
	json_t* handle(Compound& c) { return c.m_handle.handle(); }
	json_t* array_handle(Array& c) { return c.m_handle.handle(); }
	json_t const* ref(CompoundRefConst const& r) { return r.m_ref.handle(); }
	json_t const* array_ref(ArrayRefConst const& r) { return r.m_ref.handle(); }
	void make(void* p, json_t* h) { new(p) JsonHandle{h, "x"}; }
	void make_ref(JsonRefConst* p, json_t* h) { p->r_handle = h; p->r_src = "y"; }
	fs::path& recipe(Db::Compiler& c) { return c.m_recipe; }
	Compound& config(Db::Compiler& c) { return c.m_config; }
	bool has_origin(Db::Compiler& c) { return c.m_origin.has_value(); }
	int origin(Db::Compiler& c) { return static_cast<int>(*c.m_origin); }
	void set_origin(Db::Compiler& c, bool has, int o) { c.m_origin._M_payload._M_engaged = has; c.m_origin._M_payload._M_payload._M_value = static_cast<Db::SourceFileOrigin>(o); }
	void merge(Compound& a, CompoundRefConst const& b) { a |= b; }
	void merge_compound(Compound& a, Compound const& b) { a |= b; }
	void merged(void* out, Compound& a, CompoundRefConst const& b) { new(out) Compound{std::move(a) | b}; }
	void append(Array& a, ArrayRefConst const& b) { a |= b; }
	void appended(void* out, Array& a, ArrayRefConst const& b) { new(out) Array{std::move(a) | b}; }
}
