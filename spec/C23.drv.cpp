#include <cstddef>
#include <new>
#include <string>
#include <stdexcept>
#include "core/utils/unique_function.hpp"
#include "core/utils/scope_exit_handler.hpp"
#include "core/io/input_file.hpp"
namespace spec
{
	struct Fun { int id; Fun(Fun&&) noexcept; ~Fun(); int operator()(int); };
	using F = Maike::UniqueFunction<int(int)>;
	void uf_make(void* p, Fun& f) { new(p) F{std::move(f)}; }
	void uf_move(void* p, F& g) { new(p) F{std::move(g)}; }
	void uf_assign(F& f, F& g) { f = std::move(g); }
	void uf_destroy(F& f) { f.~F(); }
	int uf_call(F const& f, int x) { return f(x); }
	bool uf_valid(F const& f) { return f.valid(); }
	void* uf_data(F const& f) { return f.m_data; }

	struct Act { int id; Act(Act&&) noexcept = default; Act& operator=(Act&&) noexcept = default; void operator()(); };
	using H = Maike::ScopeExitHandler<Act>;
	void se_make(void* p, Act& f) { new(p) H{std::move(f)}; }
	void se_move(void* p, H& g) { new(p) H{std::move(g)}; }
	H& se_assign(H& f, H& g) { return f = std::move(g); }
	void se_destroy(H& f) { f.~H(); }
	bool se_engaged(H const& f) { return f.m_obj._M_payload._M_engaged; }
	void se_engaged_put(H& f, bool v) { f.m_obj._M_payload._M_engaged = v; }
	int se_id(H const& f) { return f.m_obj._M_payload._M_payload._M_value.id; }
	void se_id_put(H& f, int v) { f.m_obj._M_payload._M_payload._M_value.id = v; }

	using I = Maike::Io::InputFile;
	void if_make(void* p, Maike::fs::path const& x) { new(p) I{x}; }
	void if_move(void* p, I& g) { new(p) I{std::move(g)}; }
	I& if_assign(I& f, I& g) { return f = std::move(g); }
	void if_destroy(I& f) { f.~I(); }
	void if_reset(I& f) { f.reset(); }
	int if_get(I const& f) { return f.get(); }
	size_t if_read(I& f, std::byte* p, size_t n) { return f.read(p, n); }
	size_t if_read2(I& f, std::byte* p, size_t n) { return read(f, p, n); }
	int if_fd(I const& f) { return f.m_handle; }
	void if_fd_put(I& f, int v) { f.m_handle = v; }
}
