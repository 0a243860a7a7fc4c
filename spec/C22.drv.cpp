#include "core/exec/execve.cpp"
using namespace Maike;
namespace spec
{
	using namespace Exec;
	bool from_main(ExitStatus const& s) { return s.returnedFromMain(); }
	int code(ExitStatus const& s) { return s.returnCode(); }
	int signo(ExitStatus const& s) { return s.signo(); }
	bool failed_status(int sig, int code) { ExitStatus s; s.m_signo = sig; s.m_return_code = code; return failed(s); }
	bool failed_exit(int code) { return failed(ExitStatus{}.returnCode(code)); }
	bool failed_signal(int sig) { return failed(ExitStatus{}.signo(sig)); }
	bool failed_result_exit(int code) { return failed(Result{ExitStatus{}.returnCode(code)}); }
	bool failed_result_signal(int sig) { return failed(Result{ExitStatus{}.signo(sig)}); }
	size_t redirector_size() { return sizeof(Io::Redirector); }
	void make_status(ExitStatus* s, bool exited, int v) { *s = exited ? ExitStatus{}.returnCode(v) : ExitStatus{}.signo(v); }
	void* handle(Io::Redirector const& r) { return r.handle(); }
	Io::Redirector::Writer in(Io::Redirector const& r) { return r.stdin(); }
	Io::Redirector::Reader out(Io::Redirector const& r) { return r.stdout(); }
	Io::Redirector::Reader err(Io::Redirector const& r) { return r.stderr(); }
	int write_end(void const* p) { return reinterpret_cast<Pipe const*>(p)->writeEnd(); }
	void set_pipe(void* p, int r, int w) { auto x = reinterpret_cast<Pipe*>(p); x->m_read_end = r; x->m_write_end = w; }
	std::vector<std::byte> const& res_out(Result const& r) { return r.stdout(); }
	std::vector<std::byte> const& res_err(Result const& r) { return r.stderr(); }
	ExitStatus const& res_status(Result const& r) { return r.m_status; }
	std::vector<std::byte>& cap_out(void* p) { return reinterpret_cast<IOCapture*>(p)->stdout; }
	std::vector<std::byte>& cap_err(void* p) { return reinterpret_cast<IOCapture*>(p)->stderr; }
	fs::path& exe(Command& c) { return c.executable; }
	std::vector<std::string>& args(Command& c) { return c.args; }
	std::string const& arg(std::vector<std::string> const& v, size_t k) { return v[k]; }
}
size_t spec_in(void*, std::byte*, size_t);
void spec_out(void*, std::byte const*, size_t);
void spec_err(void*, std::byte const*, size_t);
namespace spec
{
	void make_redirector(Io::Redirector* r, void* h) { r->r_handle = h; r->m_stdin = spec_in; r->m_stdout = spec_out; r->m_stderr = spec_err; }
}
