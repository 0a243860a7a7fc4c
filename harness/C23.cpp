// C23: files, callbacks and exit handlers are released exactly once
// sources: none
#include "vh.hpp"
#include <optional>
#include <map>
#include <memory>
#include <array>
#include <sys/stat.h>
static std::map<int, int> live;         // descriptors opened through the code under test
static std::string problem;
static int rec_open(char const* p, int fl, int mode = 0)
{
	auto r = ::open(p, fl, mode);
	if(r >= 0) live[r] = 1;
	return r;
}
static int rec_close(int fd)
{
	auto i = live.find(fd);
	if(i == live.end()) { problem += " closes descriptor " + std::to_string(fd) + " that it does not own;"; return -1; }
	live.erase(i);
	return ::close(fd);
}
#include <filesystem>
#define open rec_open
#define close rec_close
#include "core/io/input_file.hpp"
#undef open
#undef close
#include "core/utils/unique_function.hpp"
#include "core/utils/scope_exit_handler.hpp"
using namespace Maike;

struct Cnt { int alive = 0, calls = 0, dead = 0; };
static std::array<Cnt, 64> cnt;
struct Fn     // counts its live copies; a moved-from instance does not count
{
	int id;
	explicit Fn(int i): id{i} { ++cnt[size_t(i)].alive; }
	Fn(Fn&& o) noexcept: id{o.id} { o.id = -1; }
	Fn(Fn const&) = delete;
	Fn& operator=(Fn&& o) noexcept { kill(); id = o.id; o.id = -1; return *this; }
	~Fn() { kill(); }
	void kill() { if(id >= 0) { --cnt[size_t(id)].alive; ++cnt[size_t(id)].dead; } id = -1; }
	int operator()(int x) { if(id < 0) { problem += " called without callable;"; return 0; } ++cnt[size_t(id)].calls; return x * 100 + id; }
	void operator()() { if(id < 0) problem += " called without callable;"; else ++cnt[size_t(id)].calls; }
};
static size_t opened() { return live.size(); }
int main()
{
	vh::init("sequences of up to 14 operations (create, move construct, move assign, self-assign, release, call, destroy) on 4 objects of each kind; non-trivial: at least one move");
	auto path = vh::dir + "/f";
	{ auto fd = ::open(path.c_str(), O_CREAT | O_WRONLY, 0600); unsigned(::write(fd, "hello", 5)); ::close(fd); }
	for(int it = 0; it < (vh::thorough ? 400000 : 40000) && (vh::more() || it < 3000); ++it)
	{
		// input files
		{
			std::string ops;
			problem.clear();
			live.clear();
			auto canary = ::open("/dev/null", O_RDONLY);
			std::array<std::optional<Io::InputFile>, 4> f;
			std::array<int, 4> has{-1, -1, -1, -1};
			bool moved = false;
			for(size_t n = 1 + vh::below(14); n; --n)
			{
				auto a = vh::below(4), b = vh::below(4);
				auto op = vh::below(7);
				auto nm = [](size_t k) { return std::string{char('a' + k)}; };
				switch(op)
				{
					case 0: if(!f[a]) { ops += " open " + nm(a); f[a].emplace(fs::path{path}); has[a] = f[a]->get(); if(has[a] < 0 || !live.count(has[a])) problem += " no descriptor after open;"; } break;
					case 1: if(!f[a] && f[b]) { ops += " " + nm(a) + "(move " + nm(b) + ")"; f[a].emplace(std::move(*f[b])); has[a] = has[b]; has[b] = -1; moved = true; } break;
					case 2: if(f[a] && f[b]) { ops += " " + nm(a) + "=move " + nm(b); *f[a] = std::move(*f[b]); moved = true; if(a != b) { auto old = has[a]; has[a] = has[b]; has[b] = f[b]->get() == old ? old : -1; } else has[a] = f[a]->get(); } break;
					case 3: if(f[a]) { ops += " reset " + nm(a); f[a]->reset(); has[a] = -1; } break;
					case 4: if(f[a]) { ops += " destroy " + nm(a); f[a].reset(); has[a] = -1; } break;
					case 5: if(f[a] && has[a] >= 0) { std::byte x[3]; lseek(has[a], 0, SEEK_SET); if(f[a]->read(x, 3) != 3 || memcmp(x, "hel", 3)) problem += " read from another file;"; } break;
					case 6: ops += " fail"; try { Io::InputFile x{fs::path{vh::dir + "/none"}}; problem += " no error for a missing file;"; } catch(std::runtime_error const&) {} break;
				}
				size_t owned = 0;
				for(size_t k = 0; k < 4; ++k) if(f[k])
				{
					if(f[k]->get() != has[k]) problem += " object " + nm(k) + " holds another descriptor;";
					if(has[k] >= 0) { ++owned; if(!live.count(has[k])) problem += " descriptor closed while owned;"; }
				}
				if(opened() != owned) problem += " a descriptor is neither owned nor closed;";
				if(!problem.empty()) break;
			}
			vh::begin("input files:" + ops, moved);
			for(auto& x : f) x.reset();
			if(opened()) problem += " descriptor still open at the end;";
			if(fcntl(canary, F_GETFD) < 0) problem += " another descriptor was closed;";
			::close(canary);
			vh::expect(problem.empty(), problem);
		}
		// move-only functions
		{
			std::string ops;
			problem.clear();
			for(auto& c : cnt) c = Cnt{};
			using U = UniqueFunction<int(int)>;
			std::array<std::optional<U>, 4> f;
			std::array<int, 4> has{-1, -1, -1, -1};
			std::array<Cnt, 64> want{};
			int id = 0;
			bool moved = false;
			auto nm = [](size_t k) { return std::string{char('a' + k)}; };
			auto drop = [&](size_t k) { if(has[k] >= 0) { ++want[size_t(has[k])].dead; --want[size_t(has[k])].alive; } has[k] = -1; };
			for(size_t n = 1 + vh::below(14); n; --n)
			{
				auto a = vh::below(4), b = vh::below(4);
				switch(vh::below(5))
				{
					case 0: if(!f[a]) { ops += " make " + nm(a); f[a].emplace(Fn{id}); has[a] = id; ++want[size_t(id)].alive; ++id; } break;
					case 1: if(!f[a] && f[b]) { ops += " " + nm(a) + "(move " + nm(b) + ")"; f[a].emplace(std::move(*f[b])); has[a] = has[b]; has[b] = -1; moved = true; } break;
					case 2: if(f[a] && f[b]) { ops += " " + nm(a) + "=move " + nm(b); *f[a] = std::move(*f[b]); moved = true;
						if(a != b) { if(f[b]->valid()) std::swap(has[a], has[b]); else { drop(a); has[a] = has[b]; has[b] = -1; } } else if(has[a] >= 0 && !f[a]->valid()) drop(a); } break;
					case 3: if(f[a] && has[a] >= 0) { ops += " call " + nm(a); auto r = (*f[a])(int(n)); ++want[size_t(has[a])].calls; if(r != int(n) * 100 + has[a]) problem += " result of another call;"; } break;
					case 4: if(f[a]) { ops += " destroy " + nm(a); f[a].reset(); drop(a); } break;
				}
				for(size_t k = 0; k < 4; ++k) if(f[k] && f[k]->valid() != (has[k] >= 0)) problem += " valid() of " + nm(k) + " is wrong;";
				for(size_t k = 0; k < 64; ++k) if(cnt[k].alive != want[k].alive || cnt[k].dead != want[k].dead || cnt[k].calls != want[k].calls)
					problem += " callable " + std::to_string(k) + ": alive " + std::to_string(cnt[k].alive) + " destroyed " + std::to_string(cnt[k].dead) + " calls " + std::to_string(cnt[k].calls) + ";";
				if(!problem.empty()) break;
			}
			vh::begin("functions:" + ops, moved);
			if(problem.empty())
			{
				for(auto& x : f) x.reset();
				for(int k = 0; k < id; ++k) if(cnt[size_t(k)].alive != 0 || cnt[size_t(k)].dead != 1) problem += " callable not destroyed exactly once;";
			}
			vh::expect(problem.empty(), problem);
		}
		// exit handlers
		{
			std::string ops;
			problem.clear();
			for(auto& c : cnt) c = Cnt{};
			using S = ScopeExitHandler<Fn>;
			std::array<std::optional<S>, 4> f;
			std::array<int, 4> has{-1, -1, -1, -1};
			std::array<int, 64> want{};
			int id = 0;
			bool moved = false;
			auto nm = [](size_t k) { return std::string{char('a' + k)}; };
			auto run = [&](size_t k) { if(has[k] >= 0) ++want[size_t(has[k])]; has[k] = -1; };
			for(size_t n = 1 + vh::below(14); n; --n)
			{
				auto a = vh::below(4), b = vh::below(4);
				switch(vh::below(4))
				{
					case 0: if(!f[a]) { ops += " make " + nm(a); f[a].emplace(Fn{id}); has[a] = id; ++id; } break;
					case 1: if(!f[a] && f[b]) { ops += " " + nm(a) + "(move " + nm(b) + ")"; f[a].emplace(std::move(*f[b])); has[a] = has[b]; has[b] = -1; moved = true; } break;
					case 2: if(f[a] && f[b] && a != b) { ops += " " + nm(a) + "=move " + nm(b); auto& r = (*f[a] = std::move(*f[b])); if(&r != &*f[a]) problem += " assignment returns another object;"; moved = true; has[a] = has[b]; has[b] = -1; } break;
					case 3: if(f[a]) { ops += " leave " + nm(a); f[a].reset(); run(a); } break;
				}
				for(size_t k = 0; k < 64; ++k) if(cnt[k].calls != want[k]) problem += " action " + std::to_string(k) + " was run " + std::to_string(cnt[k].calls) + " times;";
				if(!problem.empty()) break;
			}
			vh::begin("exit handlers:" + ops, moved);
			if(problem.empty())
			{
				for(size_t k = 0; k < 4; ++k) { f[k].reset(); run(k); }
				for(size_t k = 0; k < 64; ++k) if(cnt[k].calls != want[k]) problem += " action " + std::to_string(k) + " was run " + std::to_string(cnt[k].calls) + " times;";
			}
			vh::expect(problem.empty(), problem);
		}
	}
	return vh::done();
}
