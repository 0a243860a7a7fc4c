// Support for the replay harnesses: they run the real code of /repo on concrete inputs against an executable form of the
// property, to turn a failed obligation into a failing input (and to stand in, bounded, where no obligation exists).
#ifndef VH_HPP
#define VH_HPP
#include <algorithm>
#include <memory>
#include <stdexcept>
#include <utility>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <string>
#include <vector>
#include <unordered_set>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <thread>
#include <atomic>
#include <mutex>

namespace vh
{
	inline uint64_t s0;
	inline uint64_t rnd()
	{
		s0 += 0x9e3779b97f4a7c15ull;
		uint64_t z = s0;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	inline size_t below(size_t n) { return n ? static_cast<size_t>(rnd() % n) : 0; }
	inline bool coin(int num = 1, int den = 2) { return below(static_cast<size_t>(den)) < static_cast<size_t>(num); }

	inline bool thorough;
	inline double budget = 10.0;   // seconds
	inline timespec t0;
	inline double elapsed()
	{
		timespec t;
		clock_gettime(CLOCK_MONOTONIC, &t);
		return double(t.tv_sec - t0.tv_sec) + 1e-9 * double(t.tv_nsec - t0.tv_nsec);
	}
	inline bool more() { return elapsed() < budget; }

	inline uint64_t evals;
	inline std::unordered_set<uint64_t> distinct;
	inline std::vector<std::string> samples;
	inline std::vector<std::string> violations;
	inline char current[65536];
	inline char const* rule = "";
	inline std::string dir;       // scratch directory, created and removed by check.py
	inline int out_fd = 1;

	inline std::atomic<bool> raced{false};
	inline std::atomic<double> deadline{1e9};
	inline std::string previous;

	inline std::string esc(std::string const& s)
	{
		std::string r;
		char b[8];
		for(unsigned char c : s)
		{
			if(c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if(c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += char(c);
		}
		return r;
	}

	// printable form of a byte string
	inline std::string show(std::string const& s)
	{
		std::string r = "\"";
		char b[8];
		for(unsigned char c : s)
		{
			if(c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if(c == '\n') r += "\\n";
			else if(c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
			else r += char(c);
		}
		return r + "\"";
	}

	inline void finish(bool hard)
	{
		std::string o = "{\"evaluations\":" + std::to_string(evals) + ",\"distinct_nontrivial\":" + std::to_string(distinct.size())
		                + ",\"rule\":\"" + esc(rule) + "\",\"samples\":[";
		for(size_t i = 0; i < samples.size(); ++i) o += (i ? ",\"" : "\"") + esc(samples[i]) + "\"";
		o += "],\"violations\":[";
		for(size_t i = 0; i < violations.size(); ++i) o += (i ? ",\"" : "\"") + esc(violations[i]) + "\"";
		o += "]}\n";
		size_t p = 0;
		while(p < o.size())
		{
			auto n = ::write(out_fd, o.data() + p, o.size() - p);
			if(n <= 0) break;
			p += size_t(n);
		}
		if(hard) syscall(SYS_exit_group, 0);
	}

	// a case is about to run; text describes it completely
	inline void begin(std::string const& text, bool nontrivial = true)
	{
		++evals;
		auto n = std::min(text.size(), sizeof(current) - 1);
		memcpy(current, text.data(), n);
		current[n] = 0;
		if(nontrivial && distinct.size() < 2000000)
		{
			bool fresh = distinct.insert(std::hash<std::string>{}(text)).second;
			if(fresh && samples.size() < 5 && (evals % 97 == 1)) samples.push_back(text.substr(0, 400));
		}
		if(raced.exchange(false)) violations.push_back(previous + "\n  -> ThreadSanitizer reports a data race");
#ifdef __SANITIZE_THREAD__
		previous = text;
		deadline = elapsed() + (thorough ? 120 : 20);
#else
		alarm(thorough ? 120 : 20);
#endif
	}

	inline void fail(std::string const& what)
	{
		violations.push_back(std::string{current} + "\n  -> " + what);
		if(violations.size() >= 3) finish(true);
	}
	inline bool expect(bool c, std::string const& what)
	{
		if(!c) fail(what);
		return c;
	}

	inline void handler(int sig)
	{
		alarm(0);
		signal(sig, SIG_DFL);
		violations.push_back(std::string{current} + "\n  -> " + (sig == SIGALRM ? "did not finish (hang)" : "process ended by signal " + std::to_string(sig)));
		finish(true);
	}

	inline void init(char const* r)
	{
		rule = r;
		clock_gettime(CLOCK_MONOTONIC, &t0);
		auto s = getenv("VERIF_SEED");
		s0 = (s ? strtoull(s, nullptr, 10) : 1) * 0x2545f4914f6cdd1dull + 12345;
		auto t = getenv("VERIF_TIER");
		thorough = t && !strcmp(t, "thorough");
		auto b = getenv("VH_BUDGET");
		budget = b ? atof(b) : (thorough ? 240.0 : 8.0);
		auto d = getenv("VH_DIR");
		dir = d ? d : "/tmp";
		for(int sig : {SIGALRM, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(sig, handler);
		// results go to a private copy of stdout, so that the code under test cannot disturb them
		out_fd = fcntl(1, F_DUPFD_CLOEXEC, 3);
		signal(SIGPIPE, SIG_IGN);
#ifdef __SANITIZE_THREAD__
		std::thread{[]() {
			while(elapsed() < deadline) usleep(200000);
			violations.push_back(std::string{current} + "\n  -> did not finish (hang)");
			finish(true);
		}}.detach();
#endif
	}
	inline int done()
	{
		alarm(0);
		deadline = 1e9;
		if(raced.exchange(false)) violations.push_back(previous + "\n  -> ThreadSanitizer reports a data race");
		if(samples.empty() && current[0]) samples.push_back(std::string{current}.substr(0, 400));
		finish(true);
		return 0;
	}
}
#ifdef __SANITIZE_THREAD__
extern "C" void __tsan_on_report(void*) { vh::raced = true; }

// The reference count of an exception object is kept inside libstdc++, which ThreadSanitizer does not see: tell it that the one
// who gives up the last reference comes after all others.
#include <dlfcn.h>
#include <exception>
#include <mutex>
namespace vh
{
	inline std::recursive_mutex& exc_lock(void* obj)
	{
		static std::recursive_mutex m[64];
		return m[(reinterpret_cast<size_t>(obj) >> 4) % 64];
	}
}
extern "C" void vh_exc_release(void*) __asm__("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
extern "C" void vh_exc_release(void* self)
{
	static auto next = reinterpret_cast<void (*)(void*)>(dlsym(RTLD_NEXT, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"));
	std::lock_guard lock{vh::exc_lock(*static_cast<void**>(self))};
	next(self);
}
extern "C" void vh_end_catch() __asm__("__cxa_end_catch");
extern "C" void vh_end_catch()
{
	static auto next = reinterpret_cast<void (*)()>(dlsym(RTLD_NEXT, "__cxa_end_catch"));
	void* obj = nullptr;
	{
		auto p = std::current_exception();
		memcpy(&obj, &p, sizeof obj);
	}
	std::lock_guard lock{vh::exc_lock(obj)};
	next();
}
#endif
#endif
