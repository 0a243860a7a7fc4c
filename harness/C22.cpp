// C22: a command's exit status and complete output are reported faithfully
// sources: core/exec/execve.cpp core/exec/command.cpp core/utils/fs.cpp
#include "vh.hpp"
#include "core/exec/execve.hpp"
#include "core/io/mem_io_redirector.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <sys/resource.h>
#include <malloc.h>
using namespace Maike;
void* operator new(size_t n)
{
	auto p = malloc(n + 64);
	if(!p) throw std::bad_alloc{};
	return memset(p, 0x55, n + 64);
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
static unsigned char pat(size_t k, int ch) { return static_cast<unsigned char>(k * 31 + (k >> 8) * 7 + size_t(ch) * 101 + (k >> 16)); }
static void wr(int fd, size_t from, size_t n)
{
	std::vector<unsigned char> b(n);
	for(size_t k = 0; k < n; ++k) b[k] = pat(from + k, fd);
	size_t p = 0;
	while(p < n)
	{
		auto r = ::write(fd, b.data() + p, n - p);
		if(r <= 0) _exit(99);
		p += size_t(r);
	}
}
// the command: a script of operations in its first argument
static int child(int argc, char** argv)
{
	size_t pos[3] = {0, 0, 0};
	char* s = argv[1] + 7;
	while(*s)
	{
		char op = *s++;
		auto v = strtoul(s, &s, 10);
		switch(op)
		{
			case 'o': wr(1, pos[1], v); pos[1] += v; break;
			case 'e': wr(2, pos[2], v); pos[2] += v; break;
			case 'a': for(int k = 0; k < argc; ++k) unsigned(::write(1, argv[k], strlen(argv[k]) + 1)); break;
			case 'i': { char b[777]; ssize_t n; while((n = ::read(0, b, sizeof b)) > 0) { ssize_t p = 0; while(p < n) { auto r = ::write(1, b + p, size_t(n - p)); if(r <= 0) _exit(98); p += r; } } break; }
			case 'n': unlink("marker"); if(open("marker", O_CREAT | O_WRONLY, 0600) < 0) _exit(97); break;
			case 's': usleep(unsigned(v)); break;
			case 'k': signal(int(v), SIG_DFL); { sigset_t m; sigfillset(&m); sigprocmask(SIG_UNBLOCK, &m, nullptr); } kill(getpid(), int(v)); pause(); break;
			case 'x': _exit(int(v));
		}
	}
	return 0;
}
static std::string self;
static std::string str(std::vector<std::byte> const& v) { return std::string{reinterpret_cast<char const*>(v.data()), v.size()}; }
static std::string text(size_t n, int ch) { std::string r; for(size_t k = 0; k < n; ++k) r += char(pat(k, ch)); return r; }
static void status(Exec::ExitStatus s, int code, int sig)
{
	vh::expect(s.returnedFromMain() == (sig < 0), "killed by a signal or not: other answer");
	if(sig < 0) vh::expect(s.returnCode() == code, "exit code reported as " + std::to_string(s.returnCode()));
	else vh::expect(s.signo() == sig, "signal reported as " + std::to_string(s.signo()));
	vh::expect(Exec::failed(s) == (sig >= 0 || code != 0), "failed() is wrong");
	vh::expect(Exec::failed(Exec::Result{s}) == (sig >= 0 || code != 0), "failed() of a result is wrong");
}
static size_t fds()
{
	size_t n = 0;
	auto d = opendir("/proc/self/fd");
	while(readdir(d)) ++n;
	closedir(d);
	return n;
}
int main(int argc, char** argv)
{
	if(argc > 1 && !strncmp(argv[1], "--child", 7)) return child(argc, argv);
	if(getenv("VH_BARE")) { printf("%d", argc); return 0; }
	vh::init("a command of this harness that writes up to 300000 bytes to each output in pieces, dumps its arguments, copies its input, exits with each code 0..255 or is killed by each of 9 signals; up to 8 at once; commands that cannot be started; dry run; non-trivial: all");
	char buf[4096];
	self = std::string(buf, size_t(readlink("/proc/self/exe", buf, sizeof buf)));
	if(chdir(vh::dir.c_str())) return 1;
	auto run = [](std::string const& script, std::vector<std::string> rest = {}) {
		rest.insert(rest.begin(), "--child" + script);
		return Exec::execve(Exec::LocalExecve{false}, Exec::Command{fs::path{self}, rest});
	};
	auto const open0 = fds();
	for(int c = 0; c < 256; ++c)
	{
		vh::begin("exit with " + std::to_string(c));
		auto r = run("x" + std::to_string(c));
		status(r.exitStatus(), c, -1);
		vh::expect(r.stdout().empty() && r.stderr().empty(), "output from nowhere");
	}
	setenv("VH_BARE", "1", 1);
	for(size_t k = 0; k < 3; ++k)
	{
		vh::begin("no arguments");
		try
		{
			auto r = Exec::execve(Exec::LocalExecve{false}, Exec::Command{fs::path{self}, {}});
			vh::expect(str(r.stdout()) == "1", "arguments from nowhere: " + str(r.stdout()));
		}
		catch(std::exception const& e) { vh::expect(false, std::string{"cannot be started: "} + e.what()); }
	}
	unsetenv("VH_BARE");
	{
		rlimit l{RLIM_INFINITY, RLIM_INFINITY};
		setrlimit(RLIMIT_CORE, &l);
		vh::begin("killed with a core dump");
		status(run("k6").exitStatus(), 0, 6);
		rlimit z{0, 0};
		setrlimit(RLIMIT_CORE, &z);
	}
	for(int s : {SIGTERM, SIGKILL, SIGHUP, SIGINT, SIGUSR1, SIGUSR2, SIGALRM, SIGPIPE, SIGXCPU})
	{
		vh::begin("killed by " + std::to_string(s));
		auto r = run("o5e7k" + std::to_string(s));
		status(r.exitStatus(), 0, s);
		vh::expect(str(r.stdout()) == text(5, 1) && str(r.stderr()) == text(7, 2), "output of a killed command");
	}
	for(int it = 0; it < (vh::thorough ? 4000 : 300) && (vh::more() || it < 60); ++it)
	{
		std::string script;
		size_t o = 0, e = 0;
		static size_t const sizes[] = {0, 1, 2, 100, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 100000};
		for(size_t n = vh::below(6); n; --n)
		{
			auto v = vh::coin() ? sizes[vh::below(12)] : vh::below(6000);
			bool out = vh::coin();
			script += (out ? 'o' : 'e') + std::to_string(v);
			(out ? o : e) += v;
			if(vh::coin(1, 6)) script += "s2000";
		}
		auto code = int(vh::coin() ? 0 : vh::below(256));
		script += "x" + std::to_string(code);
		vh::begin("output script " + script);
		auto r = run(script);
		status(r.exitStatus(), code, -1);
		vh::expect(str(r.stdout()) == text(o, 1), "standard output differs (" + std::to_string(r.stdout().size()) + " of " + std::to_string(o) + " bytes)");
		vh::expect(str(r.stderr()) == text(e, 2), "standard error differs (" + std::to_string(r.stderr().size()) + " of " + std::to_string(e) + " bytes)");
	}
	for(int it = 0; it < (vh::thorough ? 2000 : 200); ++it)
	{
		std::vector<std::string> a;
		std::string want = self + '\0' + "--childax3" + '\0';
		for(size_t n = vh::below(9); n; --n)
		{
			std::string s;
			for(size_t m = vh::below(12); m; --m) s += vh::coin() ? " '\"\\$*\n-"[vh::below(8)] : char(1 + vh::below(255));
			if(vh::coin(1, 40)) s.append(50000, 'q');
			a.push_back(s);
			want += s + '\0';
		}
		vh::begin("arguments " + vh::show(want).substr(0, 2000));
		auto r = run("ax3", a);
		status(r.exitStatus(), 3, -1);
		vh::expect(str(r.stdout()) == want, "started with " + vh::show(str(r.stdout())).substr(0, 1000));
	}
	for(size_t n : {0, 1, 4095, 4096, 4097, 8192, 12288, 65536, 200000})
	{
		vh::begin("input of " + std::to_string(n) + " bytes, copied to standard output");
		auto in = text(n, 0);
		Io::MemRedirector io{reinterpret_cast<std::byte const*>(in.data()), in.size()};
		auto s = Exec::execve(fs::path{self}, std::vector<std::string>{"--childie3x7"}, io);
		status(s, 7, -1);
		vh::expect(str(io.stdout()) == in && str(io.stderr()) == text(3, 2), "got " + std::to_string(io.stdout().size()) + " bytes");
		vh::begin("input of " + std::to_string(n) + " bytes, not read");
		Io::MemRedirector io2{reinterpret_cast<std::byte const*>(in.data()), in.size()};
		s = Exec::execve(fs::path{self}, std::vector<std::string>{"--childo9x8"}, io2);
		status(s, 8, -1);
		vh::expect(str(io2.stdout()) == text(9, 1), "output of a command that ignores its input");
	}
	for(int it = 0; it < (vh::thorough ? 200 : 25) && vh::more(); ++it)
	{
		vh::begin("8 commands at once that copy their input, round " + std::to_string(it));
		std::vector<std::thread> ts;
		std::atomic<int> bad{0};
		for(int k = 0; k < 8; ++k) ts.emplace_back([k, &bad]() {
			auto in = text(size_t(k) * 1000, 0);
			Io::MemRedirector io{reinterpret_cast<std::byte const*>(in.data()), in.size()};
			auto s = Exec::execve(fs::path{self}, std::vector<std::string>{"--childie" + std::to_string(k) + "x" + std::to_string(k)}, io);
			if(str(io.stdout()) != in || str(io.stderr()) != text(size_t(k), 2) || !s.returnedFromMain() || s.returnCode() != k) ++bad;
		});
		for(auto& t : ts) t.join();
		vh::expect(bad == 0, "one of the commands was reported wrongly");
	}
	{
		std::vector<std::string> none{"./not-there", "/", "./noexec", "./notdir/x", "", "./badfmt"};
		close(open("noexec", O_CREAT | O_WRONLY, 0600));
		close(open("notdir", O_CREAT | O_WRONLY, 0600));
		{ auto fd = open("badfmt", O_CREAT | O_WRONLY, 0700); unsigned(::write(fd, "garbage\n", 8)); close(fd); }
		for(auto const& x : none) for(int dry = 0; dry < 2; ++dry)
		{
			vh::begin("command " + vh::show(x) + " that cannot be started, dry run " + std::to_string(dry));
			try
			{
				auto r = Exec::execve(Exec::LocalExecve{dry != 0}, Exec::Command{fs::path{x}, {}});
				vh::expect(dry, "no error");
				vh::expect(!Exec::failed(r) && r.stdout().empty() && r.stderr().empty(), "dry run reported a failure or output");
			}
			catch(...) { vh::expect(!dry, "error in a dry run"); }
		}
		vh::begin("dry run of a command that would leave a mark");
		unlink("marker");
		auto r = Exec::execve(Exec::LocalExecve{true}, Exec::Command{fs::path{self}, {"--childnx1"}});
		vh::expect(access("marker", F_OK) != 0 && !Exec::failed(r), "the command was run");
		run("nx0");
		vh::expect(access("marker", F_OK) == 0, "the command was not run");
	}
	vh::begin("descriptors after all commands");
	vh::expect(fds() == open0, "descriptors are leaked");
	return vh::done();
}
