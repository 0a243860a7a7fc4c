// C24: a recipe name resolves to the project's recipe first, then to the system's
// sources: core/source_tree_loader/command_dictionary.cpp core/db/source_file_origin.cpp
#include "vh.hpp"
#include "core/source_tree_loader/command_dictionary.hpp"
#include <dlfcn.h>
#include <sys/stat.h>
#include <optional>
using namespace Maike;
using SourceTreeLoader::CommandDictionary;
// std::filesystem asks the system through these; a hook here puts another lookup in the middle of one
static std::function<void()> between;
static thread_local bool inside;
static std::atomic<bool> armed{false};
template<class F> static int hooked(F f)
{
	auto r = f();
	auto e = errno;
	if(!inside && armed.exchange(false)) { inside = true; between(); inside = false; }
	errno = e;
	return r;
}
extern "C" int stat(char const* p, struct stat* s)
{
	static auto real = reinterpret_cast<int (*)(char const*, struct stat*)>(dlsym(RTLD_NEXT, "stat"));
	return hooked([&] { return real(p, s); });
}
static void put(std::string const& p, bool dir = false)
{
	fs::create_directories(fs::path{p}.parent_path());
	if(dir) fs::create_directories(p);
	else close(open(p.c_str(), O_CREAT | O_WRONLY, 0600));
}
int main()
{
	vh::init("every combination of {absent, file, directory, link to a file} for a name in the project and the system directory, names with directories, dots and '..', directories relative, with and without a final separator; lookups repeated after the files changed, from 4 threads at once and in the middle of another lookup; non-trivial: the name is in one of them");
	if(chdir(vh::dir.c_str())) return 1;
	static char const* names[] = {"x.py", "sub/y.py", "a/../z.py", "./w.py", "sp ace", ".hid", "sub//q"};
	static char const* pds[] = {".", "proj", "./proj/", "proj/../proj", ""};
	int round = 0;
	for(auto nm : names) for(auto pd : pds) for(int pk = 0; pk < 4; ++pk) for(int sk = 0; sk < 4; ++sk) for(int thr = 0; thr < 3; ++thr)
	{
		++round;
		auto base = fs::path{vh::dir} / ("r" + std::to_string(round));
		fs::create_directories(base / "proj");
		fs::create_directories(base / "sys");
		fs::create_directories(base / "proj/a");
		fs::create_directories(base / "sys/a");
		fs::create_directories(base / "a");
		if(chdir(base.c_str())) return 1;
		fs::path pdir{pd}, sdir{round % 2 ? "sys" : "./sys/"};
		auto mk = [&](fs::path const& d, int kind) {
			auto p = (base / d / nm).string();
			if(kind == 1) put(p);
			if(kind == 2) put(p, true);
			if(kind == 3) { put((base / "real").string()); fs::create_directories(fs::path{p}.parent_path()); fs::create_symlink(base / "real", p); }
		};
		mk(pdir, pk);
		mk(sdir, sk);
		bool inp = pk == 1 || pk == 3, ins = sk == 1 || sk == 3;
		vh::begin("name " + vh::show(nm) + ", project directory " + vh::show(pd) + " (kind " + std::to_string(pk) + "), system directory kind " + std::to_string(sk) + ", variant " + std::to_string(thr), inp || ins);
		CommandDictionary d;
		d.projectDir(fs::path{pdir}).systemDir(fs::path{sdir});
		auto e = d.get(fs::path{""});
		vh::expect(e.first.empty() && e.second == Db::SourceFileOrigin::Project, "the empty name changed");
		auto want = ((inp ? pdir : sdir) / nm).lexically_normal();
		auto wo = inp ? Db::SourceFileOrigin::Project : Db::SourceFileOrigin::System;
		auto ok = [&](CommandDictionary::result_type const& r) { return r.first.native() == want.native() && r.second == wo; };
		auto look = [&]() {
			try { auto r = d.get(fs::path{nm}); return (inp || ins) && ok(r); }
			catch(std::runtime_error const&) { return !inp && !ins; }
		};
		auto change = [&]() {
			// the other way round from now on
			std::error_code ec;
			fs::remove_all(pdir / nm, ec);
			if(thr == 0) fs::remove_all(sdir / nm, ec);
			if(!inp) mk(pdir, 1);
		};
		if(thr == 0)
		{
			vh::expect(look(), "resolved to another file");
			if(inp || ins)
			{
				change();
				vh::expect(look(), "the second answer differs from the first");
				vh::expect(d.get(fs::path{nm}) == d.get(fs::path{nm}), "answers differ");
			}
		}
		else if(thr == 1)
		{
			std::atomic<int> bad{0};
			std::vector<std::thread> ts;
			for(int k = 0; k < 4; ++k) ts.emplace_back([&]() { for(int m = 0; m < 3; ++m) if(!look()) ++bad; });
			for(auto& t : ts) t.join();
			vh::expect(bad == 0, "a concurrent lookup was answered differently");
		}
		else if(inp || ins)
		{
			// another thread looks the name up, after the files changed, while this one is looking
			std::optional<CommandDictionary::result_type> first, mine;
			std::thread other;
			std::atomic<bool> finished{false};
			between = [&]() {
				change();
				other = std::thread{[&]() { inside = true; try { first = d.get(fs::path{nm}); } catch(...) {} finished = true; }};
				for(int k = 0; k < 300 && !finished; ++k) usleep(1000);       // it may have to wait for this lookup
			};
			armed = true;
			try { mine = d.get(fs::path{nm}); } catch(...) {}
			bool hit = !armed.exchange(false);
			if(other.joinable()) other.join();
			if(hit && first && mine)
			{
				vh::expect(*first == *mine, "answers " + vh::show(first->first.string()) + ", then " + vh::show(mine->first.string()) + " to lookups that overlap");
				vh::expect(d.get(fs::path{nm}) == *mine, "the first answer is forgotten");
			}
		}
		if(chdir(vh::dir.c_str())) return 1;
		fs::remove_all(base);
	}
	return vh::done();
}
