// C03: isOlder, isNewer, isUpToDate and runIfNecessary against the property, on real files
#include "vh.hpp"
#include "core/utils/fs.hpp"
#include "core/db/target_info.hpp"
#include "core/db/source_file_record.hpp"
#include "core/db/dependency_graph.hpp"
#include "core/db/task.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <map>
#include <memory>
using namespace Maike;
using O = Db::SourceFileOrigin;

// 0 missing, 1..N: file with that time, -1 directory
static void put(std::string const& name, int t, long step)
{
	std::error_code ec;
	fs::remove_all(name, ec);
	if(t == 0) return;
	if(t < 0) { fs::create_directory(name); return; }
	if(t >= 100) { mkfifo(name.c_str(), 0600); t -= 100; }   // neither regular file nor directory
	else
	{
		auto f = fopen(name.c_str(), "w");
		fclose(f);
	}
	timespec ts[2];
	ts[0].tv_sec = ts[1].tv_sec = 1000000000;
	ts[0].tv_nsec = ts[1].tv_nsec = t * step;
	utimensat(AT_FDCWD, name.c_str(), ts, 0);
}
struct Err {};
static bool older(int a, int b)   // a, b >= 0
{
	a %= 100;
	b %= 100;
	if(a == 0 && b == 0) throw Err{};
	if(a == 0) return true;
	if(b == 0) return false;
	return a < b;
}
struct D { int t; Db::SourceFileOrigin o; };
static bool ext(D const& d) { return d.o == Db::SourceFileOrigin::System || d.o == Db::SourceFileOrigin::PkgConfig; }
static bool up(int tgt, int src, std::vector<D> const& ds)
{
	if(tgt < 0) return true;
	if(!older(src, tgt)) return false;
	for(auto const& d : ds)
	{
		if(ext(d) || d.t < 0) continue;
		if(!older(d.t, tgt)) return false;
	}
	return true;
}
static char const* W[] = {"false", "true", "error"};
template<class F> static int tri(F f)
{
	try { return f() ? 1 : 0; }
	catch(...) { return 2; }
}

struct Exe { int runs = 0; Exec::Command const* cmd = nullptr; };
static Exec::Result execve(Exe& e, Exec::Command const& c) { ++e.runs; e.cmd = &c; return Exec::Result{Exec::ExitStatus::success()}; }

int main()
{
	vh::init("files with 1 ns or 1 s distances, missing files and directories in every position; non-trivial: a comparison takes place");
	if(chdir(vh::dir.c_str())) return 2;
	for(long step : {1L, 1000000L, 100000000L})
	for(int a = 0; a < 4; ++a)
	for(int b = 0; b < 4; ++b)
	{
		vh::begin("isOlder/isNewer(a,b): a=" + std::to_string(a) + " b=" + std::to_string(b) + " step=" + std::to_string(step) + "ns (0 = missing)");
		put("a", a, step); put("b", b, step);
		int e = tri([&] { return older(a, b); });
		int g = tri([&] { return isOlder(fs::path{"a"}, fs::path{"b"}); });
		vh::expect(e == g, std::string{"isOlder expected "} + W[e] + ", got " + W[g]);
		e = tri([&] { return older(b, a); });
		g = tri([&] { return isNewer(fs::path{"a"}, fs::path{"b"}); });
		vh::expect(e == g, std::string{"isNewer expected "} + W[e] + ", got " + W[g]);
	}
	fs::remove_all("a"); fs::remove_all("b");

	auto one = [](std::vector<int> const& tg, int src, std::vector<D> const& ds, bool force, bool always, long step) {
		std::string txt = "targets=[";
		for(auto t : tg) txt += std::to_string(t) + ",";
		txt += "] source=" + std::to_string(src) + " deps=[";
		for(auto const& d : ds) txt += std::to_string(d.t) + "/" + std::to_string(int(d.o)) + ",";
		txt += "] force=" + std::to_string(force) + " always=" + std::to_string(always) + " step=" + std::to_string(step)
		       + "ns (time in steps, 0 = missing, -1 = directory, 100+t = FIFO of time t; dependency/origin)";
		vh::begin(txt, !tg.empty());
		put("src", src, step);
		std::vector<Db::TargetInfo> tv;
		for(size_t i = 0; i < tg.size(); ++i)
		{
			auto n = "t" + std::to_string(i);
			put(n, tg[i], step);
			tv.push_back(Db::TargetInfo{fs::path{n}, std::vector<Db::Dependency>{}});
		}
		std::vector<Db::Dependency> dv;
		for(size_t i = 0; i < ds.size(); ++i)
		{
			auto n = "d" + std::to_string(i);
			put(n, ds[i].t, step);
			dv.push_back(Db::Dependency{fs::path{n}, ds[i].o, std::vector<Db::Property>{}});
		}
		for(size_t i = 0; i < tg.size(); ++i)
		{
			int e = tri([&] { return up(tg[i], src, ds); });
			int g = tri([&] { return Db::isUpToDate(tv[i], fs::path{"src"}, dv); });
			vh::expect(e == g, "isUpToDate(target " + std::to_string(i) + ") expected " + W[e] + ", got " + W[g]);
		}
		static Db::Compiler const dflt{fs::path{"recipe"}, false};
		Db::DependencyGraph::SourceFileList list;
		{
			auto tv2 = tv;
			auto dv2 = dv;
			Db::SourceFileInfo info{std::move(tv2), std::cref(dflt), Db::Compiler{}, O::Project,
			                        always ? Db::RebuildPolicy::Always : Db::RebuildPolicy::OnlyIfOutOfDate};
			info.useDeps(std::move(dv2));
			list.insert(std::make_pair(fs::path{"src"}, std::move(info)));
			for(auto const& d : dv) list.insert(std::make_pair(d.name(), Db::SourceFileInfo{d.expectedOrigin(), Db::Compiler{}}));
		}
		Db::DependencyGraph g{std::move(list)};
		auto rec = getNode(g, fs::path{"src"});
		auto all = [&] { for(auto t : tg) if(!up(t, src, ds)) return false; return true; };
		int e = tri(all);
		int got = tri([&] { return Db::isUpToDate(rec, dv); });
		vh::expect(e == got, std::string{"isUpToDate(record) expected "} + W[e] + ", got " + W[got]);
		// the decision: a task whose use dependencies are dv
		Db::Task task{g, rec, Build::Info{}, Db::LogFormat::PlainText};
		Exe exe;
		int res;
		try
		{
			auto r = task.runIfNecessary(Db::Task::ForceRecompilation{force}, Db::Invoker{std::ref(exe)});
			res = r.has_value() ? 1 : 0;
		}
		catch(...) { res = 2; }
		int want = (force || always) ? 1 : (e == 2 ? 2 : (e == 1 ? 0 : 1));
		vh::expect(res == want && exe.runs == (want == 1 ? 1 : 0),
		           "runIfNecessary: command run " + std::to_string(exe.runs) + " times, outcome " + (res == 2 ? "error" : res ? "result" : "no result")
		           + "; expected " + (want == 2 ? "error" : want ? "one run" : "no run"));
		if(exe.runs) vh::expect(exe.cmd == &task.command(), "another command was run");
	};

	// exhaustive: up to one target and one dependency
	for(int t = -1; t < 4; ++t) for(int s = 0; s < 4; ++s)
	{
		one({t}, s, {}, false, false, 1);
		one({t}, s, {}, true, false, 1);
		one({t}, s, {}, false, true, 1);
		for(int d = -1; d < 4; ++d) for(auto o : {O::Project, O::Generated, O::System, O::PkgConfig}) one({t}, s, {{d, o}}, false, false, 1);
	}
	for(int t = 0; t < 4; ++t) for(int d = 101; d < 104; ++d) for(auto o : {O::Project, O::Generated, O::System}) one({t}, 1, {{d, o}}, false, false, 1);
	for(int t = 101; t < 104; ++t) for(int s = 0; s < 4; ++s) one({t}, s, {{2, O::Project}}, false, false, 1);
	one({}, 1, {}, false, false, 1); one({}, 1, {}, true, false, 1); one({}, 1, {}, false, true, 1); one({}, 1, {{3, O::Project}}, false, false, 1);
	for(int a = -1; a < 4; ++a) for(int b = -1; b < 4; ++b) for(int s = 0; s < 4; ++s) one({a, b}, s, {}, false, false, 1000);
	for(int a = -1; a < 4; ++a) for(int b = -1; b < 4; ++b) for(int t = 0; t < 4; ++t) one({t}, 1, {{a, O::Project}, {b, O::Generated}}, false, false, 1);
	while(vh::more())
	{
		auto big = vh::coin();
		std::vector<int> tg(vh::below(big ? 8 : 3) + 1);
		std::vector<D> ds(vh::below(big ? 24 : 4));
		int lim = big ? 30 : 4;
		// mostly fresh, with one thing wrong at a random place
		for(auto& t : tg) t = vh::coin(1, 20) ? int(vh::below(2)) - 1 : lim;
		int src = vh::coin(1, 12) ? 0 : 1 + int(vh::below(size_t(lim - 1)));
		for(auto& d : ds) d = D{vh::coin(1, 12) ? int(vh::below(2)) - 1 : 1 + int(vh::below(size_t(lim - 1))), O(vh::below(4))};
		if(vh::coin() && !ds.empty()) { auto& d = ds[vh::below(ds.size())]; d.t = lim + int(vh::below(2)); }
		else if(vh::coin()) tg[vh::below(tg.size())] = int(vh::below(size_t(lim)));
		one(tg, src, ds, vh::coin(1, 10), vh::coin(1, 10), vh::coin() ? 1 : 1000000);
	}
	return vh::done();
}
