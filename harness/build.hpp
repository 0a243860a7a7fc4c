// Builds of random dependency graphs through the real TaskList, Task and ThreadPool, with a scripted command runner.
#pragma once
#include "vh.hpp"
#include "core/db/task_list.hpp"
#include <thread>
#include <fcntl.h>
#include <sys/stat.h>
#include <set>
#include <map>
using namespace Maike;
using O = Db::SourceFileOrigin;
namespace bld
{
	enum class Act { Ok, Code, Signal, Throw, ThrowOther, Absent /* source and target both missing: cannot be decided */ , Fresh /* up to date, nothing to run */ };
	struct Node { std::vector<size_t> use, build; bool step; Act act; unsigned delay; };
	struct Log
	{
		std::mutex m;
		std::vector<size_t> starts;
		std::map<size_t, std::string> early;   // step -> what was not complete at its start
	};
	struct Runner
	{
		std::vector<Node> const* g;
		std::vector<std::atomic<int>>* done;    // 1 succeeded, 2 failed
		Log* log;
		std::function<Db::TaskResult(size_t)> status;
	};
	inline std::string name(size_t k) { char b[16]; snprintf(b, sizeof b, "n%03zu", k); return b; }
	inline void reach(std::vector<Node> const& g, size_t k, std::set<size_t>& r)
	{
		if(!r.insert(k).second) return;
		for(auto d : g[k].use) reach(g, d, r);
		for(auto d : g[k].build) reach(g, d, r);
	}
	inline Exec::Result execve(Runner& r, Exec::Command const& c)
	{
		size_t k = 999999;
		auto p = c.args.at(1).find("\"source_file\"");
		auto q = c.args.at(1).find("\"n", p);
		k = strtoul(c.args.at(1).c_str() + q + 2, nullptr, 10);
		auto const& n = r.g->at(k);
		{
			std::lock_guard l{r.log->m};
			r.log->starts.push_back(k);
			std::set<size_t> need;
			reach(*r.g, k, need);
			need.erase(k);
			for(auto d : need)
			{
				auto const& x = (*r.g)[d];
				if(!x.step || x.act == Act::Fresh) continue;
				if((*r.done)[d] != 1) r.log->early[k] += name(d) + ((*r.done)[d] == 2 ? " (failed) " : " (not finished) ");
			}
		}
		if(n.delay) usleep(n.delay);
		(*r.done)[k] = n.act == Act::Ok ? 1 : 2;
		switch(n.act)
		{
			case Act::Code: return Exec::Result{Exec::ExitStatus{}.returnCode(1 + int(k % 255)), std::vector<std::byte>{}, std::vector<std::byte>{}};
			case Act::Signal: return Exec::Result{Exec::ExitStatus{}.signo(9), std::vector<std::byte>{}, std::vector<std::byte>{}};
			case Act::Throw: throw std::runtime_error{"cannot launch"};
			case Act::ThrowOther: throw 42;
			default: return Exec::Result{Exec::ExitStatus::success(), std::vector<std::byte>{}, std::vector<std::byte>{}};
		}
	}
	inline void put(std::string const& n, int t)
	{
		unlink(n.c_str());
		if(t == 0) return;
		close(open(n.c_str(), O_CREAT | O_WRONLY, 0600));
		timespec ts[2]{};
		ts[0].tv_sec = ts[1].tv_sec = 1000000000 + t;
		utimensat(AT_FDCWD, n.c_str(), ts, 0);
	}
	inline std::string show(std::vector<Node> const& g)
	{
		static char const* A[] = {"", "!code", "!signal", "!throws", "!throws-int", "!undecidable", "~fresh"};
		std::string r;
		for(size_t k = 0; k < g.size(); ++k)
		{
			r += name(k) + (g[k].step ? "" : "(no step)") + A[int(g[k].act)];
			for(auto d : g[k].use) r += " " + name(d);
			if(!g[k].build.empty()) r += " |";
			for(auto d : g[k].build) r += " " + name(d);
			r += " d" + std::to_string(g[k].delay) + "; ";
		}
		return r;
	}
	inline std::vector<Node> random(bool failing)
	{
		size_t n = 1 + vh::below(vh::coin(1, 6) ? 24 : 9);
		std::vector<Node> g(n);
		std::vector<size_t> perm(n);
		for(size_t k = 0; k < n; ++k) perm[k] = k;
		for(size_t k = n; k > 1; --k) std::swap(perm[k - 1], perm[vh::below(k)]);
		unsigned style = unsigned(vh::below(4));
		bool files = failing ? vh::coin() : vh::coin(1, 4);
		for(size_t k = 0; k < n; ++k)
		{
			auto& x = g[perm[k]];
			x.step = vh::coin(5, 6);
			x.act = Act::Ok;
			if(failing && vh::coin(1, 4)) x.act = std::vector<Act>{Act::Code, Act::Signal, Act::Throw, Act::ThrowOther, Act::Absent}[vh::below(files ? 5 : 4)];
			else if(files && vh::coin(1, 4)) x.act = Act::Fresh;
			x.delay = style == 0 ? 0 : style == 1 ? unsigned(vh::below(3)) * 300 : style == 2 ? unsigned(vh::below(100)) : (k % 2 ? 0 : 500);
			for(size_t j = 0; j < k; ++j) if(vh::coin(1, k < 4 ? 2 : 4)) (vh::coin(3, 4) ? x.use : x.build).push_back(perm[j]);
		}
		return g;
	}
	// which: the node whose target is built, or all
	inline void run(std::vector<Node> const& g, int threads, size_t which)
	{
		bool files = false;
		for(auto const& x : g) files = files || x.act == Act::Absent || x.act == Act::Fresh;
		vh::begin(show(g) + " threads=" + std::to_string(threads) + (which < g.size() ? " target of " + name(which) : " all") + (files ? " not forced" : " forced"));
		static Db::Compiler const dflt{fs::path{"recipe"}, false};
		Db::DependencyGraph::SourceFileList list;
		for(size_t k = 0; k < g.size(); ++k)
		{
			std::vector<Db::TargetInfo> t;
			if(g[k].step) t.push_back(Db::TargetInfo{fs::path{"t" + name(k)}, std::vector<Db::Dependency>{}});
			if(files)
			{
				put(name(k), g[k].act == Act::Absent ? 0 : 1);
				put("t" + name(k), g[k].act == Act::Fresh ? 5 : 0);
			}
			Db::SourceFileInfo info{std::move(t), std::cref(dflt), Db::Compiler{}, O::Project, Db::RebuildPolicy::OnlyIfOutOfDate};
			std::vector<Db::Dependency> u, b;
			for(auto d : g[k].use) u.push_back(Db::Dependency{fs::path{name(d)}, O::Project, std::vector<Db::Property>{}});
			for(auto d : g[k].build) b.push_back(Db::Dependency{fs::path{name(d)}, O::Project, std::vector<Db::Property>{}});
			info.useDeps(std::move(u)).buildDeps(std::move(b));
			list.insert(std::make_pair(fs::path{name(k)}, std::move(info)));
		}
		Db::DependencyGraph graph{std::move(list)};
		std::vector<std::atomic<int>> done(g.size());
		Log log;
		Runner r{&g, &done, &log};
		Db::CompilationLog clog{Db::LogFormat::PlainText, Db::CompilationLog::LogLevel::Errors};
		std::set<size_t> want;
		if(which < g.size()) reach(g, which, want);
		else for(size_t k = 0; k < g.size(); ++k) want.insert(k);
		auto tl = [&]() {
			if(which >= g.size()) return std::make_unique<Db::TaskList>(graph, Build::Info{}, clog);
			auto rec = getNode(graph, fs::path{name(which)});
			Db::TargetInfo ti{fs::path{"tx"}, std::vector<Db::Dependency>{}};
			return std::make_unique<Db::TaskList>(graph, Build::Info{}, clog, Db::Target{rec.path(), std::cref(ti), std::cref(rec.sourceFileInfo())});
		}();
		bool threw = false;
		size_t count = 0;
		{
			Sched::ThreadPool pool{ThreadCount{std::to_string(threads).c_str()}};
			try { count = tl->process(pool, Db::Invoker{std::ref(r)}, Db::Task::ForceRecompilation{!files}); }
			catch(...) { threw = true; }
			auto rest = pool.takeLastException();
			vh::expect(rest == nullptr, "an exception is still pending after the build");
		}
		// what has to happen
		std::set<size_t> bad;     // nodes that fail when they get to run
		size_t steps = 0;
		bool fail = false;
		std::set<size_t> blocked;
		for(auto k : want)
		{
			if(!g[k].step) continue;
			++steps;
			auto a = g[k].act;
			if(a != Act::Ok && a != Act::Fresh) { bad.insert(k); }
		}
		// an undecidable step that is never tried is no failure; but some failing step whose needs all succeed is always tried
		for(auto k : bad) { (void)k; fail = true; }
		std::map<size_t, int> times;
		for(auto k : log.starts) ++times[k];
		for(auto const& [k, n] : times)
		{
			vh::expect(n == 1, "step of " + name(k) + " started " + std::to_string(n) + " times");
			vh::expect(want.count(k) && g[k].step, "step of " + name(k) + " is not part of the build");
			vh::expect(g[k].act != Act::Fresh && g[k].act != Act::Absent, "command of " + name(k) + " was run");
		}
		for(auto const& [k, t] : log.early) vh::fail("step of " + name(k) + " started before " + t);
		vh::expect(threw == fail, threw ? "the build raised an error though no step failed" : "a step failed, but the build completed normally");
		if(!fail)
		{
			vh::expect(count == steps, "reported " + std::to_string(count) + " steps of " + std::to_string(steps));
			for(auto k : want) if(g[k].step && g[k].act == Act::Ok) vh::expect(times.count(k) == 1, "step of " + name(k) + " was never started");
		}
		auto rec = [&](size_t k) { return tl->status(getNode(graph, fs::path{name(k)}).id()); };
		for(auto k : want)
		{
			auto s = rec(k);
			if(!g[k].step) { vh::expect(s == Db::TaskResult::Success, name(k) + " has no step but is not successful"); continue; }
			if(done[k] == 1) vh::expect(s == Db::TaskResult::Success, name(k) + " succeeded but is not recorded so");
			if(done[k] == 2) vh::expect(s == Db::TaskResult::Failure, name(k) + " failed but is not recorded so");
			if(g[k].act == Act::Absent) vh::expect(s != Db::TaskResult::Success, name(k) + " cannot be carried out but is recorded as successful");
			if(!fail && g[k].act == Act::Fresh) vh::expect(s == Db::TaskResult::Success, name(k) + " is up to date but not recorded as successful");
			if(s == Db::TaskResult::Success && g[k].act == Act::Ok) vh::expect(done[k] == 1, name(k) + " recorded as successful without having run");
		}
		if(files) for(size_t k = 0; k < g.size(); ++k) { put(name(k), 0); put("t" + name(k), 0); }
	}
	inline int main(bool failing, char const* rule)
	{
		vh::init(rule);
		if(chdir(vh::dir.c_str())) return 2;
		freopen("/dev/null", "w", stdout);
		freopen("/dev/null", "w", stderr);
		for(int i = 0; i < (vh::thorough ? 40000 : 900) && vh::elapsed() < vh::budget * 2; ++i)
		{
			auto g = random(failing ? i % 8 != 0 : i % 8 == 0);
			run(g, 1 + int(vh::below(4)), vh::coin(1, 3) ? vh::below(g.size()) : 1000000);
		}
		return vh::done();
	}
}
