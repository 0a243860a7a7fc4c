// C10: the thread pool
// flags: -fsanitize=thread -g
#include "vh.hpp"
#include "core/sched/thread_pool.hpp"
#include <thread>
#include <set>
#include <dirent.h>
using namespace Maike;
static size_t threads_now()
{
	size_t n = 0;
	auto d = opendir("/proc/self/task");
	while(auto e = readdir(d)) if(e->d_name[0] != '.') ++n;
	closedir(d);
	return n;
}
// joined threads may be seen for a moment
static size_t settled()
{
	auto n = threads_now();
	for(int i = 0, same = 0; i < 100 && same < 4; ++i)
	{
		usleep(1000);
		auto m = threads_now();
		same = m == n ? same + 1 : 0;
		n = m;
	}
	return n;
}
static ThreadCount count(int n) { return ThreadCount{std::to_string(n).c_str()}; }
// value that must arrive exactly once
struct Val
{
	int v = 0;
	Val() = default;
	explicit Val(int x): v{x} {}
	Val(Val&& o): v{o.v} { o.v = -1; }
	Val& operator=(Val&& o) { v = o.v; o.v = -1; return *this; }
};
static void many(int workers, int tasks, int adders, int how)
{
	vh::begin("pool of " + std::to_string(workers) + ", " + std::to_string(adders) + " threads adding " + std::to_string(tasks) + " tasks each, pattern " + std::to_string(how) + ", run " + std::to_string(vh::evals));
	auto base = threads_now();
	size_t N = size_t(tasks * adders);
	std::vector<std::atomic<int>> ran(N);
	std::atomic<int> destroyed{0};
	std::mutex m;
	std::set<std::thread::id> who;
	std::atomic<int> active{0}, peak{0};
	struct Token
	{
		std::atomic<int>* d;
		explicit Token(std::atomic<int>* x): d{x} {}
		Token(Token&& o) noexcept: d{o.d} { o.d = nullptr; }
		~Token() { if(d) ++*d; }
	};
	{
		Sched::ThreadPool pool{count(workers)};
		vh::expect(pool.count() == size_t(workers), "count() is " + std::to_string(pool.count()));
		std::vector<std::thread> ts;
		for(int a = 0; a < adders; ++a)
			ts.emplace_back([&, a]() {
				for(int t = 0; t < tasks; ++t)
				{
					auto k = size_t(a * tasks + t);
					pool.addTask([&, k, how, token = Token{&destroyed}]() {
						{ std::lock_guard l{m}; who.insert(std::this_thread::get_id()); }
						int c = ++active;
						int p = peak;
						while(c > p && !peak.compare_exchange_weak(p, c)) {}
						if(how == 1) usleep(unsigned(k % 7) * 30);
						if(how == 2 && k % 5 == 0) throw std::runtime_error{std::to_string(k)};
						--active;
						++ran[k];
					});
					if(how == 3) usleep(50);
				}
			});
		for(auto& t : ts) t.join();
		if(how == 4) usleep(2000);
		if(how == 5) { pool.addTask([&]() { for(int i = 0; i < 20; ++i) pool.addTask([&]() { ++ran[0]; }); }); }
	}
	for(size_t k = 0; k < N; ++k)
	{
		int want = how == 2 && k % 5 == 0 ? 0 : 1;
		if(how == 5 && k == 0) want = 21;
		if(!vh::expect(ran[k] == want, "task " + std::to_string(k) + " was run " + std::to_string(ran[k].load()) + " times")) return;
	}
	vh::expect(destroyed == int(N), "tasks destroyed: " + std::to_string(destroyed.load()) + " of " + std::to_string(N));
	vh::expect(who.size() <= size_t(workers) && !who.count(std::this_thread::get_id()), "tasks ran in " + std::to_string(who.size()) + " threads");
	for(int i = 0; i < 2000 && threads_now() > base; ++i) usleep(1000);
	vh::expect(threads_now() <= base, "threads left behind");
}
// exactly n workers: n tasks can wait for each other, and the pool can be used meanwhile; no more than n run at once
static void workers(int n)
{
	vh::begin("exactly " + std::to_string(n) + " workers");
	auto base = settled();
	std::atomic<int> in{0}, go{0}, later{0};
	{
		Sched::ThreadPool pool{count(n)};
		for(int i = 0; i < n; ++i) pool.addTask([&]() { ++in; while(!go) usleep(200); });
		pool.addTask([&]() { ++later; });    // would block if the pool's lock were held during execution
		for(int i = 0; i < 20000 && in < n; ++i) usleep(200);
		vh::expect(in == n, std::to_string(in.load()) + " tasks run at once");
		usleep(3000);
		vh::expect(later == 0, "more tasks run at once than there are workers");
		for(int i = 0; i < 1000 && threads_now() != base + size_t(n); ++i) usleep(1000);
		auto const now = threads_now();
		vh::expect(now == base + size_t(n), "the pool has " + std::to_string(now - base) + " threads");
		go = 1;
	}
	vh::expect(later == 1, "a queued task was dropped");
}
static void results(int how)
{
	vh::begin("tasks with result slots, pattern " + std::to_string(how) + ", run " + std::to_string(vh::evals));
	std::vector<std::unique_ptr<Sched::ThreadPool::TaskResult<Val>>> r;
	for(int i = 0; i < 20; ++i) r.push_back(std::make_unique<Sched::ThreadPool::TaskResult<Val>>());
	std::exception_ptr left;
	{
		Sched::ThreadPool pool{count(1 + how % 3)};
		for(int i = 0; i < 20; ++i)
			pool.addTask([i, how]() { if(how & 1) usleep(unsigned(i * 13 % 50)); if(i % 3 == 0) throw std::runtime_error{std::to_string(i)}; if(i % 7 == 0) throw i; return Val{1000 + i}; }, *r[size_t(i)]);
		for(int i = 0; i < 20; ++i)
		{
			std::string got;
			for(int rep = 0; rep < 2; ++rep)
			{
				try { got = std::to_string((how & 2) && i % 2 && rep == 1 ? r[size_t(i)]->take().v : r[size_t(i)]->get().v); }
				catch(std::exception const& e) { got = std::string{"x"} + e.what(); }
				catch(int e) { got = "i" + std::to_string(e); }
				auto want = i % 3 == 0 ? "x" + std::to_string(i) : i % 7 == 0 ? "i" + std::to_string(i) : std::to_string(1000 + i);
				vh::expect(got == want, "slot " + std::to_string(i) + " gave " + got + ", expected " + want);
			}
		}
		left = pool.takeLastException();
	}
	vh::expect(left == nullptr, "an exception of a task with a slot was also kept by the pool");
}
static std::string what(std::exception_ptr e)
{
	if(!e) return "none";
	try { std::rethrow_exception(e); } catch(std::exception const& x) { return x.what(); } catch(int i) { return "int " + std::to_string(i); } catch(...) { return "?"; }
}
static void first(int n)
{
	vh::begin("first exception is kept, " + std::to_string(n) + " failing tasks");
	Sched::ThreadPool pool{count(1)};
	auto sync = [&]() { Sched::ThreadPool::TaskResult<int> r; pool.addTask([]() { return 1; }, r); r.get(); };
	for(int rep = 0; rep < 3; ++rep)
	{
		for(int i = 0; i < n; ++i) pool.addTask([=]() { if(i % 2 && rep == 1) throw i; throw std::runtime_error{"e" + std::to_string(rep * 100 + i)}; });
		pool.addTask([]() {});
		sync();
		auto a = what(pool.takeLastException()), b = what(pool.takeLastException());
		auto want = n ? "e" + std::to_string(rep * 100) : "none";
		vh::expect(a == want && b == "none", "handed over " + a + ", then " + b + "; expected " + want + ", then none");
	}
}
int main()
{
	vh::init("pools of 1 to 6 workers, up to 4 adding threads, tasks that sleep, throw, add tasks or have result slots, destruction while tasks are queued; under ThreadSanitizer; non-trivial: all");
	for(int n = 1; n <= 6; ++n) workers(n);
	for(int n = 0; n < 4; ++n) first(n);
	for(int i = 0; i < (vh::thorough ? 5000 : 150) && vh::elapsed() < vh::budget * 2; ++i)
	{
		many(1 + i % 5, 1 + int(vh::below(40)), 1 + i % 4, i % 6);
		results(i % 8);
	}
	return vh::done();
}
