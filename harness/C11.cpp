// C11: waiting on an event, a counter or a result
// flags: -fsanitize=thread -g
// sources: none
#include "vh.hpp"
#include <condition_variable>
#include "core/sched/event.hpp"
#include "core/sched/signaling_counter.hpp"
#include "core/sched/thread_pool.hpp"
#include <thread>
using namespace Maike;
static void event(int n, int how)
{
	vh::begin("event set " + std::to_string(n) + " times in turn with a waiter, pattern " + std::to_string(how) + ", run " + std::to_string(vh::evals));
	Sched::Event e, back;
	int shared = 0;
	std::thread t{[&]() {
		for(int i = 0; i < n; ++i)
		{
			e.waitAndReset();
			if(shared != i + 1) vh::fail("waiter " + std::to_string(i) + " continued before the event was set (" + std::to_string(shared) + ")");
			back.set();
		}
	}};
	for(int i = 0; i < n; ++i)
	{
		if(how == 1) usleep(200);
		shared = i + 1;
		e.set();
		if(how == 2) usleep(20);
		back.waitAndReset();
	}
	t.join();
}
static void event_once(bool twice)
{
	vh::begin(std::string{"an event set "} + (twice ? "twice" : "once") + " is consumed by one wait");
	Sched::Event e;
	e.set();
	if(twice) e.set();
	e.waitAndReset();
	std::atomic<bool> passed{false};
	std::thread t{[&]() { e.waitAndReset(); passed = true; }};
	usleep(15000);
	bool p = passed;
	e.set();
	t.join();
	vh::expect(!p, "the second wait returned without another set");
}
static void counter(long init, std::vector<int> const& ops, long target)
{
	std::string s;
	for(auto o : ops) s += o > 0 ? "+" : "-";
	vh::begin("counter from " + std::to_string(init) + ": " + s + ", waiting for " + std::to_string(target));
	Sched::SignalingCounter<long> c{init};
	long v = init, steps = 0;
	std::atomic<bool> returned{false};
	std::thread w;
	bool waiting = false;
	bool reached = false;
	// before the end no prefix has the target value, so the waiter may return only after the last operation
	w = std::thread{[&]() { c.wait(target); returned = true; }};
	waiting = true;
	usleep(300);
	for(size_t i = 0; i < ops.size(); ++i)
	{
		if(v == target) reached = true;
		if(!reached) vh::expect(!returned, "wait returned at value " + std::to_string(v));
		if(ops[i] > 0) { if(i & 1) ++c; else c.lock(); ++v; } else { if(i & 1) --c; else c.unlock(); --v; }
		vh::expect(c == v && !(c != v) && c != v + 1 && !(c == v - 1), "value is not " + std::to_string(v) + " after " + std::to_string(i + 1) + " operations");
		++steps;
	}
	if(v != target && !reached)
	{
		usleep(2000);
		vh::expect(!returned, "wait returned at value " + std::to_string(v));
		while(v != target) { if(v < target) { ++c; ++v; } else { --c; --v; } }
	}
	else if(v != target) { while(v != target) { if(v < target) { ++c; ++v; } else { --c; --v; } } }
	w.join();
	vh::expect(c == target, "value");
}
static void counter_threads(int n)
{
	vh::begin("counter: " + std::to_string(n) + " locks released by threads, run " + std::to_string(vh::evals));
	std::atomic<int> open{0};
	Sched::SignalingCounter<size_t> c{0};
	std::vector<std::thread> ts;
	for(int i = 0; i < n; ++i)
	{
		++open;
		ts.emplace_back([&, l = std::unique_lock{c}, d = unsigned(vh::below(200))]() mutable { if(d > 60) usleep(d); --open; l.unlock(); });
	}
	c.wait(0);
	vh::expect(open == 0, "wait(0) returned with " + std::to_string(open.load()) + " holders");
	for(auto& t : ts) t.join();
	auto& r1 = ++c;
	auto& r2 = --c;
	vh::expect(&r1 == &c && &r2 == &c && c == 0, "++ and --");
}
static void result(int how, unsigned delay)
{
	vh::begin("asynchronous result, pattern " + std::to_string(how) + ", delay " + std::to_string(delay) + ", run " + std::to_string(vh::evals));
	std::atomic<int> stage{0};
	std::thread t;
	{
		Sched::AsyncTaskResult<std::string> r;
		t = std::thread{[&, how, delay]() {
			if(delay) usleep(delay);
			++stage;
			if(how & 1) { try { throw std::runtime_error{"oops"}; } catch(...) { r.set(std::current_exception()); } }
			else r.set(std::string{"value"});
		}};
		if(how & 2)
		{
			for(int rep = 0; rep < 2; ++rep)
			{
				std::string g;
				try { g = (how & 4) && rep == 1 ? r.take() : r.get(); }
				catch(std::exception const& e) { g = std::string{"x"} + e.what(); }
				vh::expect(stage == 1, "get returned before anything was stored");
				vh::expect(g == ((how & 1) ? "xoops" : "value"), "got " + g);
			}
		}
	}
	vh::expect(stage == 1, "destroyed before it was ready");
	t.join();
}
int main()
{
	vh::init("events, counters and asynchronous results under random timing and ThreadSanitizer; a missed wake-up shows as a hang; non-trivial: all");
	event_once(false); event_once(true);
	for(int i = 0; i < 8; ++i) for(unsigned d : {0u, 2000u}) result(i, d);
	for(int i = 0; i < (vh::thorough ? 6000 : 200) && vh::more(); ++i)
	{
		event(1 + int(vh::below(40)), i % 3);
		std::vector<int> ops;
		for(size_t k = 0, n = vh::below(12); k < n; ++k) ops.push_back(vh::coin() ? 1 : -1);
		counter(long(vh::below(5)), ops, long(vh::below(6)));
		counter_threads(1 + int(vh::below(8)));
		result(i % 8, unsigned(vh::below(3)) * 40);
	}
	return vh::done();
}
