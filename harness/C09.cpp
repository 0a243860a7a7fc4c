// C09: the in-memory stream
// sources: none
// flags: -fsanitize=thread -g
#include "vh.hpp"
#include <memory>
#include <utility>
#include <algorithm>
#include "core/io/fifo.hpp"
#include <thread>
using namespace Maike;
static std::string bytes(size_t n) { std::string r(n, 0); for(auto& c : r) c = char(vh::below(256)); return r; }

// one thread: queue blocks, then read as far as that never blocks
static void sequential()
{
	std::string text = "sequence:";
	struct Op { bool write; std::string data; size_t n; };
	std::vector<Op> ops;
	std::vector<std::string> q;
	size_t left = 0;     // bytes left of the front block; 0: not started
	bool started = false;
	size_t k = 1 + vh::below(30);
	for(size_t i = 0; i < k; ++i)
	{
		if(q.empty() || vh::coin(2, 5))
		{
			std::string d = bytes(vh::coin(1, 6) ? 0 : vh::below(12));
			text += " write(" + vh::show(d) + ")";
			ops.push_back({true, d, 0});
			q.push_back(d);
		}
		else
		{
			size_t n = vh::coin(1, 8) ? 0 : 1 + vh::below(9);
			if(vh::coin(1, 5)) n = q.front().size() + vh::below(2);
			text += " read(" + std::to_string(n) + ")";
			ops.push_back({false, "", n});
			if(!started) { left = q.front().size(); started = true; }
			left -= std::min(n, left);
			if(left == 0) { q.erase(q.begin()); started = false; }
		}
	}
	vh::begin(text);
	Io::Fifo<std::byte> f;
	q.clear(); left = 0; started = false;
	size_t no = 0;
	for(auto& o : ops)
	{
		++no;
		if(o.write)
		{
			auto tmp = o.data;
			if(tmp.empty() && (no & 1)) f.stop(); else write(f, reinterpret_cast<std::byte const*>(tmp.data()), tmp.size());
			for(auto& c : tmp) c = '#';   // the stream must have its own copy
			q.push_back(o.data);
		}
		else
		{
			std::byte buf[64];
			memset(buf, 0x5c, sizeof buf);
			auto g = read(f, buf, o.n);
			if(!started) { left = q.front().size(); started = true; }
			auto n = std::min(o.n, left);
			auto want = q.front().substr(q.front().size() - left, n);
			if(!vh::expect(g == n && std::string(reinterpret_cast<char*>(buf), n) == want, "operation " + std::to_string(no) + " returned " + std::to_string(g) + " bytes, expected " + vh::show(want))) return;
			for(size_t i = n; i < 64; ++i) if(buf[i] != std::byte(0x5c)) { vh::fail("wrote beyond the request"); return; }
			left -= n;
			if(left == 0) { q.erase(q.begin()); started = false; }
		}
	}
}
static void concurrent(int writers, int blocks, int how)
{
	vh::begin("concurrent: " + std::to_string(writers) + " writers of " + std::to_string(blocks) + " blocks, pattern " + std::to_string(how) + ", run " + std::to_string(vh::evals));
	Io::Fifo<char> f;
	std::vector<size_t> sizes;
	for(int i = 0; i < 64; ++i) sizes.push_back(1 + vh::below(9));
	std::vector<std::thread> ts;
	std::atomic<int> running{writers};
	for(int w = 0; w < writers; ++w)
		ts.emplace_back([&, w]() {
			for(int b = 0; b < blocks; ++b)
			{
				if(how == 1) usleep(300);
				if(how == 2 && b % 3 == 0) usleep(50);
				size_t n = 1 + size_t(w * 7 + b * 3) % 6;
				std::string d = "<" + std::string(1, char('A' + w)) + std::to_string(b) + ":" + std::string(n, char('a' + w)) + ">";
				write(f, d.data(), d.size());
			}
			if(--running == 0) f.stop();
		});
	std::string got;
	size_t k = 0;
	while(true)
	{
		char buf[16];
		auto n = read(f, buf, sizes[k++ % 64]);
		if(n == 0) break;
		got.append(buf, n);
	}
	for(auto& t : ts) t.join();
	std::vector<int> next(size_t(writers), 0);
	size_t p = 0;
	while(p < got.size())
	{
		size_t w = size_t(got[p + 1] - 'A');
		if(w >= size_t(writers)) break;
		int b = next[w]++;
		size_t n = 1 + size_t(int(w) * 7 + b * 3) % 6;
		std::string d = "<" + std::string(1, char('A' + w)) + std::to_string(b) + ":" + std::string(n, char('a' + w)) + ">";
		if(got.compare(p, d.size(), d) != 0) break;
		p += d.size();
	}
	bool all = p == got.size();
	for(auto x : next) all = all && x == blocks;
	vh::expect(all, "not a concatenation of the blocks written: " + vh::show(got.substr(0, 500)));
}
// a reader that is already waiting is woken by each kind of write
static void wake(int kind)
{
	vh::begin("a reader waits, then write of kind " + std::to_string(kind));
	Io::Fifo<char> f;
	char buf[8];
	size_t got = 99;
	std::thread t{[&]() { got = read(f, buf, 4); }};
	usleep(20000);
	if(kind == 0) write(f, "abcdef", 6);
	if(kind == 1) f.stop();
	if(kind == 2) write(f, "", 0);
	t.join();
	vh::expect(got == (kind == 0 ? 4u : 0u), "read returned " + std::to_string(got));
}
int main()
{
	vh::init("random single-threaded histories of up to 30 operations against a queue model; 1 to 4 concurrent writers under ThreadSanitizer; wake-up of a blocked reader; non-trivial: all");
	for(int k = 0; k < 3; ++k) wake(k);
	for(int i = 0; i < (vh::thorough ? 500000 : 20000) && vh::elapsed() < vh::budget / 2; ++i) sequential();
	for(int i = 0; i < (vh::thorough ? 3000 : 150) && vh::more(); ++i) concurrent(1 + i % 4, 20 + int(vh::below(60)), i % 3);
	return vh::done();
}
