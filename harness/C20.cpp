// C20: command line arguments are taken apart without loss
// sources: core/cmd_line_parser/command_line.cpp core/build/id.cpp core/utils/system_time_stamp.cpp core/sched/thread_count.cpp core/utils/fs.cpp core/db/compilation_log.cpp core/db/log_format.cpp core/exec/command.cpp core/exec/execve.cpp core/key_value_store/compound.cpp core/key_value_store/array.cpp core/key_value_store/json_handle.cpp
#include "vh.hpp"
#include "core/bin/cmd_line_options.hpp"
#include "core/bin/config.hpp"
using namespace Maike;
using namespace Maike::CmdLineParser;
static std::vector<std::pair<int, std::string>> calls;
template<int K> static uint64_t conv(void* t, char const* s)
{
	vh::expect(t == &calls, "the converter got another object");
	calls.emplace_back(K, s);
	return uint64_t{1} << (K * 3);
}
static std::vector<std::string> split(std::string const& s)
{
	std::vector<std::string> r{""};
	for(size_t k = 0; k < s.size(); ++k)
	{
		if(s[k] == ',') { if(k + 1 < s.size()) r.push_back(""); }
		else if(s[k] == '\\') { if(k + 1 < s.size()) r.back() += s[++k]; }
		else r.back() += s[k];
	}
	return r;
}
static void list(std::string const& s)
{
	vh::begin("list value " + vh::show(s));
	auto got = CmdLineParser::fromString(Empty<std::vector<fs::path>>{}, s.c_str());
	auto want = split(s);
	bool ok = got.size() == want.size();
	for(size_t k = 0; ok && k < got.size(); ++k) ok = got[k].native() == want[k];
	std::string t;
	for(auto& x : got) t += vh::show(x.native()) + " ";
	vh::expect(ok, "split into " + t);
}
template<CmdLineOption... os> static void info(std::vector<std::string>& names, std::integer_sequence<CmdLineOption, os...>)
{
	(names.push_back(CmdLineOptionTraits<os>::name()), ...);
}
using CL = BasicCommandLine<CmdLineOption, CmdLineOptionTraits>;
int main()
{
	vh::init("list values over 6 characters up to length 7, then random ones up to 60; argument vectors over tables of up to 12 sorted option names (names that are prefixes of others included) up to 6 arguments; the option table of the tool; non-trivial: an argument that is not empty");
	static char const al[] = {',', '\\', 'a', ' ', '=', '\xff'};
	for(size_t len = 0; len <= 6 + vh::thorough; ++len)
	{
		size_t n = 1;
		for(size_t k = 0; k < len; ++k) n *= sizeof al;
		for(size_t c = 0; c < n && vh::more(); ++c)
		{
			std::string s;
			for(size_t k = 0, v = c; k < len; ++k, v /= sizeof al) s += al[v % sizeof al];
			list(s);
		}
	}
	static detail::StringToValue convs[] = {conv<0>, conv<1>, conv<2>, conv<3>, conv<4>, conv<5>, conv<6>, conv<7>, conv<8>, conv<9>, conv<10>, conv<11>};
	static char const na[] = {'-', 'a', 'b', 'c', '~', '\xe5'};
	for(int it = 0; it < (vh::thorough ? 400000 : 60000) && (vh::more() || it < 5000); ++it)
	{
		if(it % 4 == 0)
		{
			std::string s;
			for(size_t n = vh::below(61); n; --n) s += vh::coin(1, 3) ? al[vh::below(sizeof al)] : char(1 + vh::below(255));
			list(s);
		}
		std::vector<std::string> names;
		for(size_t n = 1 + vh::below(12); n; --n)
		{
			std::string s;
			for(size_t m = 1 + vh::below(5); m; --m) s += na[vh::below(sizeof na)];
			if(!names.empty() && vh::coin(1, 3)) s = names[vh::below(names.size())] + s;
			names.push_back(s);
		}
		std::sort(names.begin(), names.end());
		names.erase(std::unique(names.begin(), names.end()), names.end());
		std::vector<detail::OptItem> items;
		for(size_t k = 0; k < names.size(); ++k) items.push_back({names[k].c_str(), convs[k]});
		std::vector<std::string> args;
		std::string text = "options";
		for(auto& n : names) text += " " + vh::show(n);
		text += ", arguments";
		std::vector<std::pair<int, std::string>> want;
		uint64_t bits = 0;
		bool bad = false;
		for(size_t n = vh::below(6); n; --n)
		{
			std::string a, val;
			auto what = vh::below(12);
			if(what == 0) ;
			else
			{
				auto k = vh::below(names.size());
				a = names[k];
				if(what == 1)
				{
					a += na[vh::below(sizeof na)];
					bool hit = false;
					for(auto& x : names) hit = hit || x.compare(0, a.size(), a) == 0;
					if(hit) continue;             // an abbreviation or another option
				}
				if(vh::coin(2, 3))
				{
					for(size_t m = vh::below(8); m; --m) val += vh::coin() ? al[vh::below(sizeof al)] : char(1 + vh::below(255));
					a += '=' + val;
				}
				if(what == 1) bad = true;
				else if(!bad) { want.emplace_back(int(k), val); bits |= uint64_t{1} << (k * 3); }
			}
			args.push_back(a);
			text += " " + vh::show(a);
		}
		vh::begin(text, want.size() || bad);
		std::vector<char const*> av;
		for(auto& a : args) av.push_back(a.c_str());
		calls.clear();
		try
		{
			auto got = detail::collect_options(av.data(), av.data() + av.size(), items.data(), items.data() + items.size(), &calls);
			vh::expect(!bad, "accepted an argument that matches no option");
			vh::expect(got == bits, "reports other options as set");
		}
		catch(std::runtime_error const&) { vh::expect(bad, "rejected"); }
		std::string t;
		for(auto& x : calls) t += std::to_string(x.first) + ":" + vh::show(x.second) + " ";
		vh::expect(calls == want, "options received " + t);
	}
	// the tool's own options: every complete name selects its option only
	for(int v = 0; v < 3; ++v)
	{
		auto one = [&](auto tag, std::string const& arg, auto chk) {
			vh::begin("tool with argument " + vh::show(arg));
			std::string a0 = arg;
			char* av[] = {a0.data(), nullptr};
			try
			{
				CL c{1, av};
				size_t n = 0;
				c.forEachOption([&](char const*, auto const&) { ++n; });
				vh::expect(n == 1 && c.template hasOption<tag.value>(), "not exactly this option is set");
				vh::expect(chk(c.template option<tag.value>()), "other value");
			}
			catch(std::exception const& e) { vh::expect(false, std::string{"rejected: "} + e.what()); }
		};
#define PATH(o) one(std::integral_constant<CmdLineOption, CmdLineOption::o>{}, std::string{CmdLineOptionTraits<CmdLineOption::o>::name()} + "=" + vals[v], [&](auto const& x) { return x == fs::path{vals[v]}; });
		char const* vals[] = {"x", "a=b,c\\d", "--help"};
		PATH(Help) PATH(Version) PATH(About) PATH(PrintDepGraph) PATH(PrintDepGraphInv) PATH(DumpDatabase) PATH(ListTargets) PATH(ListExternalDeps) PATH(SourceDir) PATH(TargetDir) PATH(ConfigDump)
#define FLAG(o) one(std::integral_constant<CmdLineOption, CmdLineOption::o>{}, CmdLineOptionTraits<CmdLineOption::o>::name(), [](auto const&) { return true; });
		FLAG(ConfigDefault) FLAG(DryRun) FLAG(ForceRebuild)
		char const* lists[] = {"x,y", "a\\,b,c", "q"};
		std::vector<std::vector<fs::path>> ls{{"x", "y"}, {"a,b", "c"}, {"q"}};
#define LIST(o) one(std::integral_constant<CmdLineOption, CmdLineOption::o>{}, std::string{CmdLineOptionTraits<CmdLineOption::o>::name()} + "=" + lists[v], [&](auto const& x) { return x == ls[v]; });
		LIST(Targets) LIST(ConfigFiles)
	}
	return vh::done();
}
