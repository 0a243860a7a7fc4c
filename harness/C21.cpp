// C21: text <-> value of the named settings
#include "vh.hpp"
#include "core/db/rebuild_policy.hpp"
#include "core/db/source_file_origin.hpp"
#include "core/db/log_format.hpp"
#include "core/db/compilation_log.hpp"
#include "core/source_file_info_loaders/generic/source_file_loader.hpp"
#include <algorithm>
#include <set>
using namespace Maike;
struct E { char const* name; std::vector<int> vals; std::string (*to)(int); int (*from)(char const*); };
#define ENT(nm, T, ns, Em, ...) E{nm, {__VA_ARGS__}, [](int v) { using namespace ns; return std::string{toString(static_cast<T>(v))}; }, \
	[](char const* s) { using namespace ns; return static_cast<int>(fromString(Em<T>{}, s)); }}
int main()
{
	vh::init("every value of every setting; every prefix, extension, one-character change, case change and transposition of every text, and random texts; non-trivial: a conversion of a text");
	using P = Db::RebuildPolicy; using O = Db::SourceFileOrigin; using F = Db::LogFormat; using L = Db::CompilationLog::LogLevel; using X = Generic::FilenameExtReplacementMode;
	std::vector<E> es{ENT("rebuild policy", P, Maike::Db, KeyValueStore::Empty, int(P::Always), int(P::OnlyIfOutOfDate)),
		ENT("origin", O, Maike::Db, KeyValueStore::Empty, int(O::Project), int(O::Generated), int(O::System), int(O::PkgConfig)),
		ENT("log format", F, Maike::Db, Empty, int(F::PlainText), int(F::AnsiTerm)),
		ENT("log level", L, Maike::Db, Empty, int(L::Errors), int(L::SourceFileInfo), int(L::CompilationCommand)),
		ENT("extension mode", X, Generic, KeyValueStore::Empty, int(X::Append), int(X::Replace))};
	std::vector<std::string> all;
	for(auto& e : es)
	{
		std::set<std::string> seen;
		for(int v : e.vals)
		{
			vh::begin(std::string{e.name} + " value " + std::to_string(v));
			auto t = e.to(v);
			all.push_back(t);
			vh::expect(seen.insert(t).second, "text " + vh::show(t) + " stands for two values");
			int r = -1;
			try { r = e.from(t.c_str()); } catch(...) { r = -2; }
			vh::expect(r == v, "text " + vh::show(t) + " read back as " + (r == -2 ? "an error" : std::to_string(r)));
		}
	}
	for(auto& e : es)
	{
		std::set<std::string> ok;
		for(int v : e.vals) ok.insert(e.to(v));
		auto bad = [&](std::string s) {
			s = s.c_str();
			if(ok.count(s)) return;
			vh::begin(std::string{e.name} + " text " + vh::show(s));
			bool rej = false;
			int r = 0;
			try { r = e.from(s.c_str()); } catch(std::exception const&) { rej = true; }
			vh::expect(rej, "accepted as value " + std::to_string(r));
		};
		bad("");
		for(auto const& t : all)
		{
			bad(t);
			for(size_t i = 0; i <= t.size(); ++i)
			{
				bad(t.substr(0, i)); bad(t.substr(i));
				for(int c = 1; c < 256; ++c)
				{
					auto u = t; u.insert(i, 1, char(c)); bad(u);
					if(i < t.size()) { u = t; u[i] = char(c); bad(u); }
				}
				if(i < t.size()) { auto u = t; u.erase(i, 1); bad(u); u = t; u[i] = char(u[i] ^ 0x20); bad(u); }
				if(i + 1 < t.size()) { auto u = t; std::swap(u[i], u[i + 1]); bad(u); }
			}
			auto u = t; for(auto& c : u) c = char(toupper(c)); bad(u);
			for(auto const& t2 : all) { bad(t + t2); bad(t + "," + t2); }
		}
		for(int i = 0; i < (vh::thorough ? 500000 : 20000); ++i)
		{
			std::string s;
			auto n = vh::below(20);
			for(size_t k = 0; k < n; ++k) s += "abcdefghijklmnopqrstuvwxyz_-"[vh::below(28)];
			bad(s);
		}
	}
	return vh::done();
}
