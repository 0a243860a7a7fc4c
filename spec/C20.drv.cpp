#include "core/cmd_line_parser/command_line.hpp"
using namespace Maike;
using namespace Maike::CmdLineParser;
namespace spec
{
	void split(std::vector<fs::path>* ret, char const* str) { new(ret) std::vector<fs::path>(fromString(Empty<std::vector<fs::path>>{}, str)); }
	std::string& first(std::pair<std::string, char const*>& p) { return p.first; }
	char const*& second(std::pair<std::string, char const*>& p) { return p.second; }
}
