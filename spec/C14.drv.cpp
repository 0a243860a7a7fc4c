#include "core/exec/command.hpp"
using namespace Maike::Exec;
namespace spec
{
	Maike::fs::path const* cmd_exe(Command const& c) { return &c.executable; }
	std::vector<std::string> const* cmd_args(Command const& c) { return &c.args; }
}
