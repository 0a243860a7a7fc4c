#include "core/utils/fs.cpp"
#include <string_view>
using namespace Maike;
namespace spec
{
	// stands for every dictionary: configured extensions, each with a position; 0 is the end
	struct It
	{
		size_t pos;
		bool operator==(It o) const { return pos == o.pos; }
		bool operator!=(It o) const { return pos != o.pos; }
	};
	struct Dict
	{
		It find(std::string_view) const;
		It begin() const;
		It end() const { return It{0}; }
	};
	It match(fs::path const& p, Dict const& d) { return matchLongestExtension(p, d); }
}
