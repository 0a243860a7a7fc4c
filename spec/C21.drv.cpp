#include "core/db/rebuild_policy.hpp"
#include "core/db/source_file_origin.hpp"
#include "core/db/log_format.hpp"
#include "core/db/compilation_log.hpp"
#include "core/source_file_info_loaders/generic/source_file_loader.hpp"
using namespace Maike;
namespace spec
{
#define PAIR(name, T, ns, E) \
	char const* name##_to(int v) { using namespace ns; return toString(static_cast<T>(v)); } \
	int name##_from(char const* s) { using namespace ns; return static_cast<int>(fromString(E<T>{}, s)); }
	PAIR(rebuild_policy, Db::RebuildPolicy, Maike::Db, KeyValueStore::Empty)
	PAIR(source_file_origin, Db::SourceFileOrigin, Maike::Db, KeyValueStore::Empty)
	PAIR(log_format, Db::LogFormat, Maike::Db, Empty)
	PAIR(log_level, Db::CompilationLog::LogLevel, Maike::Db, Empty)
	PAIR(ext_mode, Generic::FilenameExtReplacementMode, Generic, KeyValueStore::Empty)
}
