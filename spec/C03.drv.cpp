#include "core/utils/fs.cpp"
#include "core/db/target_info.cpp"
#include "core/db/source_file_record.cpp"
#include "core/db/task.cpp"
using namespace Maike;
namespace spec
{
	fs::path const& dep_name(Db::Dependency const& d) { return d.name(); }
	int dep_origin(Db::Dependency const& d) { return static_cast<int>(d.expectedOrigin()); }
	fs::path const& target_name(Db::TargetInfo const& t) { return t.name(); }
	fs::path const& rec_path(Db::SourceFileRecordConst const& r) { return r.path(); }
	std::vector<Db::TargetInfo> const& rec_targets(Db::SourceFileRecordConst const& r) { return r.sourceFileInfo().targets(); }
	int rec_policy(Db::SourceFileRecordConst const& r) { return static_cast<int>(r.sourceFileInfo().rebuildPolicy()); }
	Db::SourceFileRecordConst const& task_node(Db::Task const& t) { return t.m_node; }
	std::vector<Db::Dependency> const& task_deps(Db::Task const& t) { return t.m_use_deps; }
	Exec::Command const& task_cmd(Db::Task const& t) { return t.command(); }
	bool has_value(std::optional<Exec::Result> const& r) { return r.has_value(); }
	void run(Db::Task& t, bool force, Db::Invoker inv) { (void)t.runIfNecessary(Db::Task::ForceRecompilation{force}, inv); }
}
