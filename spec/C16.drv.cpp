#include "core/db/source_file_list.cpp"
using namespace Maike;
namespace spec
{
	using T = std::pair<fs::path const, Db::Target>;
	using F = std::pair<fs::path const, Db::SourceFileInfo>;
	fs::path const& file_name(F const& f) { return f.first; }
	Db::SourceFileInfo const& file_info(F const& f) { return f.second; }
	std::vector<Db::TargetInfo> const& file_targets(F const& f) { return f.second.targets(); }
	fs::path const& info_name(Db::TargetInfo const& t) { return t.name(); }
	fs::path const& in_key(std::pair<fs::path, Db::Target> const& v) { return v.first; }
	Db::Target const& in_value(std::pair<fs::path, Db::Target> const& v) { return v.second; }
	fs::path const& src(Db::Target const& t) { return t.m_src_filename; }
	Db::TargetInfo const* target(Db::Target const& t) { return &t.r_target.get(); }
	Db::SourceFileInfo const* info(Db::Target const& t) { return &t.r_src_file.get(); }
	Db::Target& node_value(T& v) { return v.second; }
	void node_make(T* v, fs::path const& k, fs::path const& s, Db::TargetInfo const& t, Db::SourceFileInfo const& i) { new(v) T{k, Db::Target{s, t, i}}; }
}
