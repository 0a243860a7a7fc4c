#include "core/source_tree_loader/directory_scanner.cpp"
#include "core/source_tree_loader/input_filter.cpp"
using namespace Maike;
namespace spec
{
	using D = SourceTreeLoader::DirectoryScanner;
	using F = SourceTreeLoader::InputFilter;
	using Lock = std::unique_lock<Sched::SignalingCounter<size_t>>;
	using V = std::pair<fs::path const, Db::SourceFileInfo>;
	fs::path& root(D& d) { return d.m_root; }
	F const& filter(D const& d) { return d.r_filter.get(); }
	F const& dir_filter(D const& d) { return d.r_dir_filter.get(); }
	SourceTreeLoader::SourceFileLoaderDelegator const& loaders(D const& d) { return d.r_loaders.get(); }
	bool recursive(D const& d) { return d.m_recursive; }
	void* counter(D& d) { return &d.m_counter; }
	void* files(D& d) { return &d.m_source_files; }
	void* files_mtx(D& d) { return &d.m_source_files_mtx; }
	void* errlog(D& d) { return &d.m_errlog; }
	void* errlog_mtx(D& d) { return &d.m_errlog_mtx; }
	Sched::ThreadPool* workers(D& d) { return d.r_workers; }
	void lock_init(Lock* l, Sched::SignalingCounter<size_t>* c) { new(l) Lock{*c, std::adopt_lock}; }
	bool lock_owns(Lock& l) { return l.owns_lock(); }
	void* lock_mutex(Lock& l) { return l.mutex(); }
	fs::path const& in_key(std::pair<fs::path, Db::SourceFileInfo> const& v) { return v.first; }
	Db::SourceFileInfo const& in_value(std::pair<fs::path, Db::SourceFileInfo> const& v) { return v.second; }
	fs::path const& node_key(V const& v) { return v.first; }
	Db::SourceFileInfo const& node_value(V const& v) { return v.second; }
	fs::path const& entry_path(fs::directory_entry const& e) { return e.path(); }
	std::string const& errors(D::ScanException const& e) { return e.m_errors; }
	void take(D& d, Db::SourceFileList* res) { new(res) Db::SourceFileList{d.takeResult()}; }
	std::vector<std::regex> const& compiled(F const& f) { return f.m_input_filters; }
	std::vector<std::string> const& sources(F const& f) { return f.m_input_filters_src; }
	int basic() { return std::regex_constants::basic; }
}
