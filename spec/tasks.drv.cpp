#include "core/db/dependency_graph.cpp"
#include "core/db/task.cpp"
#include "core/db/task_list.cpp"
using namespace Maike;
namespace spec
{
	using TL = Db::TaskList;
	using R = Db::TaskResult;
	using Deps = std::vector<Db::Dependency>;
	int pending() { return static_cast<int>(R::Pending); }
	int success() { return static_cast<int>(R::Success); }
	int failure() { return static_cast<int>(R::Failure); }
	R task_status(Db::Task& t, TL const& l) { return t.status(l); }
	void set_results(TL& l, std::atomic<R>* p) { new(&l.m_results) std::unique_ptr<std::atomic<R>[]>{p}; }
	int result(std::atomic<R> const& p) { return static_cast<int>(p.load()); }
	std::atomic<R>* result_at(std::atomic<R>* p, size_t k) { return p + k; }
	void* list(TL& l) { return &l.m_tasks; }
	void set_log(TL& l, Db::CompilationLog& p) { new(&l.m_compilation_log) std::reference_wrapper<Db::CompilationLog>{p}; }
	Deps const& build_deps(Db::Task const& t) { return t.m_node.sourceFileInfo().buildDeps(); }
	Deps const& use_deps(Db::Task const& t) { return t.m_use_deps; }
	size_t dep_ref(Db::Dependency const& d) { return d.m_ref.m_value; }
	size_t node_id(Db::Task const& t) { return t.m_node.m_id.m_value; }
	void node_copy(Db::Task& d, Db::Task const& s) { new(&d.m_node) Db::SourceFileRecordConst{s.m_node}; }
	void opt_none(std::optional<Exec::Result>* p) { new(p) std::optional<Exec::Result>{}; }
	void res_copy(Exec::Result* d, Exec::Result const& s) { new(&d->m_status) Exec::ExitStatus{s.m_status}; }
	void res_set(std::optional<Exec::Result>* p, int signo, int code)
	{
		new(p) std::optional<Exec::Result>{};
		p->_M_payload._M_engaged = true;
		auto& s = p->_M_payload._M_payload._M_value.m_status;
		s.m_signo = signo;
		s.m_return_code = code;
	}
	void eptr_set(std::exception_ptr& p, void* q) { p._M_exception_object = q; }
	void* eptr_get(std::exception_ptr& p) { return p._M_exception_object; }
	size_t do_process(TL& l, Sched::ThreadPool& w, Db::Invoker i, bool f) { return l.process(w, i, Db::Task::ForceRecompilation{f}); }
	using Rec = Db::SourceFileRecordConst;
	void rec_make(Rec* r, size_t k, fs::path const& p, Db::SourceFileInfo const& i) { new(r) Rec{Db::SourceFileId{k}, p, i}; }
	std::vector<Db::TargetInfo> const& targets(Rec const& r) { return r.sourceFileInfo().targets(); }
	size_t rec_id(Rec const& r) { return r.m_id.m_value; }
	void const* rec_info(Rec const& r) { return r.r_src_file_info; }
	Rec const& task_node(Db::Task const& t) { return t.m_node; }
	fs::path const& dep_name(Db::Dependency const& d) { return d.m_name; }
	std::atomic<R>* results(TL& l) { return l.m_results.get(); }
	void task_init(Db::Task& d, Rec const& r) { new(&d.m_node) Rec{r}; }
}
