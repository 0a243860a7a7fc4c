#include "core/sched/thread_pool.hpp"
using namespace Maike::Sched;
namespace spec
{
	using P = ThreadPool;
	using F = Maike::UniqueFunction<void()>;
	using Res = AsyncTaskResult<int>;
	struct Job { int id; Job(Job&&) = default; Job(Job const&) = delete; void operator()(); };
	struct IntJob { int id; IntJob(IntJob&&) = default; IntJob(IntJob const&) = delete; int operator()(); };
	void task_cb(void*);
	void task_dtor(void*) noexcept;
	F& pushed();
	void* tp_mtx(P& p) { return &p.m_mtx; }
	void* tp_cv(P& p) { return &p.m_cv; }
	void* tp_emtx(P& p) { return &p.m_eptr_mtx; }
	void* tp_queue(P& p) { return &p.m_tasks; }
	bool tp_term(P& p) { return p.m_terminate; }
	void tp_term_put(P& p, bool v) { p.m_terminate = v; }
	void* tp_eptr(P& p) { return p.m_eptr._M_exception_object; }
	void tp_eptr_put(P& p, void* x) { p.m_eptr._M_exception_object = x; }
	int tp_n(P& p) { return p.m_n_threads; }
	void tp_n_put(P& p, int n) { p.m_n_threads = n; }
	pthread_t* tp_threads(P& p) { return p.m_threads.get(); }
	void tp_threads_put(P& p, pthread_t* t) { p.m_threads._M_t._M_ptr() = t; }
	void uf_fill(F& f, void* p) { f.m_data = p; f.r_callback = task_cb; f.r_dtor = task_dtor; }
	void uf_move(void* dst, F& src) { new(dst) F{std::move(src)}; }
	void uf_destroy(F& f) { f.~F(); }
	bool uf_valid(F const& f) { return f.valid(); }

	P& tp_add(P& p, Job& j) { return p.addTask(std::move(j)); }
	void tp_add_run(P& p, Job& j) { p.addTask(std::move(j)); pushed()(); }
	P& tp_addres(P& p, IntJob& j, Res& r) { return p.addTask(std::move(j), r); }
	void tp_addres_run(P& p, IntJob& j, Res& r) { p.addTask(std::move(j), r); pushed()(); }
	void* tp_take(P& p) { auto x = p.takeLastException(); return x._M_exception_object; }
	void tp_make(void* p, int n) { Maike::ThreadCount c; c.m_val = n; new(p) P{c}; }
	void tp_destroy(P& p) { p.~P(); }
	size_t tp_count(P const& p) { return p.count(); }
}
