#include <condition_variable>
#include <mutex>
#include <memory>
#include <string>
#include "core/sched/event.hpp"
#include "core/sched/signaling_counter.hpp"
#include "core/sched/thread_pool.hpp"
using namespace Maike::Sched;
namespace spec
{
	using Cnt = SignalingCounter<size_t>;
	using Res = AsyncTaskResult<int>;
	void* ev_mtx(Event& e) { return &e.m_mtx; }
	void* ev_cv(Event& e) { return &e.m_cv; }
	bool ev_get(Event& e) { return e.m_status; }
	void ev_put(Event& e, bool v) { e.m_status = v; }
	void ev_make(void* p) { new(p) Event{}; }
	void ev_wait(Event& e) { e.waitAndReset(); }
	void ev_set(Event& e) { e.set(); }

	void* cn_mtx(Cnt& e) { return &e.m_mtx; }
	void* cn_cv(Cnt& e) { return &e.m_cv; }
	size_t cn_get(Cnt& e) { return e.m_value; }
	void cn_put(Cnt& e, size_t v) { e.m_value = v; }
	void cn_make(void* p, size_t n) { new(p) Cnt{n}; }
	void cn_wait(Cnt& e, size_t v) { e.wait(v); }
	Cnt& cn_inc(Cnt& e) { return ++e; }
	Cnt& cn_dec(Cnt& e) { return --e; }
	bool cn_eq(Cnt const& e, size_t v) { return e == v; }
	bool cn_ne(Cnt const& e, size_t v) { return e != v; }
	void cn_lock(Cnt& e) { e.lock(); }
	void cn_unlock(Cnt& e) { e.unlock(); }

	void* re_mtx(Res& e) { return &e.m_mtx; }
	void* re_cv(Res& e) { return &e.m_cv; }
	bool re_has(Res& e) { return e.m_result._M_payload._M_engaged; }
	void re_has_put(Res& e, bool v) { e.m_result._M_payload._M_engaged = v; }
	int re_val(Res& e) { return e.m_result._M_payload._M_payload._M_value; }
	int* re_valp(Res& e) { return &e.m_result._M_payload._M_payload._M_value; }
	void re_val_put(Res& e, int v) { e.m_result._M_payload._M_payload._M_value = v; }
	void* re_exc(Res& e) { return e.m_except._M_exception_object; }
	void re_exc_put(Res& e, void* p) { e.m_except._M_exception_object = p; }
	void re_make(void* p) { new(p) Res{}; }
	int const* re_get(Res const& e) { return &e.get(); }
	int re_take(Res& e) { return e.take(); }
	void re_set(Res& e, int v) { e.set(std::move(v)); }
	void re_fail(Res& e, void* p) { std::exception_ptr x; x._M_exception_object = p; e.set(x); }
	void re_destroy(Res& e) { e.~Res(); }
}
