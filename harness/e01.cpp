// E01: thread pools
#include "ex.hpp"
typedef boost::executors::executor_adaptor<basic_thread_pool> AP;
SCENARIO(one_worker, vs_opt().bound(2, 3).leak().secs(40, 300)) { { int f = vs_choose(NSUB), g = vs_choose(2); { basic_thread_pool p(1); vs_assert(sub(p, f, 0)); vs_assert(sub(p, g, 1)); } all_ran(2); } clean(); }
SCENARIO(two_workers, vs_opt().bound(2, 3).leak().secs(40, 300)) { { { basic_thread_pool p(2); vs_assert(sub(p, 0, 0)); vs_assert(sub(p, 2, 1)); } all_ran(2); } clean(); }
SCENARIO(two_workers_three, vs_opt().bound(1, 2).leak().secs(40, 300)) { { { basic_thread_pool p(2); for (int i = 0; i < 3; i++) vs_assert(sub(p, 0, i)); } all_ran(3); } clean(); }
// submitters racing with each other
SCENARIO(submitters, vs_opt().bound(2, 3).leak().secs(40, 300)) { { { basic_thread_pool p(1); int f = vs_choose(NSUB); vs_run([&] { vs_assert(sub(p, f, 0)); }, [&] { vs_assert(sub(p, 0, 1)); vs_assert(sub(p, 1, 2)); }); } all_ran(3); } clean(); }
SCENARIO(submitters2, vs_opt().bound(1, 2).leak().secs(40, 300)) { { { basic_thread_pool p(2); vs_run([&] { vs_assert(sub(p, 0, 0)); }, [&] { vs_assert(sub(p, 0, 1)); }); } all_ran(2); } clean(); }
// close: what was accepted runs, the rest is refused
SCENARIO(close_race, vs_opt().bound(2, 3).leak().secs(40, 300)) { { { basic_thread_pool p(1); vs_t s([&] { sub(p, 0, 0); sub(p, 2, 1); }); p.close(); vs_assert(p.closed()); vs_assert(!sub(p, vs_choose(NSUB), 2)); s.join(); } all_ran(3); } clean(); }
SCENARIO(close_race2, vs_opt().bound(1, 2).leak().secs(40, 300)) { { { basic_thread_pool p(2); vs_t s([&] { sub(p, 0, 0); sub(p, 0, 1); }); p.close(); s.join(); } all_ran(2); } clean(); }
// close, join: everything has run when join returns
SCENARIO(close_join, vs_opt().bound(2, 3).leak().secs(40, 300)) { { { basic_thread_pool p(1 + vs_choose(2)); int k = vs_choose(3); vs_assert(!p.closed()); sub(p, 0, 0); sub(p, 0, 1); p.close(); if (k == 0) p.join(); else if (k == 1) p.interrupt_and_join(); else { p.interrupt(); p.join(); } all_ran(2); vs_assert(p.closed() && !sub(p, 0, 2)); if (vs_choose(2)) p.close(); } all_ran(3); } clean(); }
SCENARIO(join_elsewhere, vs_opt().bound(2, 3).leak().secs(40, 300)) { { { basic_thread_pool p(1); vs_t j([&] { p.join(); vs_assert(p.closed()); all_ran(2); }); sub(p, 0, 0); sub(p, 0, 1); p.close(); j.join(); } all_ran(2); } clean(); }
// the tasks' effects are visible to whoever joined
SCENARIO(visible, vs_opt().bound(2, 3).leak().secs(40, 300)) { Data a, b; { basic_thread_pool p(2); int k = vs_choose(2); p.submit([&] { a.bump(); }); p.submit([&] { b.bump(); }); if (k) { p.close(); p.join(); vs_assert(a.a == 1 && b.a == 1); } } vs_assert(a.a == 1 && b.a == 1); a.check(); b.check(); }
// tasks that submit tasks
SCENARIO(nested, vs_opt().bound(2, 3).leak().secs(40, 300)) { { { basic_thread_pool p(1 + vs_choose(2)); p.submit([&] { ran(0); sub(p, 0, 1); }); vs_set(ACC0, 1); } all_ran(2); } clean(); }
// workers may help themselves or be helped
SCENARIO(help, vs_opt().bound(2, 3).leak().secs(40, 300)) { { { basic_thread_pool p(1); sub(p, 0, 0); sub(p, 0, 1); int k = vs_choose(2); bool r = k ? p.try_executing_one() : (p.schedule_one_or_yield(), true); if (r && k) vs_assert(vs_get(RAN0) || vs_get(RAN0 + 1)); } all_ran(2); } clean(); }
SCENARIO(reschedule, vs_opt().bound(2, 3).leak().secs(40, 300)) { { { basic_thread_pool p(1 + vs_choose(2)); int k = vs_choose(2); vs_set(ACC0, 1); vs_set(ACC0 + 1, 1); p.submit([&] { bool r = p.reschedule_until([&] { return vs_get(RAN0 + 1) != 0; }); if (r) vs_assert(vs_get(RAN0 + 1)); ran(0); }); if (k) p.submit(fn1); else { p.submit([&] { fn1(); }); } } all_ran(2); } clean(); }
// every worker runs the entry function first
static void entry_fn(basic_thread_pool& p) { vs_assert(!p.closed() || vs_get(19)); vs_add(ENTRY, 1); }
struct EntryMO { MO m; EntryMO() : m(new int(1)) {} EntryMO(EntryMO&& o) : m(std::move(o.m)) {} EntryMO(const EntryMO& o) : m(new int(*o.m)) {} void operator()(basic_thread_pool&) { vs_assert(!!m); vs_add(ENTRY, 1); } };
SCENARIO(entry, vs_opt().bound(1, 2).leak().secs(40, 300)) { { int n = 1 + vs_choose(2), k = vs_choose(2); if (k && n == 2) vs_cut(); { std::unique_ptr<basic_thread_pool> q; if (k == 0) q.reset(new basic_thread_pool(n, entry_fn)); else q.reset(new basic_thread_pool(n, EntryMO())); basic_thread_pool& p = *q; p.submit([&] { vs_assert(vs_get(ENTRY) >= 1); fn0(); }); vs_set(ACC0, 1); vs_set(19, 1); } vs_assert_msg(vs_get(ENTRY) == n, "entry ran %ld times", vs_get(ENTRY)); all_ran(1); } clean(); }
// a functor given as an rvalue to several workers
SCENARIO(entry_moved, vs_opt().bound(0, 0)) { { basic_thread_pool p(2, EntryMO()); } vs_assert(vs_get(ENTRY) == 2); }
SCENARIO(default_count, vs_opt().bound(0, 1).leak()) { vs_set_ncpu(1 + vs_choose(2)); { basic_thread_pool p; sub(p, 0, 0); } all_ran(1); }
SCENARIO(throws, vs_opt().bound(1, 2)) { vs_expect_terminate(1); basic_thread_pool p(1); p.submit([] { vs_expect_terminate(1); throw Ex(1); }); p.close(); p.join(); vs_fail("a throwing task did not terminate"); }
// an empty pool destroyed at once
SCENARIO(idle, vs_opt().bound(3, 4).leak()) { { basic_thread_pool p(1 + vs_choose(2)); } vs_quiesce(); vs_assert(vs_nthreads_alive() == 1); }
SCENARIO(no_workers, vs_opt().bound(0, 0).leak()) { { { basic_thread_pool p(0); sub(p, 0, 0); sub(p, 2, 1); vs_assert(p.try_executing_one() && vs_get(RAN0)); vs_assert(p.reschedule_until([] { return false; }) == false && vs_get(RAN0 + 1)); vs_assert(!p.try_executing_one()); } all_ran(2); } clean(); }
// through the polymorphic faces
template <class X> static void face(X& x) { int f = vs_choose(NSUB); vs_assert(!x.closed()); vs_assert(sub(x, f, 0)); int k = vs_choose(3); if (k == 0) x.try_executing_one(); if (k == 1) vs_assert(sub(x, 0, 1)); x.close(); vs_assert(x.closed() && !sub(x, vs_choose(NSUB), 2)); }
SCENARIO(adaptor, vs_opt().bound(1, 2).leak().secs(40, 300)) { { { AP p(1); face(p); } all_ran(3); } clean(); }
SCENARIO(adaptor_base, vs_opt().bound(1, 2).leak().secs(40, 300)) { { { boost::executors::executor* p = new AP(1); face(*p); delete p; } all_ran(3); } clean(); }
SCENARIO(generic_ref, vs_opt().bound(1, 2).leak().secs(40, 300)) { { { basic_thread_pool p(1); boost::executors::generic_executor_ref r(p), r2(r); face(r2); vs_assert(p.closed() && r.closed()); } all_ran(3); } clean(); }
SCENARIO(executor_ref, vs_opt().bound(1, 2).leak().secs(40, 300)) { { { basic_thread_pool p(1); boost::executors::executor_ref<basic_thread_pool> r(p); face(r); } all_ran(3); } clean(); }
SCENARIO(generic_twice, vs_opt().bound(1, 2).leak().secs(40, 300)) { { { AP p(1); boost::executors::generic_executor_ref r(p.underlying_executor()); { boost::executors::generic_executor_ref c(r); vs_assert(sub(c, 0, 0)); } vs_assert(sub(r, 2, 1)); } all_ran(2); } clean(); }
// async on a pool
SCENARIO(async_pool, vs_opt().bound(2, 3).leak().secs(40, 300)) { { { basic_thread_pool p(1); int k = vs_choose(2); fut<Obj> f = boost::async(p, [k] { ran(0); if (k) throw Ex(3); return Obj(7); }); vs_set(ACC0, 1); int r = fetch<Obj>(f); vs_assert_msg(r == (k ? EXC + 3 : 7), "gave %d", r); p.close(); fut<Obj> g; int e = outcome([&] { g = boost::async(p, [] { ran(1); return Obj(1); }); return 0; }); vs_assert(e != 0); } all_ran(2); } clean(); }
// a scheduled pool: at most once, refused after close, no worker left
SCENARIO(scheduled, vs_opt().bound(2, 3).leak().secs(40, 300)) { { { boost::executors::scheduled_thread_pool p(1 + vs_choose(2)); int k = vs_choose(2); p.submit_at(boost::executors::work_pq(Task(0)), bc::steady_clock::now()); p.submit_after(boost::executors::work_pq(MTask(1)), ms(0)); if (k) { vs_quiesce(); vs_assert(vs_get(RAN0) && vs_get(RAN0 + 1)); } p.close(); vs_assert(p.closed()); try { p.submit_after(boost::executors::work_pq(Task(2)), ms(0)); vs_fail("accepted after close"); } catch (boost::sync_queue_is_closed&) {} } vs_assert(vs_nthreads_alive() == 1 && !vs_get(RAN0 + 2)); } clean(); }
SCENARIO(scheduled_race, vs_opt().bound(1, 2).leak().secs(40, 300)) { { { boost::executors::scheduled_thread_pool p(1); vs_t s([&] { for (int i = 0; i < 2; i++) try { p.submit_after(boost::executors::work_pq(Task(i)), ms(0)); vs_set(ACC0 + i, 1); } catch (boost::sync_queue_is_closed&) {} }); p.close(); s.join(); } for (int i = 0; i < 2; i++) vs_assert(vs_get(RAN0 + i) <= vs_get(ACC0 + i)); } clean(); }
// a thread cannot be created: the constructor throws and leaves no worker
SCENARIO(no_thread, vs_opt().bound(1, 2).leak().faults(VSF_CREATE, 1).secs(40, 300)) { int n = 1 + vs_choose(2), k = vs_choose(3); if (k == 2 && n == 2) vs_cut(); vs_fault_window(VSF_CREATE); vs_set(19, 1); int r = OKOF(if (k == 0) { basic_thread_pool p(n); } else if (k == 1) { basic_thread_pool p(n, entry_fn); } else { basic_thread_pool p(n, EntryMO()); }); vs_fault_window(0); vs_assert(r == OK || r == OTHER); vs_quiesce(); vs_assert_msg(vs_nthreads_alive() == 1, "a worker is left"); }
SCENARIO(no_thread_scheduled, vs_opt().bound(1, 2).leak().faults(VSF_CREATE, 1).secs(40, 300)) { int n = 1 + vs_choose(2); vs_fault_window(VSF_CREATE); int r = OKOF(boost::executors::scheduled_thread_pool p(n)); vs_fault_window(0); vs_assert(r == OK || r == OTHER); vs_quiesce(); vs_assert_msg(vs_nthreads_alive() == 1, "a worker is left"); }
// the destroying thread is interrupted: the pool is joined all the same
SCENARIO(destroy_interrupted, vs_opt().bound(2, 3).leak().secs(40, 300)) { { bool pend = false; thread t([&] { { basic_thread_pool p(1); sub(p, vs_choose(NSUB), 0); } all_ran(1); bool in = vs_get(46); pend = !in || boost::this_thread::interruption_requested(); }); t.interrupt(); vs_set(46, 1); t.join(); vs_assert_msg(pend, "the interruption is lost"); } clean(); }
SCENARIO(destroy_interrupted_sched, vs_opt().bound(2, 3).leak().secs(40, 300)) { { thread t([&] { boost::executors::scheduled_thread_pool p(1); }); t.interrupt(); t.join(); } vs_assert(vs_nthreads_alive() == 1); }
