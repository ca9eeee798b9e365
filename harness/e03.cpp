// E03: loop, inline and thread executors
#include "ex.hpp"
#ifdef VS_USER
#include <boost/thread/user_scheduler.hpp>
typedef boost::user_scheduler loop_executor;   // the older name of the loop, the same contract
#else
using boost::executors::loop_executor;
#endif
using boost::executors::inline_executor; using boost::executors::thread_executor;
static int refused(int i) { return !vs_get(ACC0 + i); }
#ifndef VS_USER
// --- inline
SCENARIO(inl, vs_opt().bound(0, 0).leak()) { { inline_executor e; vs_assert(!e.closed()); int me = vs_self(); int f = vs_choose(NSUB - 1); vs_assert(sub(e, f, 0)); vs_assert(vs_get(RAN0) == 1); int who = -1; e.submit([&] { who = vs_self(); }); vs_assert(who == me); vs_assert(!e.try_executing_one()); vs_assert(!e.reschedule_until([] { return true; })); e.close(); vs_assert(e.closed()); vs_assert(!sub(e, vs_choose(NSUB - 1), 1)); if (vs_choose(2)) e.close(); } all_ran(2); clean(); }
SCENARIO(inl_race, vs_opt().bound(3, 4).leak()) { { inline_executor e; vs_run([&] { if (sub(e, 0, 0)) vs_assert(vs_get(RAN0)); if (sub(e, 3, 1)) { vs_assert(!refused(0)); vs_assert(vs_get(RAN0 + 1)); } }, [&] { e.close(); vs_assert(e.closed() && !sub(e, 2, 2)); }); } all_ran(3); clean(); }
SCENARIO(inl_nested, vs_opt().bound(0, 0).leak()) { { inline_executor e; e.submit([&] { vs_assert(!e.closed()); sub(e, 0, 0); vs_assert(vs_get(RAN0)); if (vs_choose(2)) { e.close(); vs_assert(!sub(e, 0, 1)); } else sub(e, 0, 1); }); } all_ran(2); clean(); }
SCENARIO(inl_parallel, vs_opt().bound(2, 3).leak()) { { inline_executor e; vs_t a([&] { e.submit([&] { vs_set(45, 1); vs_await(46, 1); }); }), b([&] { e.submit([&] { vs_await(45, 1); vs_assert(!e.closed()); vs_set(46, 1); }); }); a.join(); b.join(); } }
SCENARIO(inl_throws, vs_opt().bound(0, 0)) { inline_executor e; int k = vs_choose(2); vs_expect_terminate(1); if (k) e.submit([] { throw Ex(1); }); else e.submit(+[] { throw Ex(1); }); vs_fail("a throwing closure did not terminate"); }
// --- thread
SCENARIO(thr, vs_opt().bound(2, 3).leak().secs(40, 300)) { { thread_executor e; vs_assert(!e.closed()); sub(e, vs_choose(NSUB - 1), 0); sub(e, vs_choose(NSUB - 1), 1); if (vs_choose(2)) { e.close(); vs_assert(e.closed() && !sub(e, vs_choose(NSUB - 1), 2)); } vs_assert(!e.try_executing_one()); } all_ran(3); vs_assert(vs_nthreads_alive() == 1); clean(); }
SCENARIO(thr_three, vs_opt().bound(1, 2).leak().secs(40, 300)) { { thread_executor e; for (int i = 0; i < 3; i++) sub(e, 0, i); } all_ran(3); vs_assert(vs_nthreads_alive() == 1); clean(); }
SCENARIO(thr_own, vs_opt().bound(2, 3).leak()) { int me = vs_self(); { thread_executor e; e.submit([&] { vs_assert(vs_self() != me); vs_set(45, 1); vs_await(46, 1); ran(0); }); e.submit([&] { vs_await(45, 1); vs_set(46, 1); ran(1); }); } vs_set(ACC0, 1); vs_set(ACC0 + 1, 1); all_ran(2); }
SCENARIO(thr_race, vs_opt().bound(2, 3).leak().secs(40, 300)) { { thread_executor e; vs_run([&] { bool a = sub(e, 0, 0), b = sub(e, 2, 1); vs_assert(a || !b); }, [&] { e.close(); vs_assert(e.closed() && !sub(e, 3, 2)); }); } all_ran(3); clean(); }
SCENARIO(thr_submitters, vs_opt().bound(2, 3).leak().secs(40, 300)) { { thread_executor e; vs_run([&] { vs_assert(sub(e, 0, 0)); }, [&] { vs_assert(sub(e, 0, 1)); }); } all_ran(2); clean(); }
SCENARIO(thr_visible, vs_opt().bound(2, 3)) { Data a; int pre = 7; { thread_executor e; e.submit([&] { vs_assert(pre == 7); a.bump(); }); } vs_assert(a.a == 1); }
// a task may look at its executor while it ends
SCENARIO(thr_looks, vs_opt().bound(2, 3).leak()) { { thread_executor e; e.submit([&] { bool c = e.closed(); (void)c; ran(0); }); vs_set(ACC0, 1); } all_ran(1); }
SCENARIO(thr_nested, vs_opt().bound(2, 3).leak()) { { thread_executor e; e.submit([&] { sub(e, 0, 1); ran(0); }); vs_set(ACC0, 1); if (vs_choose(2)) vs_await(RAN0, 1); } vs_assert(vs_get(RAN0)); all_ran(2); clean(); }
SCENARIO(thr_fail, vs_opt().bound(1, 2).leak().faults(VSF_CREATE | VSF_MALLOC, 1).secs(40, 300)) { { thread_executor e; for (int i = 0; i < 2; i++) { vs_fault_window(VSF_CREATE | VSF_MALLOC); int r = OKOF(e.submit(Task(i))); vs_fault_window(0); vs_set(ACC0 + i, r == OK); } vs_assert(!e.closed()); vs_assert(sub(e, 0, 2)); } all_ran(3); vs_assert(vs_nthreads_alive() == 1); clean(); }
SCENARIO(thr_throws, vs_opt().bound(0, 1)) { thread_executor e; e.submit([] { vs_expect_terminate(1); throw Ex(1); }); vs_quiesce(); vs_fail("a throwing closure did not terminate"); }
#endif
// --- loop
SCENARIO(loop_1, vs_opt().bound(3, 4).leak().secs(40, 300)) { { loop_executor e; vs_t t([&] { e.loop(); vs_assert(e.closed()); }); sub(e, vs_choose(NSUB), 0); sub(e, vs_choose(NSUB), 1); e.close(); vs_assert(e.closed() && !sub(e, vs_choose(NSUB), 2)); t.join(); all_ran(3); } clean(); }
SCENARIO(loop_race, vs_opt().bound(2, 3).leak().secs(40, 300)) { { loop_executor e; vs_t t([&] { e.loop(); }), s([&] { bool a = sub(e, 0, 0), b = sub(e, 2, 1); vs_assert(a || !b); }); e.close(); t.join(); s.join(); all_ran(2); } clean(); }
SCENARIO(loop_two, vs_opt().bound(2, 3).leak().secs(40, 300)) { { loop_executor e; vs_t t([&] { e.loop(); }), u([&] { e.loop(); }); sub(e, 0, 0); sub(e, 2, 1); e.close(); t.join(); u.join(); all_ran(2); } clean(); }
SCENARIO(loop_submitters, vs_opt().bound(2, 3).leak().secs(40, 300)) { { loop_executor e; vs_t t([&] { e.loop(); }); vs_run([&] { sub(e, 0, 0); }, [&] { sub(e, 0, 1); sub(e, 0, 2); }); e.close(); t.join(); all_ran(3); } clean(); }
// in the thread that runs the loop, in order
SCENARIO(loop_order, vs_opt().bound(2, 3).leak()) { { loop_executor e; int who = -1, n = 0; vs_t t([&] { who = vs_self(); e.loop(); }); for (int i = 0; i < 3; i++) e.submit([&, i] { vs_assert(vs_self() == who); vs_assert_msg(n == i, "task %d ran at place %d", i, n); n++; }); e.close(); t.join(); vs_assert(n == 3); } }
SCENARIO(loop_self, vs_opt().bound(0, 0).leak()) { { loop_executor e; int n = vs_choose(4); for (int i = 0; i < n; i++) sub(e, vs_choose(NSUB), i); int k = vs_choose(4); if (k == 0) { int c = 0; while (e.try_executing_one()) c++; vs_assert(c == n); } else if (k == 1) { e.close(); e.loop(); } else if (k == 2) { if (vs_choose(2)) e.close(); e.run_queued_closures(); vs_assert(!e.try_executing_one()); } else { int c = 0; bool r = e.reschedule_until([&] { return ++c == n; }); vs_assert(r == (n > 0) && c == n); } all_ran(n); } clean(); }
SCENARIO(loop_queued, vs_opt().bound(2, 3).leak()) { { loop_executor e; sub(e, 0, 0); vs_run([&] { e.run_queued_closures(); }, [&] { sub(e, 0, 1); if (vs_choose(2)) while (e.try_executing_one()) {} }); e.close(); e.loop(); all_ran(2); } clean(); }
// closures submitted while run_queued_closures runs are left for later
SCENARIO(loop_queued_nested, vs_opt().bound(0, 0).leak()) { { loop_executor e; e.submit([&] { ran(0); sub(e, 0, 1); }); e.run_queued_closures(); vs_assert(vs_get(RAN0) && !vs_get(RAN0 + 1)); vs_assert(e.try_executing_one()); vs_assert(vs_get(RAN0 + 1)); } clean(); }
SCENARIO(loop_nested, vs_opt().bound(2, 3).leak()) { { loop_executor e; e.submit([&] { sub(e, 0, 1); ran(0); }); vs_set(ACC0, 1); vs_t t([&] { e.loop(); }); if (vs_choose(2)) { e.close(); } else { vs_await(RAN0 + 1, 1); e.close(); } t.join(); all_ran(2); } clean(); }
SCENARIO(loop_close_inside, vs_opt().bound(1, 2).leak()) { { loop_executor e; e.submit([&] { ran(0); e.close(); }); vs_set(ACC0, 1); sub(e, 0, 1); e.loop(); all_ran(2); } clean(); }
SCENARIO(loop_idle, vs_opt().bound(2, 3).leak()) { loop_executor e; vs_t t([&] { e.loop(); }); if (vs_choose(2)) vs_quiesce(); e.close(); t.join(); }
SCENARIO(loop_dropped, vs_opt().bound(0, 0).leak()) { { loop_executor e; sub(e, vs_choose(NSUB), 0); } vs_assert(!vs_get(RAN0)); clean(); }
#ifndef VS_USER
SCENARIO(loop_throws, vs_opt().bound(0, 0)) { loop_executor e; e.submit([] { throw Ex(1); }); vs_expect_terminate(1); if (vs_choose(2)) e.try_executing_one(); else { e.close(); e.loop(); } vs_fail("a throwing closure did not terminate"); }
// --- through the polymorphic faces
template <class X, class E> static void face(E&& drain, bool imm) { { X e; boost::executors::generic_executor_ref r(e); boost::executors::generic_executor_ref c(r); vs_assert(sub(r, vs_choose(NSUB), 0)); if (imm) vs_assert(vs_get(RAN0)); vs_assert(sub(c, vs_choose(NSUB), 1)); r.close(); vs_assert(e.closed() && c.closed() && !sub(c, vs_choose(NSUB), 2)); drain(e); } all_ran(3); clean(); }
SCENARIO(faces, vs_opt().bound(0, 1).leak()) { int k = vs_choose(3); if (k == 0) face<inline_executor>([](inline_executor&) {}, true); else if (k == 1) face<thread_executor>([](thread_executor&) {}, false); else face<loop_executor>([](loop_executor& e) { e.loop(); }, false); }
template <class X, class E> static void adapt(E&& drain) { { boost::executors::executor* e = new boost::executors::executor_adaptor<X>(); vs_assert(sub(*e, vs_choose(NSUB), 0)); vs_assert(sub(*e, vs_choose(NSUB), 1)); e->close(); vs_assert(e->closed() && !sub(*e, vs_choose(NSUB), 2)); drain(*e); delete e; } all_ran(3); clean(); }
SCENARIO(adaptors, vs_opt().bound(0, 1).leak()) { int k = vs_choose(3); auto no = [](boost::executors::executor&) {}; if (k == 0) adapt<inline_executor>(no); else if (k == 1) adapt<thread_executor>(no); else adapt<loop_executor>([](boost::executors::executor& e) { while (e.try_executing_one()) {} }); }
// async through each
SCENARIO(async_on, vs_opt().bound(1, 2).leak()) { { int k = vs_choose(3), t = vs_choose(2); auto f = [t] { if (t) throw Ex(3); return Obj(7); }; int want = t ? EXC + 3 : 7, r; if (k == 0) { inline_executor e; fut<Obj> x = boost::async(e, f); vs_assert(x.is_ready()); r = fetch<Obj>(x); } else if (k == 1) { thread_executor e; fut<Obj> x = boost::async(e, f); r = fetch<Obj>(x); } else { loop_executor e; fut<Obj> x = boost::async(e, f); vs_assert(!x.is_ready()); e.close(); e.loop(); vs_assert(x.is_ready()); r = fetch<Obj>(x); } vs_assert_msg(r == want, "gave %d", r); } clean(); }
#endif
