// E04: scheduled work
#include "ex.hpp"
typedef bc::steady_clock SC; typedef bc::system_clock RC;
typedef boost::executors::work_pq WQ;
using boost::executors::scheduled_thread_pool;
enum { DUE0 = 50 };
static inline long nowns(SC) { return SC::now().time_since_epoch().count(); }
// task i: not before its due time, once, and (when time only passed because nothing else could run) promptly
template <class C> struct STask { Obj o; typename C::time_point due; int* pay; STask(int i, typename C::time_point d) : o(i), due(d), pay(new int(i)) {} STask(const STask& t) : o(t.o), due(t.due), pay(new int(*t.pay)) {} STask(STask&& t) : o(std::move(t.o)), due(t.due), pay(t.pay) { t.pay = 0; } ~STask() { delete pay; }
    void operator()() { vs_assert_msg(pay, "a task that was moved from runs"); vs_assert_msg(C::now() >= due, "task %d runs early", o.v); long late = (long)bc::duration_cast<bc::nanoseconds>(C::now() - due).count(); if (!vs_forced_tick() && !vs_get(19)) vs_assert_msg(late <= 1000, "task %d runs %ld ns late", o.v, late); ran(o.v); } };
struct SchedS : boost::executors::scheduler<SC> {}; struct SchedR : boost::executors::scheduler<RC> {};
struct Pool1 : scheduled_thread_pool { Pool1() : scheduled_thread_pool(1) {} }; struct Pool2 : scheduled_thread_pool { Pool2() : scheduled_thread_pool(2) {} };
struct Adap { boost::executors::inline_executor e; boost::executors::scheduling_adaptor<boost::executors::inline_executor> s; typedef SC clock; Adap() : s(e) { vs_assert(&s.underlying_executor() == &e); } template <class T> void submit_at(WQ w, T const& t) { s.submit_at(boost::move(w), t); } template <class T> void submit_after(WQ w, T const& t) { s.submit_after(boost::move(w), t); } void close() { s.close(); } bool closed() { return s.closed(); } };
// due after n*DL, by time point or duration
template <class X> static bool put(X& s, int i, int n, int form) { typedef typename X::clock C; typename C::time_point due = C::now() + ms(n * DL); try { if (form == 0) s.submit_at(WQ(STask<C>(i, due)), due); else s.submit_after(WQ(STask<C>(i, due)), ms(n * DL)); } catch (boost::sync_queue_is_closed&) { vs_set(ACC0 + i, 0); return false; } vs_set(ACC0 + i, 1); return true; }
static void wait_for(int i) { vs_await(RAN0 + i, 1); }
template <class X> static void one() { { X s; int n = vs_choose(2); if (n) vs_tick_at(DL * MS - vs_choose(2) * 100000 - 1); put(s, 0, n, vs_choose(2)); wait_for(0); vs_assert(!s.closed()); } vs_assert(vs_nthreads_alive() == 1); clean(); }
// two tasks in either order of time, the second while the worker may be asleep
template <class X> static void two() { { X s; int a = vs_choose(3), b = vs_choose(3); put(s, 0, a, 0); put(s, 1, b, 1); if (a <= b) { wait_for(1); if (a < b && !vs_get(18)) vs_assert(vs_get(RAN0)); wait_for(0); } else { wait_for(0); if (!vs_forced_tick() && !vs_get(18)) vs_assert(vs_get(RAN0 + 1)); wait_for(1); } } clean(); }
template <class X> static void submitters() { { X s; int a = vs_choose(2), b = vs_choose(2); vs_run([&] { put(s, 0, a, 0); }, [&] { put(s, 1, b, 1); }); wait_for(0); wait_for(1); } clean(); }
// a far task does not delay a near one; it is not run early by the end
template <class X> static void far_near() { { X s; { typedef typename X::clock C; s.submit_after(WQ(STask<C>(0, C::now() + ms(FAR_))), ms(FAR_)); } if (vs_choose(2)) vs_quiesce(); put(s, 1, vs_choose(2), vs_choose(2)); wait_for(1); if (!vs_forced_tick()) vs_assert(vs_now() < FAR_ * MS); } clean(); }
// closing: refused afterwards, at most once, never early
template <class X> static void closing() { vs_set(19, 1); { X s; vs_t t([&] { put(s, 0, vs_choose(2), vs_choose(2)); }); s.close(); vs_assert(s.closed() && !put(s, 1, 0, vs_choose(2))); t.join(); } vs_assert(vs_get(RAN0) <= vs_get(ACC0) && !vs_get(RAN0 + 1)); vs_assert(vs_nthreads_alive() == 1); clean(); }
template <class X> static void nested() { { X s; s.submit_after(WQ([&] { put(s, 1, 1, 0); ran(0); }), ms(DL)); wait_for(1); vs_assert(vs_get(RAN0)); if (!vs_forced_tick()) vs_assert(vs_now() <= 2 * DL * MS + 1000); } }
template <class X> static void visible() { Data d; { X s; s.submit_after(WQ([&] { d.bump(); vs_set(45, 1); }), ms(DL)); vs_await(45, 1); } d.bump(); vs_assert(d.a == 2); }
#define ALL(N, X) SCENARIO(one_##N, vs_opt().bound(2, 3).leak().secs(40, 300)) { one<X >(); } SCENARIO(two_##N, vs_opt().bound(1, 2).leak().secs(40, 300)) { two<X >(); } SCENARIO(submitters_##N, vs_opt().bound(1, 2).leak().secs(40, 300)) { submitters<X >(); } SCENARIO(far_near_##N, vs_opt().bound(1, 2).leak().secs(40, 300)) { far_near<X >(); } SCENARIO(closing_##N, vs_opt().bound(2, 3).leak().secs(40, 300)) { closing<X >(); } SCENARIO(nested_##N, vs_opt().bound(1, 2).secs(40, 300)) { nested<X >(); } SCENARIO(visible_##N, vs_opt().bound(1, 2).secs(40, 300)) { visible<X >(); } SCENARIO(spurious_##N, vs_opt().bound(1, 2).spurious().leak().secs(40, 300)) { two<X >(); }
ALL(scheduler, SchedS)
ALL(scheduler_sys, SchedR)
ALL(pool1, Pool1)
ALL(adaptor, Adap)
SCENARIO(one_pool2, vs_opt().bound(1, 2).leak().secs(40, 300)) { one<Pool2>(); }
SCENARIO(two_pool2, vs_opt().bound(1, 2).leak().secs(40, 300)) { vs_set(18, 1); two<Pool2>(); }
SCENARIO(far_near_pool2, vs_opt().bound(1, 2).leak().secs(40, 300)) { far_near<Pool2>(); }
SCENARIO(closing_pool2, vs_opt().bound(1, 2).leak().secs(40, 300)) { closing<Pool2>(); }
// while one worker is busy the other one runs what becomes due
SCENARIO(busy_pool2, vs_opt().bound(1, 2).leak().secs(40, 300)) { { Pool2 s; int b = vs_choose(2), q = vs_choose(2); s.submit_after(WQ([&] { wait_for(1); ran(0); }), ms(DL)); if (q) vs_quiesce(); put(s, 1, q ? b : 2 * b, 0); wait_for(0); } clean(); }
// --- executors bound to a time
template <class C, class A> static bool bsub(A&& a, int i, typename C::time_point due, int form) { try { if (form == 0) a.submit(STask<C>(i, due)); else { STask<C> t(i, due); a.submit(t); vs_assert_msg(t.pay && t.o.v == i, "submit moved from an lvalue"); } } catch (boost::sync_queue_is_closed&) { vs_set(ACC0 + i, 0); return false; } vs_set(ACC0 + i, 1); return true; }
template <class S> static void at_ex() { typedef typename S::clock C; { S s; int k = vs_choose(2), n = vs_choose(2), f = vs_choose(2); typename C::time_point due = C::now() + ms(n * DL); if (k == 0) { boost::executors::at_executor<boost::executors::scheduler<C> > a = s.at(due); vs_assert(!a.closed() && &a.underlying_scheduler() == &s); bsub<C>(a, 0, due, f); bsub<C>(a, 1, due, 0); a.close(); vs_assert(a.closed() && !s.closed() && !bsub<C>(a, 2, due, vs_choose(2))); } else { bsub<C>(s.after(ms(n * DL)), 0, due, f); bsub<C>(s.after(ms(n * DL)), 1, due, f); } wait_for(0); wait_for(1); s.close(); vs_assert(s.at(due).closed()); vs_assert(!bsub<C>(s.at(due), 2, due, 0)); } vs_assert(!vs_get(RAN0 + 2)); clean(); }
SCENARIO(at_executor, vs_opt().bound(1, 2).leak().secs(40, 300)) { at_ex<SchedS>(); }
SCENARIO(at_executor_sys, vs_opt().bound(1, 2).leak().secs(40, 300)) { at_ex<SchedR>(); }
template <class S, class E> static void on_ex(E& e) { typedef typename S::clock C; S s; int k = vs_choose(4), n = vs_choose(2), f = vs_choose(2); typename C::time_point due = C::now() + ms(n * DL); if (k == 0) bsub<C>(s.on(e).at(due), 0, due, f); else if (k == 1) bsub<C>(s.on(e).after(ms(n * DL)), 0, due, f); else if (k == 2) bsub<C>(s.at(due).on(e), 0, due, f); else { auto w = s.on(e); vs_assert(&w.underlying_executor() == &e && &w.underlying_scheduler() == &s); auto a = w.at(due); vs_assert(!a.closed() && &a.underlying_executor() == &e && &a.underlying_scheduler() == &s); bsub<C>(a, 0, due, f); a.close(); vs_assert(a.closed() && !s.closed() && !e.closed() && !bsub<C>(a, 2, due, 0)); } wait_for(0); int z = vs_choose(2); if (z) e.close(); else s.close(); vs_assert(s.on(e).at(due).closed() && !bsub<C>(s.on(e).at(due), 2, due, vs_choose(2))); }
SCENARIO(on_inline, vs_opt().bound(1, 2).leak().secs(40, 300)) { { boost::executors::inline_executor e; on_ex<SchedS>(e); } clean(); }
SCENARIO(on_pool, vs_opt().bound(1, 2).leak().secs(40, 300)) { { basic_thread_pool e(1); on_ex<SchedS>(e); } clean(); }
SCENARIO(on_thread, vs_opt().bound(1, 2).leak().secs(40, 300)) { { boost::executors::thread_executor e; on_ex<SchedS>(e); } clean(); }
SCENARIO(on_sys, vs_opt().bound(1, 2).leak().secs(40, 300)) { { boost::executors::inline_executor e; on_ex<SchedR>(e); } clean(); }
// in the thread of the other executor, in its order
SCENARIO(on_loop, vs_opt().bound(1, 2).leak().secs(40, 300)) { { boost::executors::loop_executor e; { SchedS s; int me = vs_self(); s.on(e).after(ms(DL)).submit([&] { vs_assert(vs_self() == me); ran(0); e.close(); }); e.loop(); vs_assert(vs_get(RAN0)); vs_assert(vs_now() >= DL * MS); } } }
SCENARIO(on_two, vs_opt().bound(1, 1).leak().secs(40, 300)) { { basic_thread_pool e(1); SchedS s; SC::time_point t = SC::now(); bsub<SC>(s.on(e).at(t + ms(2 * DL)), 0, t + ms(2 * DL), 0); bsub<SC>(s.on(e).at(t + ms(DL)), 1, t + ms(DL), 1); wait_for(0); wait_for(1); } clean(); }
// the system clock is set while the worker sleeps: due by the system clock, within the polling interval
SCENARIO(jump, vs_opt().bound(1, 2).leak().secs(40, 300)) { { vs_set(19, 1); SchedR s; int fwd = vs_choose(2); put(s, 0, 3, vs_choose(2)); vs_t j([&] { vs_jump_realtime(fwd ? 2 * DL * MS : -2 * DL * MS); }); wait_for(0); j.join(); if (!vs_forced_tick()) vs_assert_msg(vs_now() <= 130 * MS, "ended at %ld", vs_now()); } clean(); }
SCENARIO(jump_steady, vs_opt().bound(1, 2).leak().secs(40, 300)) { { SchedS s; int fwd = vs_choose(2); put(s, 0, 3, vs_choose(2)); vs_t j([&] { vs_jump_realtime(fwd ? FAR_ * MS : -FAR_ * MS); }); wait_for(0); j.join(); } clean(); }
SCENARIO(throws, vs_opt().bound(0, 1)) { SchedS s; s.submit_after(WQ([] { vs_expect_terminate(1); throw Ex(1); }), ms(DL)); vs_await(45, 1); }
SCENARIO(no_thread, vs_opt().bound(0, 1).leak().faults(VSF_CREATE, 1)) { int k = vs_choose(2); vs_fault_window(VSF_CREATE); int r = k ? OKOF(SchedS s) : OKOF(Adap a); vs_fault_window(0); vs_assert(r == OK || r == OTHER); vs_quiesce(); vs_assert(vs_nthreads_alive() == 1); }
template <class X> static void destroy_int() { { thread t([&] { X s; put(s, 0, 0, 0); vs_await(44, 1); }); t.interrupt(); vs_set(44, 1); t.join(); } vs_assert(vs_nthreads_alive() == 1); clean(); }
SCENARIO(destroy_interrupted, vs_opt().bound(2, 3).leak().secs(40, 300)) { vs_set(19, 1); if (vs_choose(2)) destroy_int<SchedS>(); else destroy_int<Adap>(); }
// times in other units, in the past, before the epoch, and much later than the test lasts
template <class X> static void odd() { { X s; typedef typename X::clock C; typedef typename C::time_point TP; TP t = C::now(); int k = vs_choose(13); bool later = false;
    switch (k) {
    case 0: s.submit_after(WQ(STask<C>(0, t + bc::microseconds(10345))), bc::microseconds(10345)); break;
    case 1: s.submit_after(WQ(STask<C>(0, t + bc::nanoseconds(10345679))), bc::nanoseconds(10345679)); break;
    case 2: s.submit_after(WQ(STask<C>(0, t + bc::seconds(1))), bc::duration<int>(1)); break;
    case 3: s.submit_after(WQ(STask<C>(0, t + bc::minutes(1))), bc::minutes(1)); break;
    case 4: s.submit_after(WQ(STask<C>(0, t + ms(1500))), bc::duration<int, boost::milli>(1500)); break;
    case 5: s.submit_after(WQ(STask<C>(0, t)), ms(-1500)); break;
    case 6: s.submit_after(WQ(STask<C>(0, t)), bc::hours(-24 * 365 * 10)); break;
    case 7: s.submit_at(WQ(STask<C>(0, t)), TP()); break;
    case 8: s.submit_at(WQ(STask<C>(0, t)), TP(bc::nanoseconds(-1500000000))); break;
    case 9: s.submit_at(WQ(STask<C>(0, t)), bc::time_point<C, bc::seconds>(bc::seconds(5))); break;
    case 10: { bc::time_point<C, bc::seconds> due(bc::ceil<bc::seconds>(t.time_since_epoch())); s.submit_at(WQ(STask<C>(0, due)), due); break; }
    case 11: s.submit_after(WQ(STask<C>(0, t + bc::hours(24 * 365 * 20))), bc::hours(24 * 365 * 20)); later = true; break;
    case 12: s.submit_at(WQ(STask<C>(0, TP(bc::hours(24 * 365 * 100)))), TP(bc::hours(24 * 365 * 100))); later = true; break;
    }
    if (later) put(s, 1, 1, 0), wait_for(1); else wait_for(0); }
    clean(); }
#define ODD_(N, X) SCENARIO(odd_##N, vs_opt().bound(1, 2).leak().secs(40, 300)) { odd<X >(); }
ODD_(scheduler, SchedS)
ODD_(scheduler_sys, SchedR)
ODD_(pool1, Pool1)
ODD_(adaptor, Adap)
