// F04: async
#include "fut.hpp"
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
#endif
#include <boost/thread/tss.hpp>
using boost::async; using boost::launch; using boost::future_status; using boost::thread;
enum { RUNS = 1, BEGUN = 2, ENDED = 3, RUNNER = 4, THROWS = 5, GO = 6, SEEN = 7, FLIVE = 61, EXITED = 8 };
template <class T> struct Fn { int v; Fn* self; Data* d; bool wait; explicit Fn(int x, Data* dd = 0, bool w = false) : v(x), self(this), d(dd), wait(w) { vs_add(FLIVE, 1); } Fn(Fn&& o) : v(o.v), self(this), d(o.d), wait(o.wait) { vs_assert(o.self == &o); o.v = -1; vs_add(FLIVE, 1); } Fn(const Fn& o) : v(o.v), self(this), d(o.d), wait(o.wait) { vs_assert(o.self == &o); vs_add(FLIVE, 1); } ~Fn() { vs_assert_msg(self == this, "function destroyed twice"); self = 0; vs_add(FLIVE, -1); }
    T operator()() { vs_assert_msg(self == this && v >= 0, "the function called is not alive"); vs_add(RUNS, 1); vs_set(RUNNER, vs_self()); vs_set(BEGUN, 1); if (d) d->bump(); if (wait) vs_await(GO, 1); vs_point(); int k = vs_get(THROWS); vs_set(ENDED, 1); if (k) throw Ex(v); return K<T>::mk(v); } };
template <class T> static int want(int v) { return vs_get(THROWS) ? EXC + v : K<T>::hasv ? v : 0; }
static void clean() { vs_quiesce(); vs_assert_msg(!vs_get(LIVE) && !vs_get(FLIVE), "%ld results, %ld functions left alive", vs_get(LIVE), vs_get(FLIVE)); }
// a function of its own thread: once, elsewhere, whoever waits and even if nobody does
template <class T> static fut<T> start(int form, Data* d) { switch (form) { case 0: return async(launch::async, Fn<T>(7, d)); case 1: return async(Fn<T>(7, d)); case 2: return async(launch::any, Fn<T>(7, d)); } Fn<T> f(7, d); fut<T> r(async(launch::async, f)); vs_assert_msg(f.v == 7, "async moved from an lvalue"); return r; }
template <class T> static void own(bool shared) { { Data d; vs_set(THROWS, vs_choose(2)); int me = vs_self(); fut<T> f; { fut<T> g(start<T>(shared ? 0 : vs_choose(4), &d)); f = boost::move(g); vs_assert(!g.valid()); }
    auto look = [&](auto& g, int form) { if (form == 1) g.wait(); if (form == 2) { bool r = g.wait_for(ms(FAR_)) == future_status::ready; vs_assert_msg(r || vs_forced_tick(), "a timed wait missed the end of the function"); } if (form == 3) vs_assert(g.wait_for(ms(0)) != future_status::deferred); int r = fetch<T>(g); vs_assert_msg(vs_get(ENDED), "ready before the function ended"); vs_assert_msg(r == want<T>(7), "async gave %d", r); vs_assert_msg(d.a == 1, "the effects of the function are not visible"); };
    int w = vs_choose(4); if (shared) { sfut<T> s(f.share()); int w2 = vs_choose(2); vs_run([&] { sfut<T> c(s); look(c, w); }, [&] { sfut<T> c(s); look(c, w2); }); } else look(f, w); vs_assert_msg(vs_get(RUNS) == 1 && vs_get(RUNNER) != me, "%ld runs, in thread %ld", vs_get(RUNS), vs_get(RUNNER)); vs_quiesce(); } clean(); }
SCENARIO(own_obj, vs_opt().bound(3, 5).spurious(1).leak()) { own<Obj>(false); }
SCENARIO(own_mo, vs_opt().bound(2, 4).leak()) { own<MO>(false); }
SCENARIO(own_ref, vs_opt().bound(2, 4).leak()) { own<int&>(false); }
SCENARIO(own_void, vs_opt().bound(2, 4).leak()) { own<void>(false); }
SCENARIO(own_shared_obj, vs_opt().bound(1, 3).leak()) { own<Obj>(true); }
SCENARIO(own_shared_void, vs_opt().bound(1, 2).leak()) { own<void>(true); }
template <class T> static void unwatched() { Data* d = new Data; { vs_set(THROWS, vs_choose(2)); int k = vs_choose(3); { fut<T> f(start<T>(vs_choose(4), d)); if (k == 1) { sfut<T> s(f.share()); } if (k == 2) { f = start<T>(0, 0); } } vs_quiesce(); vs_assert_msg(vs_get(RUNS) == 1 + (k == 2), "%ld runs", vs_get(RUNS)); vs_race_ignore_begin(); vs_assert(d->a == 1); vs_race_ignore_end(); } clean(); vs_race_ignore_begin(); delete d; vs_race_ignore_end(); }
SCENARIO(unwatched_obj, vs_opt().bound(2, 4).leak()) { unwatched<Obj>(); }
SCENARIO(unwatched_void, vs_opt().bound(2, 4).leak()) { unwatched<void>(); }
#ifdef VS_V4
// deferred: by the first waiter, once; timed waits and observers never run it
template <class T, int W> static void lazy() { { Data d; vs_set(THROWS, vs_choose(2)); bool shared = W > 1 || vs_choose(2); fut<T> f(async(launch::deferred, Fn<T>(7, &d))); vs_assert(f.valid() && !f.is_ready() && !f.has_value() && !f.has_exception()); vs_assert_msg(f.wait_for(ms(1)) == future_status::deferred && f.wait_until(in_ms(-1)) == future_status::deferred && f.wait_until(sys_in_ms(1)) == future_status::deferred, "a timed wait on a deferred function"); vs_assert(vs_now() == 0 && vs_get(RUNS) == 0);
    int form[W], id[W]; bool first[W]; for (int i = 0; i < W; i++) { form[i] = vs_choose(5); if (i && form[i] < form[i - 1]) vs_cut(); } sfut<T> s; if (shared) s = sfut<T>(boost::move(f));
    auto look = [&](auto& g, int i) { switch (form[i]) { case 1: g.wait(); vs_assert(g.is_ready()); break; case 2: g.get_exception_ptr(); vs_assert(g.is_ready()); break; case 3: { long t0 = vs_now(); future_status st = g.wait_for(ms(DL)); if (st == future_status::ready) vs_assert_msg(vs_get(ENDED), "ready before the function ended"); if (st == future_status::deferred) vs_assert(vs_now() == t0 || vs_forced_tick()); if (st == future_status::timeout) vs_assert(vs_get(BEGUN) && vs_now() - t0 >= DL * MS); vs_assert(W > 1 || (st == future_status::deferred && !vs_get(BEGUN))); break; } case 4: { bool r = g.is_ready(); vs_assert(!r || vs_get(ENDED)); vs_assert(W > 1 || !r); break; } } int r = fetch<T>(g); vs_assert_msg(vs_get(ENDED), "ready before the function ended"); vs_assert_msg(r == want<T>(7), "a deferred function gave %d", r); vs_assert_msg(d.a == 1, "effects not visible"); first[i] = vs_get(RUNNER) == vs_self(); };
    for (int i = 0; i < W; i++) id[i] = vs_spawn([&, i] { if (shared) { sfut<T> c(s); look(c, i); } else look(f, i); }); for (int i = 0; i < W; i++) vs_pthread_join(id[i]); int n = 0; for (int i = 0; i < W; i++) n += first[i]; vs_assert_msg(n == 1 && vs_get(RUNS) == 1, "%ld runs of a deferred function, %d in waiters", vs_get(RUNS), n); } clean(); }
SCENARIO(lazy_obj_1, vs_opt().bound(2, 3).leak()) { lazy<Obj, 1>(); }
SCENARIO(lazy_obj_2, vs_opt().bound(3, 4).leak().secs(15, 240)) { lazy<Obj, 2>(); }
SCENARIO(lazy_void_2, vs_opt().bound(2, 3).leak()) { lazy<void, 2>(); }
SCENARIO(lazy_ref_2, vs_opt().bound(2, 3).leak()) { lazy<int&, 2>(); }
SCENARIO(lazy_mo_1, vs_opt().bound(2, 3).leak()) { lazy<MO, 1>(); }
SCENARIO(lazy_obj_3, vs_opt().bound(1, 2).leak().secs(15, 240)) { lazy<Obj, 3>(); }
SCENARIO(lazy_dropped, vs_opt().bound(0, 0).leak()) { { int k = vs_choose(4); fut<Obj> f(async(launch::deferred, Fn<Obj>(1))); if (k == 1) { sfut<Obj> s(f.share()); sfut<Obj> t(s); } if (k == 2) f = async(launch::deferred, Fn<Obj>(2)); if (k == 3) { fut<Obj> g(boost::move(f)); vs_assert(g.wait_for(ms(0)) == future_status::deferred); } } vs_assert_msg(vs_get(RUNS) == 0, "a deferred function nobody waited for was run"); clean(); }
// while a deferred function runs, other threads can look at its future
template <class T> static void peek() { { fut<T> f(async(launch::deferred, Fn<T>(3, 0, true))); sfut<T> s(f.share()); int k = vs_choose(4); vs_run([&] { sfut<T> c(s); vs_assert(fetch<T>(c) == val<T>(3)); }, [&] { sfut<T> c(s); vs_await(BEGUN, 1); switch (k) { case 0: vs_assert(!c.is_ready()); break; case 1: { long t0 = vs_now(); vs_assert(c.wait_for(ms(DL)) == future_status::timeout); vs_assert(vs_now() - t0 >= DL * MS); break; } case 2: vs_assert(!c.has_value() && !c.has_exception()); break; case 3: vs_assert(c.get_state() == boost::future_state::waiting); break; } vs_set(GO, 1); vs_assert(fetch<T>(c) == val<T>(3)); }); vs_assert(vs_get(RUNS) == 1); } clean(); }
SCENARIO(peek_obj, vs_opt().bound(3, 4).leak()) { peek<Obj>(); }
SCENARIO(peek_ref, vs_opt().bound(3, 4).leak()) { peek<int&>(); }
SCENARIO(peek_void, vs_opt().bound(3, 4).leak()) { peek<void>(); }
#endif
// no thread to be had: the documented error, nothing runs, nothing is left
template <class T> static void nothread() { { int r; try { fut<T> f(start<T>(vs_choose(4), 0)); r = fetch<T>(f); vs_assert_msg(r == val<T>(7), "async gave %d", r); } catch (boost::thread_resource_error& e) { vs_assert_msg(vs_get(RUNS) == 0, "async failed but its function ran"); } } clean(); }
SCENARIO(nothread_obj, vs_opt().bound(2, 3).leak().faults(VSF_CREATE)) { vs_fault_window(VSF_CREATE); nothread<Obj>(); }
SCENARIO(nothread_void, vs_opt().bound(2, 3).leak().faults(VSF_CREATE)) { vs_fault_window(VSF_CREATE); nothread<void>(); }
SCENARIO(nothread_ref, vs_opt().bound(2, 3).leak().faults(VSF_CREATE)) { vs_fault_window(VSF_CREATE); nothread<int&>(); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
// an interrupted waiter leaves the function and its future alone
SCENARIO(interrupted, vs_opt().bound(3, 4).leak()) { { fut<Obj> f(async(launch::async, Fn<Obj>(3, 0, true))); thread t([&] { int r = OKOF(f.wait()); vs_assert(r == INTR || r == OK); vs_set(GO, 1); vs_assert(fetch<Obj>(f) == 3); }); t.interrupt(); vs_set(GO, 1); t.join(); vs_assert(vs_get(RUNS) == 1); vs_quiesce(); } clean(); }
#endif
// the thread of an asynchronous function has ended when a waiting function returns (documented)
static void at_exit(int*) { vs_point(); vs_set(EXITED, 1); } static boost::thread_specific_ptr<int>* tp;
SCENARIO(as_if_joined, vs_opt().bound(1, 2)) { tp = new boost::thread_specific_ptr<int>(&at_exit); fut<void> f(async(launch::async, [] { tp->reset(new int(1)); })); f.wait(); vs_assert_msg(vs_get(EXITED), "a wait for an async function returned before its thread had ended"); }
#ifdef VS_V4
static int sum3(int a, const Obj& b, MO c) { vs_add(RUNS, 1); return a + b.v + *c; }
struct Mem { int k; int get(int x) { vs_add(RUNS, 1); return k + x; } };
// arguments are copied or moved in the caller's thread
SCENARIO(arguments, vs_opt().bound(2, 3).leak()) { { Obj o(20); launch l = vs_choose(2) ? launch::async : launch::deferred; int k = vs_choose(3); fut<int> f; if (k == 0) f = async(l, &sum3, 1, o, MO(new int(300))); if (k == 1) f = async(l, [](int a, const Obj& b, MO&& c) { vs_assert(b.self == &b); return sum3(a, b, std::move(c)); }, 1, o, MO(new int(300))); if (k == 2) f = async(l, &Mem::get, Mem{320}, 1); o.v = 0; vs_assert(fetch<int>(f) == 321 && vs_get(RUNS) == 1); vs_quiesce(); } clean(); }
#endif
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
template <class T, class E> static void on(E& ex, bool inl) { Data d; vs_set(THROWS, vs_choose(2)); fut<T> f(async(ex, Fn<T>(5, &d))); vs_assert(f.valid()); if (inl) vs_assert(f.is_ready() && vs_get(RUNNER) == vs_self()); int form = vs_choose(3); if (form == 1) f.wait(); if (form == 2) { future_status st = f.wait_for(ms(FAR_)); vs_assert(st == future_status::ready || (vs_forced_tick() && st == future_status::timeout)); } int r = fetch<T>(f); vs_assert_msg(vs_get(ENDED) && vs_get(RUNS) == 1 && r == want<T>(5) && d.a == 1, "async on an executor gave %d", r); }
template <class T> static void pool() { { int k = vs_choose(2); boost::executors::basic_thread_pool p(1 + k); on<T>(p, false); } clean(); }
SCENARIO(pool_obj, vs_opt().bound(2, 3).leak().secs(15, 240)) { pool<Obj>(); }
SCENARIO(pool_void, vs_opt().bound(2, 3).leak().secs(15, 240)) { pool<void>(); }
SCENARIO(pool_ref, vs_opt().bound(1, 2).leak()) { pool<int&>(); }
SCENARIO(inlined, vs_opt().bound(1, 2).leak()) { { boost::executors::inline_executor ex; if (vs_choose(2)) on<Obj>(ex, true); else on<void>(ex, true); } clean(); }
SCENARIO(erased, vs_opt().bound(1, 2).leak()) { { if (vs_choose(2)) { boost::executors::executor_adaptor<boost::executors::basic_thread_pool> ex(1); boost::executors::executor& e = ex; on<Obj>(e, false); } else { boost::executors::inline_executor ie; boost::executors::generic_executor_ref ex(ie); on<Obj>(ex, true); } } clean(); }
// a loop run by two threads; the pool destroyed with work left
SCENARIO(looped, vs_opt().bound(2, 3).leak()) { { boost::executors::loop_executor ex; vs_t a([&] { ex.loop(); }), b([&] { while (!ex.closed()) { if (!ex.try_executing_one()) vs_await(GO, 1); } }); fut<Obj> f(async(ex, Fn<Obj>(1))), g(async(ex, Fn<Obj>(2))); vs_assert(fetch<Obj>(f) == 1 && fetch<Obj>(g) == 2); ex.close(); vs_set(GO, 1); a.join(); b.join(); vs_assert(vs_get(RUNS) == 2); } clean(); }
SCENARIO(pool_closed, vs_opt().bound(2, 3).leak()) { { fut<Obj> f; int r; { boost::executors::basic_thread_pool p(1); vs_t c([&] { p.close(); }); r = outcome([&] { try { f = async(p, Fn<Obj>(1)); return 1; } catch (boost::sync_queue_is_closed&) { return 2; } }); c.join(); int q = outcome([&] { try { async(p, Fn<Obj>(9)); return 1; } catch (boost::sync_queue_is_closed&) { return 2; } }); vs_assert(q == 2); } vs_assert(r == 1 || r == 2); vs_assert(f.valid() == (r == 1)); if (r == 1) vs_assert(f.is_ready() && fetch<Obj>(f) == 1); vs_assert(vs_get(RUNS) == (r == 1)); } clean(); }
SCENARIO(pool_pending, vs_opt().bound(2, 3).leak().secs(15, 240)) { { fut<Obj> f, g; { boost::executors::basic_thread_pool p(1); f = async(p, Fn<Obj>(1)); g = async(p, Fn<Obj>(2)); } vs_assert_msg(f.is_ready() && g.is_ready() && vs_get(RUNS) == 2, "a destroyed pool left accepted work undone"); vs_assert(fetch<Obj>(f) == 1 && fetch<Obj>(g) == 2); } clean(); }
#endif
