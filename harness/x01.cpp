// X01: what happens when a thread, a mutex, a condition variable or memory cannot be had, or a call is interrupted
#include "qu.hpp"
#include <boost/smart_ptr/make_shared.hpp>
#include <boost/thread.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/scoped_thread.hpp>
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
using boost::executors::basic_thread_pool; using boost::executors::scheduled_thread_pool; using boost::executors::loop_executor;
#endif
#include <boost/thread/thread_functors.hpp>
#include <boost/thread/externally_locked.hpp>
using namespace boost;
enum { ANY = VSF_CREATE | VSF_MUTEX_INIT | VSF_COND_INIT | VSF_MALLOC };
struct Mark { size_t b; long s; Mark() : b(vs_live_blocks()), s(vs_live_sync()) {} void same(const char* what) { vs_assert_msg(vs_live_sync() == s, "%s: %ld mutexes, condition variables or attributes left over", what, vs_live_sync() - s); vs_assert_msg(vs_live_blocks() == b, "%s: %ld heap blocks left over", what, (long)vs_live_blocks() - (long)b); } };
// runs f with at most one failure in it: true if f threw what that failure must throw
template <class F> bool failed(F f) {
    int r = 0; int was = vs_faulted(); vs_fault_window_me(ANY);
    try { f(); vs_fault_window(0); } catch (thread_resource_error&) { vs_fault_window(0); r = 1; } catch (std::bad_alloc&) { vs_fault_window(0); r = 2; } catch (...) { vs_fault_window(0); r = 9; }
    int k = vs_faulted(); if (was || !k) { vs_assert_msg(r == 0, "threw %d although nothing failed", r); return false; }
    vs_outcome("%d%d", k, r); if (r) vs_assert_msg(r == (k == VSF_MALLOC ? 2 : 1), "threw %d after a failure of kind %d", r, k); return r != 0;
}
#ifndef BOOST_THREAD_DONT_USE_ATOMIC
#define SCN(name) SCENARIO(name, vs_opt().bound(1, 2).faults(ANY))
// ---- construction: all or nothing
template <class T> struct Make { static T* mk() { return new T; } static void use(T&) {} };
template <class T> struct MakeM { static T* mk() { return new T; } static void use(T& m) { m.lock(); m.unlock(); vs_assert(m.try_lock()); m.unlock(); } };
template <> struct Make<mutex> : MakeM<mutex> {}; template <> struct Make<timed_mutex> : MakeM<timed_mutex> {}; template <> struct Make<recursive_mutex> : MakeM<recursive_mutex> {}; template <> struct Make<recursive_timed_mutex> : MakeM<recursive_timed_mutex> {}; template <> struct Make<shared_mutex> : MakeM<shared_mutex> {};
template <> struct Make<barrier> { static barrier* mk() { return new barrier(1); } static void use(barrier& b) { vs_assert(b.wait()); } };
struct BF { boost::shared_ptr<int> p; BF() : p(new int(0)) {} void operator()() { ++*p; } };
template <> struct Make<latch> { static latch* mk() { return new latch(1); } static void use(latch& l) { l.count_down(); l.wait(); } };
template <> struct Make<promise<int> > { static promise<int>* mk() { return new promise<int>; } static void use(promise<int>& p) { auto f = p.get_future(); p.set_value(4); vs_assert(f.get() == 4); } };
template <> struct Make<condition_variable> { static condition_variable* mk() { return new condition_variable; } static void use(condition_variable& c) { c.notify_one(); mutex m; unique_lock<mutex> l(m); vs_assert(c.wait_for(l, ms(1)) == cv_status::timeout); } };
template <> struct Make<condition_variable_any> { static condition_variable_any* mk() { return new condition_variable_any; } static void use(condition_variable_any& c) { c.notify_one(); mutex m; unique_lock<mutex> l(m); vs_assert(c.wait_for(l, ms(1)) == cv_status::timeout); } };
template <class T> struct MakeQ { static T* mk() { return new T; } static void use(T& q) { q.push(5); int x; q.pull(x); vs_assert(x == 5); } };
template <> struct Make<sync_queue<int> > : MakeQ<sync_queue<int> > {}; template <> struct Make<sync_deque<int> > { static sync_deque<int>* mk() { return new sync_deque<int>; } static void use(sync_deque<int>&) {} };
template <> struct Make<sync_priority_queue<int> > : MakeQ<sync_priority_queue<int> > {};
template <> struct Make<sync_bounded_queue<int> > { static sync_bounded_queue<int>* mk() { return new sync_bounded_queue<int>(2); } static void use(sync_bounded_queue<int>& q) { q.push(5); int x; q.pull(x); vs_assert(x == 5); } };
template <> struct Make<sync_timed_queue<int> > { static sync_timed_queue<int>* mk() { return new sync_timed_queue<int>; } static void use(sync_timed_queue<int>& q) { q.push(5, bc::steady_clock::now()); int x; q.pull(x); vs_assert(x == 5); } };
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
template <> struct Make<basic_thread_pool> { static basic_thread_pool* mk() { return new basic_thread_pool(2); } static void use(basic_thread_pool& p) { vs_set(1, 0); p.submit([] { vs_add(1, 1); }); p.close(); p.join(); vs_assert(vs_get(1) == 1); } };
template <> struct Make<scheduled_thread_pool> { typedef scheduled_thread_pool S; static S* mk() { return new S(2); } static void use(S& p) { vs_set(1, 0); p.submit_after([] { vs_add(1, 1); }, ms(1)); vs_await(1, 1); } };
template <> struct Make<loop_executor> { static loop_executor* mk() { return new loop_executor; } static void use(loop_executor& p) { vs_set(1, 0); p.submit([] { vs_add(1, 1); }); vs_assert(p.try_executing_one() && vs_get(1) == 1); } };
#endif
template <class T> void make() {
    { T* t = Make<T>::mk(); Make<T>::use(*t); delete t; } Mark k; T* t = 0;
    if (failed([&] { t = Make<T>::mk(); })) { vs_assert(!t); k.same("failed construction"); t = Make<T>::mk(); }
    Make<T>::use(*t); delete t; k.same("construction and destruction"); vs_assert_msg(vs_nthreads_alive() == 1, "threads left over");
}
#define MK(name, T) SCENARIO(make_##name, vs_opt().bound(1, 2).faults(ANY)) { vs_fault_window(0); make<T>(); }
MK(mutex, mutex) MK(timed_mutex, timed_mutex) MK(recursive_mutex, recursive_mutex) MK(recursive_timed_mutex, recursive_timed_mutex) MK(shared_mutex, shared_mutex) MK(cv, condition_variable) MK(cv_any, condition_variable_any) MK(barrier, barrier) MK(latch, latch) MK(promise, promise<int>)
MK(queue, sync_queue<int>) MK(deque, sync_deque<int>) MK(priority_queue, sync_priority_queue<int>) MK(bounded_queue, sync_bounded_queue<int>) MK(timed_queue, sync_timed_queue<int>) MK(group, thread_group)
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
MK(thread_pool, basic_thread_pool) MK(scheduled_pool, scheduled_thread_pool) MK(loop, loop_executor)
#endif
SCN(make_barrier_f) { vs_fault_window(0); { barrier b(1, BF()); b.wait(); } Mark k; BF f; barrier* b = 0; if (failed([&] { b = new barrier(1, f); })) { vs_assert(f.p.use_count() == 1); b = new barrier(1, f); } b->wait(); vs_assert(*f.p == 1); delete b; vs_assert(f.p.use_count() == 1); f.p.reset(); k.same("barrier"); }
SCN(make_packaged_task) { vs_fault_window(0); boost::shared_ptr<int> p(new int(3)); auto fn = [p] { return *p; }; long c = p.use_count(); Mark k;
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
    typedef packaged_task<int()> PT;
#else
    typedef packaged_task<int> PT;
#endif
    PT* t = 0; if (failed([&] { t = new PT(fn); })) { vs_assert(p.use_count() == c); k.same("failed packaged_task"); t = new PT(fn); } auto f = t->get_future(); (*t)(); vs_assert(f.get() == 3); delete t; f = decltype(f)(); vs_assert(p.use_count() == c); }
// ---- starting threads
enum { RAN = 1, READY_ = 7 };
struct Fn { boost::shared_ptr<int> p; Fn() : p(new int(1)) {} void operator()() const { vs_add(RAN, 1); } void operator()(int, const std::string& s) const { vs_assert(s == "a string too long for the small buffer"); vs_add(RAN, 1); } };
template <class S> void start(S s) {   // s(Fn&, bool& made): starts and finishes
    { Fn f; s(f, true); vs_assert(vs_get(RAN) == 1); } vs_quiesce(); vs_set(RAN, 0); Fn f; Mark k;
    if (failed([&] { s(f, false); })) { vs_quiesce(); vs_assert_msg(vs_get(RAN) == 0, "the function ran although the thread could not be started"); vs_assert_msg(f.p.use_count() == 1, "a copy of the function is left over"); vs_assert_msg(vs_nthreads_alive() == 1, "a thread runs although starting it failed"); k.same("failed start"); s(f, true); }
    vs_quiesce(); vs_assert_msg(vs_get(RAN) == 1, "ran %ld times", vs_get(RAN)); vs_assert(f.p.use_count() == 1); vs_assert(vs_nthreads_alive() == 1); k.same("start and join");
}
#define ST(name, body) SCENARIO(start_##name, vs_opt().bound(1, 2).faults(ANY)) { vs_fault_window(0); start([](Fn& f, bool) { body; }); }
// f is called with faults possible up to the end of the start only
#define OFF vs_fault_window(0)
ST(plain, thread t(f); OFF; t.join())
ST(args, thread t(f, 1, std::string("a string too long for the small buffer")); OFF; t.join())
ST(attr, thread::attributes a; a.set_stack_size(65536); thread t((const thread::attributes&)a, f); OFF; t.join())
ST(attr_detached, thread::attributes a; pthread_attr_setdetachstate(a.native_handle(), PTHREAD_CREATE_DETACHED); thread t((const thread::attributes&)a, f); OFF; vs_assert(!t.joinable()); vs_await(RAN, 1))
ST(assigned, thread t; t = thread(f); OFF; t.join())
ST(scoped, scoped_thread<> t(f); OFF)
ST(heap, csbl::unique_ptr<thread> t(new thread(f)); OFF; t->join())
ST(group, thread_group g; g.create_thread(f); OFF; vs_assert(g.size() == 1); g.join_all())
// a group keeps what it had
SCN(group_keeps) { vs_fault_window(0); { Mark k; thread_group g; g.create_thread(Fn()); bool bad = failed([&] { g.create_thread(Fn()); }); vs_assert_msg(g.size() == (bad ? 1 : 2), "the group has %d threads", (int)g.size()); g.join_all(); vs_assert_msg(vs_get(RAN) == (bad ? 1 : 2), "%ld threads ran", vs_get(RAN)); } vs_quiesce(); vs_assert(vs_get(RAN) <= 2 && vs_nthreads_alive() == 1); }
SCN(group_adds) { vs_fault_window(0); thread_group g; thread* t = new thread(Fn()); bool bad = failed([&] { g.add_thread(t); }); vs_assert(g.size() == (bad ? 0 : 1)); vs_assert(t->joinable()); t->join(); if (bad) delete t; vs_assert(vs_get(RAN) == 1); }
// ---- per-thread things, in a thread of the library and in a foreign one
template <class F> void both(F f) { vs_fault_window(0); if (vs_choose(2)) { thread t(f); t.join(); } else { vs_t t(f); t.join(); } }
SCENARIO(exit_function, vs_opt().bound(1, 2).faults(ANY).leak()) { vs_fault_window(0); { auto p = boost::make_shared<int>(0); both([p] { bool warm = vs_choose(2); auto q = p; if (warm) this_thread::at_thread_exit([q] { vs_add(2, 1); }); bool bad = failed([&] { this_thread::at_thread_exit([q] { vs_add(3, 1); }); }); q.reset(); vs_set(4, 2 * warm + !bad); }); vs_assert(vs_get(3) == (vs_get(4) & 1) && vs_get(2) == vs_get(4) / 2); vs_assert_msg(p.use_count() == 1, "a copy of the function is left over"); } }
struct TObj { TObj() { vs_add(5, 1); } ~TObj() { vs_add(5, -1); } };
SCENARIO(tss_reset, vs_opt().bound(1, 2).faults(ANY).leak()) { thread_specific_ptr<TObj> s, s2; both([&] { int warm = vs_choose(3); if (warm == 1) s.reset(new TObj); if (warm == 2) s2.reset(new TObj); TObj* o = s.get(); TObj* n = new TObj; bool bad = failed([&] { s.reset(n); }); if (bad) { vs_assert_msg(s.get() == o, "the value changed although reset failed"); s.reset(n); } vs_assert(s.get() == n); }); vs_assert_msg(vs_get(5) == 0, "%ld values left over", vs_get(5)); }
SCENARIO(notify_at_exit, vs_opt().bound(1, 2).faults(ANY).leak()) { vs_fault_window(0); mutex m; condition_variable cv; bool ready = false;
    both([&] { unique_lock<mutex> l(m); ready = true; unique_lock<mutex> l2; bool bad = failed([&] { notify_all_at_thread_exit(cv, boost::move(l)); }); if (bad) { vs_set(4, 1); } });
    vs_fault_window(0); unique_lock<mutex> l(m, try_to_lock); vs_assert_msg(l.owns_lock(), "the mutex stays locked"); vs_assert(ready); }
SCENARIO(notify_at_exit_wait, vs_opt().bound(1, 2).faults(ANY).leak()) { vs_fault_window(0); mutex m; condition_variable cv; bool ready = false; 
    vs_t w([&] { unique_lock<mutex> l(m); while (!ready) cv.wait(l); });
    both([&] { unique_lock<mutex> l(m); ready = true; bool bad = failed([&] { notify_all_at_thread_exit(cv, boost::move(l)); }); if (bad) cv.notify_all(); }); w.join(); }
// ---- futures
template <class T> void setting(int how) { vs_fault_window(0); { promise<T> p; sfut<T> f(p.get_future()); vs_set(READY_, 0); int n = 1;
    vs_t w([&] { fetch<T>(f); vs_add(READY_, 1); }); vs_fault_window(0);
    bool bad = false; int k = 0; both([&] { bad = failed([&] { switch (how) { case 0: K<T>::set(p, 3); break; case 1: K<T>::setr(p, 3); break; case 2: p.set_exception(boost::copy_exception(Ex(3))); break; case 3: K<T>::setx(p, 3); break; case 4: p.set_exception_at_thread_exit(boost::copy_exception(Ex(3))); break; } });
        if (bad) { vs_quiesce(); vs_assert_msg(vs_get(READY_) == 0 && !f.is_ready(), "ready although the set failed"); K<T>::setr(p, 3); } });
    w.join(); int r = fetch<T>(f); vs_assert_msg(r == val<T>(3) || ((how == 2 || how == 4) && r == EXC + 3), "the result is %d", r); (void)n; (void)k; } vs_assert(vs_get(LIVE) == 0); }

#define SETS(T, N) SCENARIO(set_value_##N, vs_opt().bound(2, 3).faults(ANY)) { setting<T>(0); } SCENARIO(set_rvalue_##N, vs_opt().bound(2, 3).faults(ANY)) { setting<T>(1); } SCENARIO(set_exception_##N, vs_opt().bound(2, 3).faults(ANY)) { setting<T>(2); } SCENARIO(set_at_exit_##N, vs_opt().bound(2, 3).faults(ANY)) { setting<T>(3); } SCENARIO(set_exception_at_exit_##N, vs_opt().bound(2, 3).faults(ANY)) { setting<T>(4); }
SETS(Obj, obj) SETS(int&, ref) SETS(void, void)
typedef std::string Str;
template <> struct K<Str> { static Str mk(int v) { return Str(40, char('a' + v)); } static int rd(const Str& t) { return t.size() == 40 ? t[0] - 'a' : -78; } static void set(promise<Str>& p, int v) { Str t = mk(v); p.set_value(t); } static void setr(promise<Str>& p, int v) { p.set_value(mk(v)); } static void setd(promise<Str>& p, int v) { p.set_value_deferred(mk(v)); } static void setx(promise<Str>& p, int v) { p.set_value_at_thread_exit(mk(v)); } template <class F> static int get(F& f) { return rd(f.get()); } enum { hasv = 1 }; };
SETS(Str, str)
// a task whose result cannot be stored still makes its future ready
template <class T> void tasks() { vs_fault_window(0); {
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
    packaged_task<T()> t([] { return K<T>::mk(3); });
#else
    packaged_task<T> t([] { return K<T>::mk(3); });
#endif
    sfut<T> f(t.get_future()); int how = vs_choose(2); vs_t w([&] { f.wait(); }); vs_fault_window_me(ANY); if (how) t(); else both([&] { vs_fault_window_me(ANY); t(); }); vs_fault_window(0); w.join(); vs_assert(f.is_ready()); bool mem = false; int r = 0;
    try { r = K<T>::get(f); } catch (std::bad_alloc&) { mem = true; } vs_assert_msg(mem ? vs_faulted() == VSF_MALLOC : r == val<T>(3), "the result is %d", r); } vs_assert(vs_get(LIVE) == 0); }
SCENARIO(task_obj, vs_opt().bound(2, 3).faults(ANY)) { tasks<Obj>(); }
SCENARIO(task_str, vs_opt().bound(2, 3).faults(ANY)) { tasks<Str>(); }
SCENARIO(task_void, vs_opt().bound(2, 3).faults(ANY)) { tasks<void>(); }
// async: either it throws and the function never runs, or the future becomes ready
template <class T> void asyncs(launch pol) { vs_fault_window(0); { boost::shared_ptr<int> p(new int(1)); fut<T> f; bool bad = failed([&] { f = async(pol, [p]() -> decltype(K<T>::mk(3)) { vs_add(RAN, 1); return K<T>::mk(3); }); }); vs_fault_window(0);
    if (bad) { vs_quiesce(); vs_assert_msg(vs_get(RAN) == 0, "the function ran although async failed"); vs_assert(!f.valid()); vs_assert_msg(p.use_count() == 1, "a copy of the function is left over"); } else { vs_assert(f.valid()); int r = fetch<T>(f); vs_assert_msg(r == val<T>(3), "the result is %d", r); vs_assert(vs_get(RAN) == 1); } f = fut<T>(); vs_quiesce(); vs_assert(vs_nthreads_alive() == 1 && p.use_count() == 1); } vs_assert(vs_get(LIVE) == 0); }
SCENARIO(async_obj, vs_opt().bound(2, 3).faults(ANY).leak()) { asyncs<Obj>(launch::async); }
SCENARIO(async_void, vs_opt().bound(2, 3).faults(ANY).leak()) { asyncs<void>(launch::async); }
SCENARIO(async_ref, vs_opt().bound(2, 3).faults(ANY).leak()) { asyncs<int&>(launch::async); }
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
SCENARIO(async_deferred, vs_opt().bound(2, 3).faults(ANY).leak()) { asyncs<Obj>(launch::deferred); }
#endif
// waiting for several futures: a failed wait leaves no trace in them
SCENARIO(wait_any, vs_opt().bound(2, 3).faults(ANY).leak()) { vs_fault_window(0); { promise<int> p, q; sfut<int> f(p.get_future()), g(q.get_future()); int how = vs_choose(2); vs_t w([&] { for (int i = 0; i < 2; i++) { bool bad = false; int r = -1;
        bad = failed([&] { if (how == 0) r = wait_for_any(f, g); else { sfut<int> a[2] = { f, g }; r = (int)(wait_for_any(a, a + 2) - a); } });
        if (!bad) { vs_assert_msg(r == 0 || r == 1, "returned %d", r); vs_assert((r ? g : f).is_ready()); break; } } });
    vs_choose(2) ? p.set_value(1) : q.set_value(2); w.join(); } }
SCENARIO(wait_all, vs_opt().bound(2, 3).faults(ANY).leak()) { vs_fault_window(0); { promise<int> p, q; sfut<int> f(p.get_future()), g(q.get_future()); vs_t w([&] { for (int i = 0; i < 2; i++) if (!failed([&] { wait_for_all(f, g); })) { vs_assert(f.is_ready() && g.is_ready()); break; } }); q.set_value(2); p.set_value(1); w.join(); } }
SCENARIO(ready_made, vs_opt().bound(1, 2).faults(ANY).leak()) { vs_fault_window(0); { fut<Str> f; bool bad = failed([&] { f = make_ready_future(K<Str>::mk(2)); }); if (!bad) vs_assert(f.is_ready() && fetch<Str>(f) == 2); else vs_assert(!f.valid()); } }
// ---- queues: a push that fails changes nothing
template <class Q> struct QK { static void push(Q& q, const Pay& p) { q.push(p); } static void pushm(Q& q, Pay& p) { q.push(boost::move(p)); } static int pull(Q& q) { Pay x; q.pull(x); return E<Pay>::rd(x); } };
template <> struct QK<sync_deque<Pay> > { typedef sync_deque<Pay> Q; static void push(Q& q, const Pay& p) { q.push_back(p); } static void pushm(Q& q, Pay& p) { q.push_back(boost::move(p)); } static int pull(Q& q) { Pay x; q.pull_front(x); return E<Pay>::rd(x); } };
template <> struct QK<sync_timed_queue<Pay> > { typedef sync_timed_queue<Pay> Q; static void push(Q& q, const Pay& p) { q.push(p, bc::steady_clock::now()); } static void pushm(Q& q, Pay& p) { q.push(boost::move(p), bc::steady_clock::now()); } static int pull(Q& q) { Pay x; q.pull(x); return E<Pay>::rd(x); } };
struct LessPay { bool operator()(const Pay& a, const Pay& b) const { return *a.p < *b.p; } };
template <class Q> void pushes(Q& q) { vs_fault_window(0); { int n = vs_choose(3), mv = vs_choose(2); for (int i = 0; i < n; i++) { Pay x(5); QK<Q>::push(q, x); } Pay y(5); Pay z(y);
    vs_t c([&] { vs_await(1, 1); vs_assert(QK<Q>::pull(q) == 5); }); vs_quiesce(); 
    bool bad = failed([&] { if (mv) QK<Q>::pushm(q, z); else QK<Q>::push(q, y); }); vs_assert_msg(q.size() == (size_t)(n + !bad), "%d elements after %d and a push that %s", (int)q.size(), n, bad ? "failed" : "worked"); vs_assert(*y.p == 5); 
    if (bad) { Pay x(5); QK<Q>::push(q, x); } vs_set(1, 1); c.join(); for (int i = 0; i < n; i++) vs_assert(QK<Q>::pull(q) == 5); vs_assert(q.empty()); } }
SCENARIO(push_queue, vs_opt().bound(2, 3).faults(ANY).leak()) { vs_fault_window(0); sync_queue<Pay> q; pushes(q); }
SCENARIO(push_deque, vs_opt().bound(2, 3).faults(ANY).leak()) { vs_fault_window(0); sync_deque<Pay> q; pushes(q); }
SCENARIO(push_bounded, vs_opt().bound(2, 3).faults(ANY).leak()) { vs_fault_window(0); sync_bounded_queue<Pay> q(4); pushes(q); }
SCENARIO(push_priority, vs_opt().bound(2, 3).faults(ANY).leak()) { vs_fault_window(0); sync_priority_queue<Pay, boost::csbl::vector<Pay>, LessPay> q; pushes(q); }
SCENARIO(push_timed, vs_opt().bound(2, 3).faults(ANY).leak()) { vs_fault_window(0); sync_timed_queue<Pay> q; pushes(q); }
#ifdef BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
// ---- continuations: then either fails and nothing runs, or its future becomes ready; a continuation that cannot be started makes it ready with that failure
struct Cont { boost::shared_ptr<int> p; template <class F> Obj operator()(F f) const { vs_assert(f.is_ready()); vs_add(RAN, 1); int r = f.get(); return Obj(r + 1); } };
template <class Fu> void thens(Fu f, promise<int>& p, int pol, bool early) {
    Cont c; c.p.reset(new int(1)); fut<Obj> r; basic_thread_pool* ex = pol == 3 ? new basic_thread_pool(1) : 0; if (early) p.set_value(2);
    launch L = pol == 0 ? launch::async : pol == 1 ? launch::deferred : launch::sync;
    bool bad = failed([&] { r = pol == 3 ? f.then(*ex, Cont(c)) : f.then(L, Cont(c)); if (!r.valid()) vs_assert_msg(false, "then gave no state"); }); int k0 = vs_faulted();
    if (bad) { if (!early) p.set_value(2); vs_quiesce(); vs_assert(!r.valid()); vs_assert_msg(vs_get(RAN) == 0, "the continuation ran although then failed"); f = Fu(); vs_quiesce(); vs_assert_msg(c.p.use_count() == 1, "a copy of the continuation is left over"); delete ex; return; }
    vs_assert(r.valid()); if (!early) { vs_fault_window_me(ANY); try { p.set_value(2); } catch (...) { vs_fault_window(0); vs_assert_msg(false, "set_value throws because of a continuation"); } vs_fault_window(0); }
    int v = -1, e = 0; try { v = r.get().v; } catch (thread_resource_error&) { e = 1; } catch (std::bad_alloc&) { e = 2; } catch (...) { e = 9; } (void)k0;
    if (e) { vs_assert_msg(vs_faulted() && e == (vs_faulted() == VSF_MALLOC ? 2 : 1), "failure %d in the future after a failure of kind %d", e, vs_faulted()); } else vs_assert(v == 3 && vs_get(RAN) == 1);
    delete ex; r = fut<Obj>(); f = Fu(); vs_quiesce(); vs_assert_msg(c.p.use_count() == 1, "a copy of the continuation is left over"); vs_assert(vs_nthreads_alive() == 1);
}
#define TH(name, pol) SCENARIO(then_##name, vs_opt().bound(1, 2).faults(ANY).leak()) { vs_fault_window(0); { promise<int> p; thens<fut<int> >(p.get_future(), p, pol, vs_choose(2)); } vs_assert(vs_get(LIVE) == 0); } SCENARIO(shared_then_##name, vs_opt().bound(1, 2).faults(ANY).leak()) { vs_fault_window(0); { promise<int> p; sfut<int> f(p.get_future()); thens<sfut<int> >(f, p, pol, vs_choose(2)); } vs_assert(vs_get(LIVE) == 0); }
TH(async, 0) TH(deferred, 1) TH(sync, 2) TH(executor, 3)
// ---- when_all, when_any, unwrap
template <class MK> void whens(MK mk, bool all) { { promise<int> p, q; fut<int> a(p.get_future()), b(q.get_future()); int early = vs_choose(3); if (early) p.set_value(1); if (early == 2) q.set_value(2); decltype(mk(a, b)) w; bool bad = failed([&] { w = mk(a, b); });
    if (bad) vs_assert(!w.valid()); if (early < 2) q.set_value(2); if (!early) p.set_value(1); if (!bad) { try { w.get(); } catch (std::bad_alloc&) { vs_assert(vs_faulted() == VSF_MALLOC); } catch (thread_resource_error&) { vs_assert(vs_faulted() && vs_faulted() != VSF_MALLOC); } } } vs_quiesce(); vs_assert(vs_nthreads_alive() == 1); }
#define WH(name, e, all) SCENARIO(name, vs_opt().bound(1, 2).faults(ANY).leak()) { vs_fault_window(0); whens([](fut<int>& a, fut<int>& b) { return e; }, all); }
#ifdef BOOST_THREAD_PROVIDES_FUTURE_WHEN_ALL_WHEN_ANY
WH(when_all_values, when_all(boost::move(a), boost::move(b)), true) WH(when_any_values, when_any(boost::move(a), boost::move(b)), false)
static boost::csbl::vector<fut<int> > both_of(fut<int>& a, fut<int>& b) { boost::csbl::vector<fut<int> > v; v.push_back(boost::move(a)); v.push_back(boost::move(b)); return v; }
#define WV(name, fn, all) SCENARIO(name, vs_opt().bound(1, 2).faults(ANY).leak()) { vs_fault_window(0); whens([](fut<int>& a, fut<int>& b) { boost::csbl::vector<fut<int> > v(both_of(a, b)); return fn(v.begin(), v.end()); }, all); }
WV(when_all_range, when_all, true) WV(when_any_range, when_any, false)
#endif
#ifdef BOOST_THREAD_PROVIDES_FUTURE_UNWRAP
SCENARIO(unwraps, vs_opt().bound(1, 2).faults(ANY).leak()) { vs_fault_window(0); { promise<fut<int> > po; promise<int> pi; fut<fut<int> > o(po.get_future()); fut<int> u; int order = vs_choose(2); bool bad = failed([&] { u = o.unwrap(); }); if (bad) vs_assert(!u.valid());
    vs_t t([&] { if (order) pi.set_value(3); vs_fault_window_me(ANY); po.set_value(pi.get_future()); vs_fault_window(0); if (!order) pi.set_value(3); }); t.join(); if (!bad) { int v = -1; try { v = u.get(); } catch (std::bad_alloc&) { vs_assert(vs_faulted() == VSF_MALLOC); v = 3; } vs_assert(v == 3); } } }
struct TM { int v; static void hit() { if (vs_get(50) > 0 && vs_add(50, -1) == 0) throw Ex(5); } TM(int i) : v(i) {} TM(TM&& o) : v(o.v) { hit(); o.v = -1; } TM(const TM& o) : v(o.v) { hit(); } TM& operator=(const TM& o) { v = o.v; return *this; } };
// a result that cannot be moved into the unwrapped future
SCENARIO(unwrap_throwing, vs_opt().bound(1, 2).leak()) { { promise<fut<TM> > po; promise<TM> pi; fut<fut<TM> > o(po.get_future()); fut<TM> u(o.unwrap()); bool late = vs_choose(2); if (!late) po.set_value(pi.get_future()); vs_set(50, vs_choose(6));
    vs_t t([&] { try { pi.set_value(TM(3)); } catch (Ex&) { pi.set_value(TM(3)); } if (late) po.set_value(pi.get_future()); }); u.wait(); t.join(); int v = 0, e = 0; try { v = u.get().v; } catch (Ex& x) { e = x.n; } vs_outcome("%d%d", v, e); vs_assert(v == 3 || e == 5); } }
#endif
#endif
#endif
// ---- once
SCENARIO(once, vs_opt().bound(2, 3).faults(ANY)) { vs_fault_window(0); once_flag o = BOOST_ONCE_INIT; auto f = [&] { vs_assert(vs_get(2) == 0); vs_add(1, 1); }; vs_t a([&] { call_once(o, f); vs_assert(vs_get(1) == 1); }); bool bad = failed([&] { call_once(o, f); vs_assert(vs_get(1) == 1); }); if (bad) call_once(o, f); a.join(); vs_assert(vs_get(1) == 1); }
// ---- calls that report EINTR
#define EI(name) SCENARIO(eintr_##name, vs_opt().bound(2, 3).faults(VSF_EINTR2, 2).leak())
template <class M> void eimutex() { M* m = new M; Data d; vs_t a([&] { m->lock(); d.bump(); m->unlock(); }); if (vs_choose(2)) { m->lock(); d.bump(); m->unlock(); } else if (m->try_lock()) { d.bump(); m->unlock(); } a.join(); d.check(); vs_assert(m->try_lock()); m->unlock(); delete m; }
EI(mutex) { eimutex<mutex>(); }
EI(timed_mutex) { eimutex<timed_mutex>(); }
EI(recursive_mutex) { eimutex<recursive_mutex>(); }
EI(recursive_timed_mutex) { eimutex<recursive_timed_mutex>(); }
EI(shared_mutex) { eimutex<shared_mutex>(); }
template <class CV> void eicv() { mutex m; CV* cv = new CV; bool b = false; int how = vs_choose(3); vs_t a([&] { unique_lock<mutex> l(m); if (how == 0) while (!b) cv->wait(l); else if (how == 1) { bool r = cv->wait_for(l, ms(FAR_), [&] { return b; }); vs_assert(r || vs_forced_tick()); } else vs_assert(!cv->wait_for(l, ms(DL), [] { return false; })); }); { unique_lock<mutex> l(m); b = true; } cv->notify_one(); a.join(); delete cv; }
EI(cv) { eicv<condition_variable>(); }
EI(cv_any) { eicv<condition_variable_any>(); }
EI(thread) { int x = 0; thread t([&] { x = 1; }); if (vs_choose(2)) t.join(); else if (!t.try_join_for(ms(FAR_))) { vs_assert(vs_forced_tick()); t.join(); } vs_assert(!t.joinable() && x == 1); }
EI(interrupt) { mutex m; condition_variable cv; bool in = false; thread t([&] { try { unique_lock<mutex> l(m); for (;;) cv.wait(l); } catch (thread_interrupted&) { in = true; } }); t.interrupt(); t.join(); vs_assert(in); }
EI(future) { promise<int> p; fut<int> f(p.get_future()); vs_t a([&] { vs_assert(f.get() == 2); }); p.set_value(2); a.join(); }
EI(barrier) { barrier b(2); int n = 0; vs_t a([&] { vs_add(3, b.wait()); }); vs_add(3, b.wait()); a.join(); vs_assert(vs_get(3) == 1); (void)n; }
EI(once) { once_flag o = BOOST_ONCE_INIT; int n = 0; vs_t a([&] { call_once(o, [&] { n++; }); }); call_once(o, [&] { n++; }); a.join(); vs_assert(n == 1); }
EI(queue) { sync_bounded_queue<int> q(1); vs_t a([&] { q.push(1); q.push(2); }); int x, y; q.pull(x); q.pull(y); vs_assert(x == 1 && y == 2); a.join(); }
EI(sleep) { long t = vs_now(); this_thread::sleep_for(ms(DL)); vs_assert(vs_now() >= t + DL * MS); }
