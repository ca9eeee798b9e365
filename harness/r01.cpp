// R01: task_region
#include "fut.hpp"
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include "ex.hpp"
#else
using boost::thread; enum { RAN0 = 1 };
static void ran(int i) { vs_assert_msg(vs_add(RAN0 + i, 1) == 1, "task %d ran twice", i); }
static void clean() { vs_quiesce(); vs_assert_msg(!vs_get(LIVE), "%ld tasks left alive", vs_get(LIVE)); }
#endif
#include <boost/thread/experimental/task_region.hpp>
namespace par = boost::experimental::parallel;
using par::task_region; using par::task_region_handle; using par::exception_list; using par::task_canceled_exception;
struct RE { int id; RE(int i) : id(i) {} };
enum { DONE0 = 6, THROWN0 = 24, GOT0 = 29, STARTED0 = 34, BODY = 3, NID = 4 };
static void boom(int i) { vs_set(THROWN0 + i, 1); throw RE(i); }
// what the region threw, counted; lists are flattened
static void count(exception_list const& l) { vs_assert(l.size() > 0); size_t n = 0; for (exception_list::const_iterator i = l.begin(); i != l.end(); ++i, n++) { vs_assert_msg(!!*i, "an empty exception_ptr in the list"); try { boost::rethrow_exception(*i); } catch (RE& e) { vs_add(GOT0 + e.id, 1); } catch (exception_list&) { vs_fail("a list within the list"); } catch (task_canceled_exception&) { vs_fail("the cancellation is reported as an error"); } catch (boost::thread_interrupted&) { vs_add(GOT0 + NID, 1); } } vs_assert(n == l.size()); }
template <class F> static void whole(F f) { bool th = false; try { f(); } catch (exception_list& l) { th = true; count(l); } bool any = false; for (int i = 0; i < NID; i++) { if (vs_get(STARTED0 + i)) vs_assert_msg(vs_get(DONE0 + i), "the region is left while task %d has not ended", i); vs_assert_msg(vs_get(GOT0 + i) == vs_get(THROWN0 + i), "exception %d: thrown %ld times, reported %ld times", i, vs_get(THROWN0 + i), vs_get(GOT0 + i)); any |= vs_get(THROWN0 + i); } if (!vs_get(48)) vs_assert_msg(th == any, th ? "an exception out of nothing" : "exceptions lost"); }
struct Done { int i; Done(int i) : i(i) {} ~Done() { vs_set(DONE0 + i, 1); } };
static Data D[4];
// task i: counts, touches its data, throws or not
struct Job { Obj o; bool th; Data* d; Job(int i, bool t, Data* d) : o(i), th(t), d(d) {} void operator()() { Done x(o.v); ran(o.v); d->bump(); if (th) boom(o.v); } };
template <class R> static bool go(R& r, int i, bool th, Data* d, int form = 0) { try { if (form) { Job j(i, th, d); r.run(boost::move(j)); } else r.run(Job(i, th, d)); } catch (task_canceled_exception&) { throw; } vs_set(STARTED0 + i, 1); return true; }
// n tasks, each throwing or not, a wait in between or not, the body throwing or not
template <class R> static void body(R& r, int n, int mask, int wait, bool bth, Data* d, int form) { for (int i = 0; i < n; i++) { go(r, i, mask >> i & 1, d + i, form); if (wait == i + 1) { r.wait(); for (int j = 0; j <= i; j++) vs_assert(vs_get(DONE0 + j) && d[j].a == 1); } } if (bth) boom(BODY); }
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
typedef par::task_region_handle_gen<basic_thread_pool> HP;
#endif
static void plain(int n) { { Data d[3]; int mask = vs_choose(1 << n), w = vs_choose(n + 1); bool b = vs_choose(2); int form = vs_choose(2); whole([&] { task_region([&](task_region_handle& r) { body(r, n, mask, w, b, d, form); }); }); for (int i = 0; i < n; i++) { if (vs_get(STARTED0 + i)) vs_assert(vs_get(RAN0 + i) == 1 && d[i].a == 1 && d[i].b == 1); else vs_assert(!vs_get(RAN0 + i)); if (!mask) vs_assert(vs_get(STARTED0 + i)); } vs_assert_msg(mask || vs_get(BODY + THROWN0) == b, "cancelled without an error"); } clean(); }
SCENARIO(one, vs_opt().bound(1, 2).leak().secs(40, 300)) { vs_set_ncpu(1); plain(1); }
SCENARIO(two, vs_opt().bound(1, 2).leak().secs(60, 400)) { vs_set_ncpu(1); plain(2); }
SCENARIO(three, vs_opt().bound(0, 1).leak().secs(40, 400)) { vs_set_ncpu(1); plain(3); }
SCENARIO(none, vs_opt().bound(2, 3).leak()) { vs_set_ncpu(1); plain(0); }
// a region within a task, within the body: joined and reported too
static void nest(int where) { { Data d[3]; int mask = vs_choose(8); bool b = vs_choose(2); auto inner = [&] { task_region([&](task_region_handle& r) { go(r, 1, mask & 2, d + 1); if (mask & 4) boom(2); }); vs_assert(vs_get(DONE0 + 1)); }; whole([&] { task_region([&](task_region_handle& r) { if (where) { r.run([&] { Done x(0); inner(); if (mask & 1) boom(0); }); vs_set(STARTED0, 1); } else { go(r, 0, mask & 1, d); inner(); } if (b) boom(BODY); }); }); if (where) vs_assert(vs_get(DONE0 + 1) && d[1].a == 1); } clean(); }
SCENARIO(nested_task, vs_opt().bound(0, 1).leak().secs(60, 400)) { vs_set_ncpu(1); nest(1); }
SCENARIO(nested_body, vs_opt().bound(0, 1).leak().secs(60, 400)) { vs_set_ncpu(1); nest(0); }
// wait() reports to the body, which may go on; nothing is lost, nothing doubled at the end
SCENARIO(wait_caught, vs_opt().bound(2, 3).leak().secs(40, 300)) { { vs_set_ncpu(1); vs_set(48, 1); Data d[2]; int seen = 0; int twice = vs_choose(2); bool th = false; try { task_region([&](task_region_handle& r) { try { go(r, 0, true, d); for (int i = 0; i <= twice; i++) r.wait(); } catch (exception_list& l) { seen = 1; vs_assert(l.size() == 1); } catch (task_canceled_exception&) { } }); } catch (exception_list& l) { th = true; count(l); } vs_assert_msg(vs_get(GOT0) == 1 || (seen && !vs_get(GOT0)), "reported %ld times at the end", vs_get(GOT0)); (void)th; vs_assert(vs_get(DONE0) && d[0].a == 1); } clean(); }
// after a task has failed no more tasks start, in the body or a waiting one
SCENARIO(cancel, vs_opt().bound(2, 3).leak().secs(40, 300)) { { vs_set_ncpu(1); Data d[2]; int k = vs_choose(2); bool c = false; whole([&] { task_region([&](task_region_handle& r) { go(r, 0, true, d); vs_quiesce(); try { if (k) go(r, 1, false, d + 1); else r.wait(); } catch (task_canceled_exception&) { c = true; throw; } }); }); vs_assert(c && !vs_get(RAN0 + 1)); } clean(); }
SCENARIO(body_cancels, vs_opt().bound(1, 2).leak()) { { vs_set_ncpu(1); Data d[1]; bool t = vs_choose(2); whole([&] { task_region([&](task_region_handle& r) { go(r, 0, t, d); throw task_canceled_exception(); }); }); } clean(); }
// the data of the tasks are there after the region, before it for the tasks
SCENARIO(visible, vs_opt().bound(1, 2)) { vs_set_ncpu(1); Data d, e; e.bump(); task_region([&](task_region_handle& r) { d.bump(); r.run([&] { d.bump(); vs_assert(e.a == 1); }); e.check(); r.wait(); d.bump(); r.run([&] { d.bump(); }); }); d.bump(); vs_assert(d.a == 5); }
// two regions at once
SCENARIO(concurrent, vs_opt().bound(0, 1).leak().secs(60, 300)) { { vs_set_ncpu(1); Data d[2]; int m = vs_choose(4); auto f = [&](int i) { bool th = false; try { task_region([&](task_region_handle& r) { go(r, i, m >> i & 1, d + i); }); } catch (exception_list& l) { th = true; vs_assert(l.size() == 1); try { boost::rethrow_exception(*l.begin()); } catch (RE& e) { vs_assert(e.id == i); } } vs_assert(th == (m >> i & 1) && vs_get(DONE0 + i) && d[i].a == 1); }; vs_run([&] { f(0); }, [&] { f(1); }); } clean(); }
// an interrupted region still joins its tasks
#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
SCENARIO(interrupted, vs_opt().bound(1, 2).leak().secs(60, 300)) { { vs_set_ncpu(1); Data d[2]; int w = vs_choose(2); bool pend = false; thread t([&] { bool th = false; try { task_region([&](task_region_handle& r) { go(r, 0, false, d); go(r, 1, false, d + 1); if (w) r.wait(); }); } catch (exception_list& l) { th = true; count(l); } catch (boost::thread_interrupted&) { vs_add(GOT0 + NID, 1); } for (int i = 0; i < 2; i++) if (vs_get(STARTED0 + i)) { vs_assert_msg(vs_get(DONE0 + i), "the region is left while task %d has not ended", i); vs_assert(d[i].a == 1); } bool in = vs_get(46); pend = boost::this_thread::interruption_requested() || !in; vs_set(47, 1); }); t.interrupt(); vs_set(46, 1); t.join(); vs_assert_msg(vs_get(47) && (pend || vs_get(GOT0 + NID) == 1), "the interruption is lost"); } clean(); }
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
SCENARIO(interrupted_pool, vs_opt().bound(2, 3).leak().secs(60, 300)) { { basic_thread_pool p(1); Data d[2]; int w = vs_choose(2); thread t([&] { try { task_region(p, [&](HP& r) { go(r, 0, false, d); go(r, 1, false, d + 1); if (w) r.wait(); }); } catch (exception_list& l) { count(l); } catch (boost::thread_interrupted&) { } for (int i = 0; i < 2; i++) if (vs_get(STARTED0 + i)) { vs_assert_msg(vs_get(DONE0 + i), "the region is left while task %d has not ended", i); vs_assert(d[i].a == 1); } }); t.interrupt(); t.join(); } clean(); }
#endif
#endif
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
template <class E> static void on(E& e, int n) { typedef par::task_region_handle_gen<E> H; Data d[3]; int mask = vs_choose(1 << n), w = vs_choose(2) ? n : 0; bool b = vs_choose(2); whole([&] { task_region(e, [&](H& r) { body(r, n, mask, w, b, d, 0); }); }); for (int i = 0; i < n; i++) if (vs_get(STARTED0 + i)) vs_assert(vs_get(RAN0 + i) == 1 && d[i].a == 1); }
SCENARIO(pool1_one, vs_opt().bound(2, 3).leak().secs(40, 300)) { { basic_thread_pool p(1); on(p, 1); } clean(); }
SCENARIO(pool1_two, vs_opt().bound(2, 3).leak().secs(40, 300)) { { basic_thread_pool p(1); on(p, 2); } clean(); }
SCENARIO(pool2_two, vs_opt().bound(1, 2).leak().secs(60, 300)) { { basic_thread_pool p(2); on(p, 2); } clean(); }
SCENARIO(on_inline, vs_opt().bound(0, 0).leak()) { { boost::executors::inline_executor p; on(p, 3); } clean(); }
SCENARIO(on_threads, vs_opt().bound(1, 2).leak().secs(40, 300)) { { boost::executors::thread_executor p; on(p, 2); } clean(); }
SCENARIO(pool_reuse, vs_opt().bound(2, 3).leak().secs(40, 300)) { { basic_thread_pool p(1); Data d[2]; whole([&] { task_region(p, [&](HP& r) { go(r, 0, true, d); }); }); vs_set(THROWN0, 0); vs_set(GOT0, 0); whole([&] { task_region(p, [&](HP& r) { go(r, 1, false, d + 1); }); }); vs_assert(d[1].a == 1); } clean(); }
// the executor is closed in between: what started is joined, the refusal is reported
SCENARIO(closed, vs_opt().bound(2, 3).leak().secs(40, 300)) { { basic_thread_pool p(1); Data d[2]; bool th = false; try { task_region(p, [&](HP& r) { go(r, 0, false, d); p.close(); go(r, 1, false, d + 1); }); } catch (exception_list& l) { th = true; vs_assert(l.size() == 1); } vs_assert(th && vs_get(DONE0) && d[0].a == 1 && !vs_get(RAN0 + 1)); } clean(); }
SCENARIO(no_memory, vs_opt().bound(1, 1).leak().faults(VSF_MALLOC, 1).secs(60, 300)) { { vs_fault_window(0); basic_thread_pool p(1); Data d[2]; bool th = false; vs_fault_window(VSF_MALLOC); try { task_region(p, [&](HP& r) { go(r, 0, false, d); go(r, 1, false, d + 1); }); } catch (exception_list&) { th = true; } catch (std::bad_alloc&) { th = true; } vs_fault_window(0); for (int i = 0; i < 2; i++) { if (vs_get(RAN0 + i)) vs_assert_msg(vs_get(DONE0 + i), "the region is left while task %d is running", i); if (vs_get(STARTED0 + i) && !th) vs_assert(vs_get(DONE0 + i)); } long n = vs_get(RAN0) + vs_get(RAN0 + 1); vs_quiesce(); vs_assert_msg(n == vs_get(RAN0) + vs_get(RAN0 + 1), "a task ran after the region was left"); vs_assert(th || n == 2); } }
SCENARIO(no_thread, vs_opt().bound(0, 1).leak().faults(VSF_CREATE, 1).secs(60, 300)) { { vs_fault_window(0); vs_set_ncpu(1); Data d[2]; bool th = false; vs_fault_window(VSF_CREATE); try { task_region([&](task_region_handle& r) { go(r, 0, false, d); go(r, 1, false, d + 1); }); } catch (std::exception&) { th = true; } vs_fault_window(0); if (!th) vs_assert(vs_get(DONE0) && vs_get(DONE0 + 1)); vs_assert(vs_nthreads_alive() == 1); } }
#endif
SCENARIO(list, vs_opt().bound(0, 0).leak()) { exception_list l; vs_assert(l.size() == 0 && l.begin() == l.end()); int n = 1 + vs_choose(3); for (int i = 0; i < n; i++) l.add(boost::copy_exception(RE(i))); exception_list c(l); int k = 0; for (exception_list::const_iterator i = c.begin(); i != c.end(); ++i, k++) try { boost::rethrow_exception(*i); } catch (RE& e) { vs_assert(e.id == k); } vs_assert(k == n && (int)c.size() == n); }
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
SCENARIO(pool_nested_task, vs_opt().bound(2, 3).leak().secs(60, 400)) { { basic_thread_pool p(1), q(1); Data d[2]; int mask = vs_choose(4); whole([&] { task_region(p, [&](HP& r) { r.run([&] { Done x(0); task_region(q, [&](HP& s) { go(s, 1, mask & 2, d + 1); if (mask & 1) boom(0); }); }); vs_set(STARTED0, 1); }); }); } clean(); }
SCENARIO(pool_nested_body, vs_opt().bound(2, 3).leak().secs(60, 400)) { { basic_thread_pool p(1); Data d[2]; int mask = vs_choose(4); whole([&] { task_region(p, [&](HP& r) { go(r, 0, mask & 1, d); task_region(p, [&](HP& s) { go(s, 1, mask & 2, d + 1); }); }); }); } clean(); }
SCENARIO(pool_shared, vs_opt().bound(2, 3).leak().secs(60, 400)) { { basic_thread_pool p(1); Data d[2]; auto f = [&](int i) { bool th = false; try { task_region(p, [&](HP& r) { go(r, i, i, d + i); }); } catch (exception_list& l) { th = true; vs_assert(l.size() == 1); } vs_assert(th == (i == 1) && vs_get(DONE0 + i) && d[i].a == 1); }; vs_run([&] { f(0); }, [&] { f(1); }); } clean(); }
#endif
