// I01: interruption is delivered exactly once, at the next or current interruption point, and never without a request

#include "cv.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/thread_guard.hpp>
#include <boost/thread/scoped_thread.hpp>
enum { INT = 1, THROWN = 2, CAUGHT = 3, STOP = 4, HOLD = 5 };
struct Ctx {
    mutex m; condition_variable cv; condition_variable_any cva; UserMutex um; shared_mutex sm; barrier bar; latch lat; promise<int> p; BOOST_THREAD_FUTURE<int> f; shared_future<void> sf; promise<void> pv; thread* blocked; bool go;
    Ctx() : bar(2), lat(1), f(p.get_future()), blocked(0), go(false) { sf = pv.get_future().share(); }
    void release() { { unique_lock<mutex> l(m); go = true; cv.notify_all(); } cva.notify_all(); }
};
static const int NK = 24;
static bool needs_thread(int k) { return k >= 11 && k <= 14; }
// blocks for n ms or for ever; returns normally only when that is over or released
static void block(Ctx& c, int k, int n) {
    auto go = [&c] { return c.go; }; 
    switch (k) {
    case 0: vs_await(INT, 1); this_thread::interruption_point(); break;
    case 1: { unique_lock<mutex> l(c.m); try { while (!c.go) c.cv.wait(l); } catch (...) { vs_assert_msg(l.owns_lock() && !vs_get(HOLD), "an interrupted wait returned without the lock"); throw; } break; }
    case 2: { unique_lock<mutex> l(c.m); c.cv.wait(l, go); break; }
    case 3: { unique_lock<mutex> l(c.m); try { c.cv.wait_for(l, ms(n), go); } catch (...) { vs_assert_msg(l.owns_lock(), "an interrupted wait returned without the lock"); throw; } break; }
    case 4: { unique_lock<mutex> l(c.m); c.cv.wait_until(l, in_ms(n), go); break; }
    case 5: { unique_lock<mutex> l(c.m); c.cv.wait_until(l, sys_in_ms(n)); break; }
    case 6: { UserLock l(c.um); try { c.cva.wait(l); } catch (...) { vs_assert_msg(l.owns_lock(), "an interrupted wait returned without the lock"); throw; } break; }
    case 7: { unique_lock<shared_mutex> l(c.sm); try { c.cva.wait_for(l, ms(n)); } catch (...) { vs_assert_msg(l.owns_lock(), "an interrupted wait returned without the lock"); throw; } break; }
    case 8: this_thread::sleep_for(ms(n)); break;
    case 9: this_thread::sleep_until(sys_in_ms(n)); break;
    case 10: this_thread::sleep(posix_time::milliseconds(n)); break;
    case 11: c.blocked->join(); break;
    case 12: c.blocked->try_join_for(ms(n)); break;
    case 13: c.blocked->try_join_until(sys_in_ms(n)); break;
    case 14: c.blocked->timed_join(posix_time::milliseconds(n)); break;
    case 15: c.bar.wait(); break;
    case 16: c.lat.wait(); break;
    case 17: c.f.wait(); break;
    case 18: c.f.get(); break;
    case 19: c.f.wait_for(ms(n)); break;
    case 20: c.sf.get(); break;
    case 21: { unique_lock<mutex> l(c.m); c.cv.timed_wait(l, posix_time::milliseconds(n), go); break; }
    case 22: boost::wait_for_any(c.f, c.sf); break;
    case 23: this_thread::sleep(pt_in_ms(n)); break;
    }
}
static bool timed(int k) { return k == 3 || k == 4 || k == 5 || (k >= 7 && k <= 10) || (k >= 12 && k <= 14) || k == 19 || k == 21 || k == 23; }
static void caught() { vs_add(THROWN, 1); }
template <class F> void attempt(F f) { try { f(); } catch (thread_interrupted&) { caught(); } }
struct Blocked { thread t; Blocked() : t(&run) {} static void run() { this_thread::disable_interruption d; vs_await(STOP, 1); } ~Blocked() { vs_set(STOP, 1); if (t.joinable()) t.join(); } };
// blocked for ever (or till a far deadline): only the interruption ends it
template <int LO, int HI> void blocked() {
    int k = LO + vs_choose(HI - LO); Ctx c; { Blocked b; c.blocked = &b.t;
    thread t([&] { vs_assert(this_thread::interruption_enabled()); attempt([&] { block(c, k, FAR_); if (!vs_forced_tick()) vs_fail("a blocking operation returned though nothing but an interruption could end it"); vs_await(INT, 1); this_thread::interruption_point(); });
        vs_assert_msg(vs_get(THROWN) == 1 , "interruption did not reach the thread"); vs_assert_msg(!this_thread::interruption_requested(), "the request survives its delivery"); attempt([] { this_thread::interruption_point(); }); vs_assert_msg(vs_get(THROWN) == 1, "one interruption was delivered twice"); });
    t.interrupt(); vs_set(INT, 1); t.join(); vs_assert(vs_get(THROWN) == 1); vs_assert_msg(vs_forced_tick() || vs_now() < FAR_ * MS, "the interrupted thread was woken by its timeout only");
    if (needs_thread(k)) vs_assert_msg(b.t.joinable(), "an interrupted join left the thread unjoinable"); }
}
SCENARIO(blocked_cv, vs_opt().bound(4, 6)) { blocked<0, 6>(); }
SCENARIO(blocked_any, vs_opt().bound(4, 5)) { blocked<6, 8>(); }
SCENARIO(blocked_sleep, vs_opt().bound(4, 5)) { blocked<8, 11>(); }
SCENARIO(blocked_join, vs_opt().bound(3, 4)) { blocked<11, 15>(); }
SCENARIO(blocked_other, vs_opt().bound(3, 4)) { blocked<15, 24>(); }
// the operation may end by itself at the same time: the request is then pending
template <int LO, int HI> void raced() {
    int k = LO + vs_choose(HI - LO), tm = timed(k) ? vs_choose(2) : 0; Ctx c; { Blocked b; c.blocked = &b.t;
    thread t([&] { attempt([&] { block(c, k, tm ? DL : FAR_); }); vs_await(INT, 1); bool pend = this_thread::interruption_requested(); vs_assert_msg(pend == !vs_get(THROWN), "%d interruptions delivered, interruption_requested() is %d", (int)vs_get(THROWN), pend); attempt([] { this_thread::interruption_point(); }); vs_assert_msg(vs_get(THROWN) == 1, "the interruption was delivered %d times", (int)vs_get(THROWN)); });
    vs_t i([&] { t.interrupt(); vs_set(INT, 1); });
    if (!tm) { switch (k) { case 6: case 7: case 15: if (k == 15) { attempt([&] { block(c, k, FAR_); }); } else c.cva.notify_all(); break; case 16: c.lat.count_down(); break; case 17: case 18: case 19: case 22: c.p.set_value(1); break; case 20: c.pv.set_value(); break; case 11: case 12: case 13: case 14: vs_set(STOP, 1); break; default: c.release(); } }
    i.join(); if (k == 15 || k == 6 || k == 7) t.interrupt(); t.join(); vs_assert(vs_get(THROWN) >= 1); }
}
SCENARIO(raced_cv, vs_opt().bound(3, 4)) { raced<1, 5>(); }
SCENARIO(raced_sleep, vs_opt().bound(3, 4)) { int k = vs_choose(2) ? 8 : vs_choose(2) ? 10 : 9; Ctx c; thread t([&] { attempt([&] { block(c, k, DL); }); vs_await(INT, 1); attempt([] { this_thread::interruption_point(); }); vs_assert(vs_get(THROWN) == 1); }); vs_tick_at(DL * MS); t.interrupt(); vs_set(INT, 1); t.join(); }
SCENARIO(raced_join, vs_opt().bound(2, 3)) { raced<11, 15>(); }
SCENARIO(raced_other, vs_opt().bound(2, 3)) { raced<16, 22>(); }
SCENARIO(raced_timed_wait, vs_opt().bound(3, 4)) { raced<21, 22>(); }
// two requests: the second one after the first was caught is delivered too; before, both count as one
SCENARIO(twice, vs_opt().bound(3, 5)) {
    int k = vs_choose(3) + 1; Ctx c; thread t([&] { attempt([&] { block(c, k, FAR_); }); vs_set(CAUGHT, 1); vs_await(INT, 2); bool sep = vs_get(6) && !vs_forced_tick(); attempt([] { this_thread::interruption_point(); }); int n = (int)vs_get(THROWN); vs_assert_msg(sep ? n == 2 : n == 1 || n == 2, "two interruptions, %d deliveries", n); attempt([] { this_thread::interruption_point(); }); vs_assert(n == vs_get(THROWN)); });
    t.interrupt(); vs_set(6, vs_get(CAUGHT)); t.interrupt(); vs_set(INT, 2); t.join();
}
// somebody else waiting on the same condition is not interrupted and still gets its own notification
SCENARIO(bystander, vs_opt().bound(3, 4)) {
    Ctx c; thread t([&] { attempt([&] { block(c, 1, FAR_); }); });
    thread o([&] { unique_lock<mutex> l(c.m); try { while (!c.go) c.cv.wait(l); } catch (thread_interrupted&) { vs_fail("a thread nobody interrupted was interrupted"); } });
    t.interrupt(); t.join(); vs_assert(vs_get(THROWN) == 1); c.release(); o.join();
}
// requests to threads not yet running, finished, detached or to no thread
SCENARIO(edges, vs_opt().bound(4, 6)) {
    int k = vs_choose(4);
    if (k == 0) { thread none; none.interrupt(); vs_assert(!none.interruption_requested()); return; }
    if (k == 1) { thread t([] { vs_set(6, 1); }); t.interrupt(); vs_assert(vs_get(6) || t.interruption_requested()); t.join(); vs_assert(vs_get(6)); return; }       // no interruption point: runs to its end
    if (k == 2) { thread t([] { vs_set(6, 1); this_thread::interruption_point(); vs_set(6, 2); }); if (vs_choose(2)) t.interrupt(); t.join(); vs_assert(vs_get(6) >= 1); return; }
    // escaping the thread's function: an ordinary end
    thread t([] { mutex m; condition_variable cv; unique_lock<mutex> l(m); for (;;) cv.wait(l); }); t.interrupt(); t.join(); vs_assert(!t.joinable());
}
// a request before the wait: no blocking at all, and the mutex of the wait untouched
SCENARIO(pending_first, vs_opt().bound(1, 2)) {
    int k = 1 + vs_choose(NK - 1); Ctx c; { Blocked b; c.blocked = &b.t; thread t([&] { vs_await(INT, 1); vs_assert(this_thread::interruption_requested()); attempt([&] { block(c, k, FAR_); }); vs_assert_msg(vs_get(THROWN) == 1, "a pending interruption was not delivered by operation %d", k); vs_assert(!this_thread::interruption_requested()); });
    t.interrupt(); vs_assert(t.interruption_requested()); vs_set(INT, 1); t.join(); vs_assert(vs_now() == 0 || vs_forced_tick()); }
}
// owners that interrupt
SCENARIO(guard_interrupts, vs_opt().bound(3, 4)) { Ctx c; int k = vs_choose(2); thread t([&] { attempt([&] { block(c, 1, FAR_); }); }); if (k) { thread_guard<interrupt_and_join_if_joinable> g(t); } else { scoped_thread<interrupt_and_join_if_joinable> s(boost::move(t)); } vs_assert(vs_get(THROWN) == 1); }
