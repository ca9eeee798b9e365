// I02: disabled interruption stays pending; scopes nest; operations that are no interruption points never throw
#include "cv.hpp"
#include <boost/thread/thread_only.hpp>
#include <boost/thread/once.hpp>
#include <boost/thread/future.hpp>
#include <new>
#ifdef VS_V2
typedef boost::thread_v2::upgrade_mutex SM;
#else
typedef boost::shared_mutex SM;
#endif
enum { INT = 1, THROWN = 2, HELD = 3, REL = 4, READY = 5 };
typedef this_thread::disable_interruption Dis; typedef this_thread::restore_interruption Res;
struct Scopes { struct E { bool dis; bool was; alignas(Dis) char mem[sizeof(Dis) > sizeof(Res) ? sizeof(Dis) : sizeof(Res)]; } e[8]; int n; bool en; Scopes() : n(0), en(true) {}
    void disable() { E& x = e[n++]; x.dis = true; x.was = en; new (x.mem) Dis; en = false; }
    bool restore(int which) { int d = -1; for (int i = n - 1; i >= 0; i--) if (e[i].dis && which-- == 0) { d = i; break; } if (d < 0) return false; E& x = e[n++]; x.dis = false; new (x.mem) Res(*reinterpret_cast<Dis*>(e[d].mem)); if (e[d].was) en = true; return true; }
    bool pop() { if (!n) return false; E& x = e[--n]; if (x.dis) { reinterpret_cast<Dis*>(x.mem)->~Dis(); en = x.was; } else { reinterpret_cast<Res*>(x.mem)->~Res(); en = false; } return true; }
    ~Scopes() { while (pop()); } };
// every operation at or under which an interruption may or may not come
static void point(int k) {
    mutex m; condition_variable cv; condition_variable_any ca; unique_lock<mutex> l(m);
    switch (k) { case 0: this_thread::interruption_point(); break; case 1: this_thread::sleep_for(ms(1)); break; case 2: cv.wait_for(l, ms(1)); break; case 3: ca.wait_until(l, in_ms(1)); break; case 4: this_thread::sleep(posix_time::milliseconds(1)); break; case 5: this_thread::sleep_until(sys_in_ms(1)); break; } }
static void nopoint(int k) {
    mutex m; timed_mutex t; recursive_mutex r; SM s; condition_variable cv; static once_flag f0; once_flag f = BOOST_ONCE_INIT;
    switch (k) {
    case 0: m.lock(); vs_assert(!m.try_lock()); m.unlock(); break; case 1: t.lock(); vs_assert(!t.try_lock_for(ms(1))); t.unlock(); break; case 2: r.lock(); r.lock(); r.unlock(); r.unlock(); break;
    case 3: s.lock(); vs_assert(!s.try_lock_shared_for(ms(1))); s.unlock(); break; case 4: s.lock_shared(); vs_assert(!s.try_lock_for(ms(1))); s.unlock_shared(); break; case 5: s.lock_upgrade(); vs_assert(!s.try_lock_upgrade_for(ms(1))); s.unlock_upgrade_and_lock(); s.unlock(); break;
    case 6: this_thread::no_interruption_point::sleep_for(ms(1)); break; case 7: this_thread::no_interruption_point::sleep_until(in_ms(1)); break; case 8: this_thread::yield(); break; case 9: cv.notify_all(); cv.notify_one(); break; case 10: call_once(f, [] {}); break;
    case 11: { promise<int> p; p.set_value(1); break; } case 12: { thread x([] {}); x.detach(); break; } case 13: this_thread::no_interruption_point::sleep(posix_time::milliseconds(1)); break; } }
SCENARIO(sequences, vs_opt().bound(0, 0).secs(60, 600)) {
    int depth = vs_thorough() ? 7 : 6; thread* tp = 0; 
    thread t([&] { vs_await(READY, 1); Scopes sc; bool pend = false;
        for (int i = 0; i < depth; i++) {
            switch (vs_choose(5)) {
            case 0: sc.disable(); break;
            case 1: if (!sc.restore(vs_choose(2))) vs_cut(); break;
            case 2: if (!sc.pop()) vs_cut(); break;
            case 3: tp->interrupt(); pend = true; break;
            case 4: { bool th = false; int k = i == depth - 1 ? vs_choose(6) : 0; try { point(k); } catch (thread_interrupted&) { th = true; } vs_assert_msg(th == (sc.en && pend), "an interruption point %s, interruption is %s and %s", th ? "threw" : "did not throw", sc.en ? "enabled" : "disabled", pend ? "requested" : "not requested"); if (th) pend = false; break; }
            }
            vs_assert_msg(this_thread::interruption_enabled() == sc.en, "interruption_enabled() is wrong"); vs_assert_msg(this_thread::interruption_requested() == pend, "interruption_requested() is wrong"); vs_assert(tp->interruption_requested() == pend);
        } });
    tp = &t; vs_set(READY, 1); while (0); t.join();
}
// not interruption points: pending request, enabled or not
SCENARIO(no_points, vs_opt().bound(0, 0)) {
    thread* tp = 0; thread t([&] { vs_await(READY, 1); tp->interrupt(); int k = vs_choose(14), k2 = vs_choose(14); bool th = false; try { nopoint(k); nopoint(k2); } catch (thread_interrupted&) { th = true; } vs_assert_msg(!th, "operation %d or %d was interrupted", k, k2); vs_assert_msg(this_thread::interruption_requested(), "the request got lost"); th = false; try { this_thread::interruption_point(); } catch (thread_interrupted&) { th = true; } vs_assert(th); });
    tp = &t; vs_set(READY, 1); t.join();
}
// blocked in something that is no interruption point while the request arrives
struct Ctx { mutex m; timed_mutex t; recursive_mutex r; SM s; once_flag o; Ctx() : o() {} };
static void hold(Ctx& c, int k) { switch (k) { case 0: c.m.lock(); break; case 1: c.t.lock(); break; case 2: c.r.lock(); break; case 3: case 4: case 5: case 6: case 7: case 8: c.s.lock(); break; case 9: case 10: case 11: case 12: c.s.lock_shared(); break; } }
static void release(Ctx& c, int k) { switch (k) { case 0: c.m.unlock(); break; case 1: c.t.unlock(); break; case 2: c.r.unlock(); break; case 3: case 4: case 5: case 6: case 7: case 8: c.s.unlock(); break; case 9: case 10: case 11: case 12: c.s.unlock_shared(); break; } }
static void block(Ctx& c, int k) { bool r = true; switch (k) { case 0: c.m.lock(); c.m.unlock(); break; case 1: r = c.t.try_lock_for(ms(FAR_)); if (r) c.t.unlock(); break; case 2: c.r.lock(); c.r.unlock(); break; case 3: case 9: c.s.lock(); c.s.unlock(); break; case 4: c.s.lock_shared(); c.s.unlock_shared(); break; case 5: c.s.lock_upgrade(); c.s.unlock_upgrade(); break;
    case 6: case 10: r = c.s.try_lock_for(ms(FAR_)); if (r) c.s.unlock(); break; case 7: r = c.s.try_lock_shared_for(ms(FAR_)); if (r) c.s.unlock_shared(); break; case 8: r = c.s.try_lock_upgrade_for(ms(FAR_)); if (r) c.s.unlock_upgrade(); break; case 11: c.s.lock_upgrade(); c.s.unlock_upgrade_and_lock(); c.s.unlock(); break; case 12: c.s.lock_upgrade(); r = c.s.try_unlock_upgrade_and_lock_for(ms(FAR_)); if (r) c.s.unlock(); else c.s.unlock_upgrade(); break; }
    vs_assert_msg(r || vs_forced_tick(), "a timed acquisition failed because of an interruption"); }
template <int LO, int HI> void blocked() {
    int k = LO + vs_choose(HI - LO), third = vs_choose(2); Ctx c; hold(c, k); bool th = false;
    thread t([&] { try { block(c, k); } catch (thread_interrupted&) { vs_fail("blocking operation %d, no interruption point, was interrupted", k); } vs_await(INT, 1); vs_assert_msg(this_thread::interruption_requested(), "the request got lost"); try { this_thread::interruption_point(); } catch (thread_interrupted&) { th = true; } vs_assert(th); });
    thread o([&] { if (third && k >= 3) { c.s.lock_shared(); c.s.unlock_shared(); } });
    t.interrupt(); vs_set(INT, 1); release(c, k); t.join(); o.join(); 
    vs_assert_msg(c.s.try_lock(), "the mutex is not free after an interruption request"); c.s.unlock();
}
SCENARIO(blocked_mutex, vs_opt().bound(4, 5)) { blocked<0, 3>(); }
SCENARIO(blocked_shared_mutex, vs_opt().bound(3, 4)) { blocked<3, 9>(); }
SCENARIO(blocked_shared_mutex_by_reader, vs_opt().bound(3, 4)) { blocked<9, 13>(); }
// call_once: waiting for another thread's run is no interruption point, the function's interruption reaches its caller
SCENARIO(blocked_once, vs_opt().bound(4, 6)) {
    once_flag f = BOOST_ONCE_INIT; int n = 0;
    thread a([&] { call_once(f, [&] { vs_point(); n++; }); }), b([&] { try { call_once(f, [&] { n++; }); } catch (thread_interrupted&) { vs_fail("call_once was interrupted"); } });
    b.interrupt(); a.join(); b.join(); vs_assert(n == 1);
}
// disabled: waits end normally, the request stays and is delivered after the scope
SCENARIO(deferred, vs_opt().bound(3, 4)) {
    int k = vs_choose(4), fin = vs_choose(6); mutex m; condition_variable cv; bool go = false; promise<int> p; BOOST_THREAD_FUTURE<int> f(p.get_future()); bool th = false;
    thread t([&] { { Dis d; try { unique_lock<mutex> l(m); switch (k) { case 0: while (!go) cv.wait(l); break; case 1: cv.wait_for(l, ms(FAR_), [&] { return go; }); break; case 2: l.unlock(); f.wait(); break; case 3: l.unlock(); this_thread::sleep_for(ms(DL)); break; } } catch (thread_interrupted&) { vs_fail("interrupted although interruption is disabled"); }
            vs_await(INT, 1); vs_assert_msg(this_thread::interruption_requested(), "the request got lost while interruption was disabled"); }
        try { point(fin); } catch (thread_interrupted&) { th = true; } vs_assert_msg(th, "the deferred interruption was not delivered"); vs_assert(!this_thread::interruption_requested()); });
    t.interrupt(); vs_set(INT, 1); { unique_lock<mutex> l(m); go = true; } cv.notify_all(); p.set_value(1); t.join();
}
// threads the library did not start are not interruptible
SCENARIO(foreign, vs_opt().bound(0, 0)) { int k = vs_choose(2); vs_t t([&] { if (k) this_thread::at_thread_exit([] {}); vs_assert(!this_thread::interruption_enabled()); vs_assert(!this_thread::interruption_requested()); { Dis d; vs_assert(!this_thread::interruption_enabled()); { Res r(d); vs_assert(!this_thread::interruption_enabled()); } vs_assert(!this_thread::interruption_enabled()); } vs_assert(!this_thread::interruption_enabled()); for (int i = 0; i < 6; i++) point(i); }); t.join(); }
