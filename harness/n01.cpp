// N01: sleeps and timed waits against a system clock that is set, and against interrupted system calls
#include "vsh.hpp"
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_queue.hpp>
using namespace boost;
static const int W = 580; static const long FRAC = 345679;     // a duration of no round number
// the user's own clock: the system clock, coarser, with another epoch
struct Custom { typedef bc::microseconds duration; typedef duration::rep rep; typedef duration::period period; typedef bc::time_point<Custom> time_point; enum { is_steady = 0 };
    static time_point now() { return time_point(bc::ceil<duration>(bc::system_clock::now().time_since_epoch()) - bc::hours(10 * 365 * 24)); } };
// the scenarios with unusual, far and past deadlines also belong to the checks of the operations concerned (VS_GROUP and VS_G_x)
#define UNUSED_SCN(name, ...) [[maybe_unused]] static void unused_##name()
#ifdef VS_GROUP
#define G_N UNUSED_SCN
#else
#define G_N SCENARIO
#endif
#if !defined VS_GROUP || defined VS_G_M
#define G_M SCENARIO
#else
#define G_M UNUSED_SCN
#endif
#if !defined VS_GROUP || defined VS_G_S
#define G_S SCENARIO
#else
#define G_S UNUSED_SCN
#endif
#if !defined VS_GROUP || defined VS_G_C
#define G_C SCENARIO
#else
#define G_C UNUSED_SCN
#endif
#if !defined VS_GROUP || defined VS_G_T
#define G_T SCENARIO
#else
#define G_T UNUSED_SCN
#endif
#if !defined VS_GROUP || defined VS_G_F
#define G_F SCENARIO
#else
#define G_F UNUSED_SCN
#endif
#if !defined VS_GROUP || defined VS_G_B
#define G_B SCENARIO
#else
#define G_B UNUSED_SCN
#endif
#if !defined VS_GROUP || defined VS_G_Q
#define G_Q SCENARIO
#else
#define G_Q UNUSED_SCN
#endif
enum { DUR, DURS, STEADY, SYS, CUSTOM, PTREL, PTABS, NFORM,
    // W in unusual representations
    ODD_MS32 = NFORM, ODD_F64, ODD_PICO, ODD_FRAMES, ODD_TICKS, ODD_STEADY_US, ODD_STEADY_F64, ODD_SYS_S, ODD_SYS_MS, ODD_CUSTOM_S, ODD_PTREL, ODD_PTABS, ODD_END,
    // deadlines so far away that nobody reaches them
    FAR_H = ODD_END, FAR_MS32, FAR_S32, FAR_F64, FAR_STEADY, FAR_STEADY_MAX, FAR_SYS, FAR_SYS_H, FAR_SYS_MAX, FAR_CUSTOM, FAR_PTREL, FAR_PTABS, FAR_END,
    // deadlines in the past
    OLD_0 = FAR_END, OLD_1, OLD_MS, OLD_H, OLD_Y, OLD_F64, OLD_STEADY_0, OLD_STEADY_NEG, OLD_SYS_0, OLD_SYS_NEG, OLD_CUSTOM_0, OLD_CUSTOM_NEG, OLD_PTREL, OLD_PTREL_US, OLD_PTABS, OLD_PTABS_0, OLD_END };
static bool sysform(int f) { return f == SYS || f == CUSTOM || f == PTABS; }
static bool polled(int f) { return f == FAR_SYS || f == FAR_SYS_H || f == FAR_SYS_MAX || f == FAR_CUSTOM || f == FAR_PTABS; }
static const long HOUR = 3600 * 1000 * MS, DAY = 24 * HOUR, YEAR = 365 * DAY, AGES = 60 * YEAR;
static long vs_w;                                       // the length of the wait
template <class C, class D> bc::time_point<C, D> aim(bc::time_point<C, D> t) { vs_w = bc::duration_cast<bc::nanoseconds>(t - C::now()).count(); return t; }
template <class O> int call_odd(O& o, int f) {
    typedef bc::steady_clock S; typedef bc::system_clock R; typedef bc::duration<double> F64;
    switch (f) {
    case ODD_MS32: vs_w = W * MS; return o.rel(bc::duration<int, boost::milli>(W));
#ifdef VS_POLL_CFG
    case ODD_PICO: vs_cut();     // the system clock does not fit in picoseconds
    case ODD_F64: case ODD_STEADY_F64: case FAR_F64: vs_cut();   // polling spins through the last nanoseconds, as far as double cannot tell them apart: no end where only waiting makes time pass
#else
    case ODD_F64: vs_w = 580400000; return o.rel(F64(0.5804));
    case ODD_STEADY_F64: { long n = S::now().time_since_epoch().count(); vs_w = W * MS - 1000; return o.abs(bc::time_point<S, F64>(F64(n * 1e-9 + W * 1e-3))); }
    case FAR_F64: vs_w = AGES - 1000; return o.rel(bc::duration<double, boost::ratio<3600> >(60 * 365 * 24.));
    case ODD_PICO: vs_w = 580345678; return o.rel(bc::duration<long long, boost::pico>(580345678901ll));
#endif
    case ODD_FRAMES: vs_w = 566666666; return o.rel(bc::duration<int, boost::ratio<1, 30> >(17));
    case ODD_TICKS: vs_w = 580000100; return o.rel(bc::duration<long long, boost::ratio<1, 10000000> >(5800001));
    case ODD_STEADY_US: return o.abs(aim(bc::time_point<S, bc::microseconds>(bc::ceil<bc::microseconds>(S::now().time_since_epoch()) + bc::microseconds(580345))));
    case ODD_SYS_S: return o.abs(aim(bc::time_point<R, bc::seconds>(bc::ceil<bc::seconds>((R::now() + ms(W)).time_since_epoch()))));
    case ODD_SYS_MS: return o.abs(aim(bc::time_point<R, ms>(bc::ceil<ms>(R::now().time_since_epoch()) + ms(W))));
    case ODD_CUSTOM_S: { bc::time_point<Custom, bc::seconds> t(bc::ceil<bc::seconds>((Custom::now() + ms(W)).time_since_epoch())); aim(t); vs_w -= 1000; return o.abs(t); }
    case FAR_H: vs_w = 30 * DAY; return o.rel(bc::hours(30 * 24));
    case FAR_MS32: vs_w = 2147483647 * MS; return o.rel(bc::duration<int, boost::milli>(2147483647));
    case FAR_S32: vs_w = 2147483647l * 1000 * MS; return o.rel(bc::duration<int>(2147483647));
    case FAR_STEADY: vs_w = AGES; return o.abs(S::now() + bc::hours(60 * 365 * 24));
    case FAR_STEADY_MAX: vs_w = AGES; return o.abs((S::time_point::max)());
    case FAR_SYS: vs_w = AGES; return o.abs(R::now() + bc::hours(60 * 365 * 24));
    case FAR_SYS_H: vs_w = AGES; return o.abs(bc::time_point<R, bc::hours>(bc::hours(130 * 365 * 24)));
    case FAR_SYS_MAX: vs_w = AGES; return o.abs((R::time_point::max)());
    case FAR_CUSTOM: vs_w = AGES; return o.abs(Custom::now() + bc::hours(60 * 365 * 24 + 1));
    case OLD_0: vs_w = 0; return o.rel(ms(0));
    case OLD_1: vs_w = 0; return o.rel(bc::nanoseconds(-1));
    case OLD_MS: vs_w = 0; return o.rel(ms(-1500));
    case OLD_H: vs_w = 0; return o.rel(bc::hours(-30 * 24));
    case OLD_Y: vs_w = 0; return o.rel(bc::duration<int>(-2147483647));
    case OLD_F64: vs_w = 0; return o.rel(F64(-1e9));
    case OLD_STEADY_0: vs_w = 0; return o.abs(S::time_point());
    case OLD_STEADY_NEG: vs_w = 0; return o.abs(S::time_point(bc::nanoseconds(-5 * HOUR - 500 * MS)));
    case OLD_SYS_0: vs_w = 0; return o.abs(R::time_point());
    case OLD_SYS_NEG: vs_w = 0; return o.abs(bc::time_point<R, ms>(-bc::hours(24 * 365 * 3) - ms(500)));
    case OLD_CUSTOM_0: vs_w = 0; return o.abs(Custom::time_point());
    case OLD_CUSTOM_NEG: vs_w = 0; return o.abs(Custom::time_point(bc::microseconds(-1500000)));
#ifdef BOOST_THREAD_USES_DATETIME
    case ODD_PTREL: vs_w = 580345000; return o.ptrel(posix_time::microseconds(580345));
    case ODD_PTABS: vs_w = 580345000 - 1000; return o.ptabs(pt_in_ms(0) + posix_time::microseconds(580345));
    case FAR_PTREL: vs_w = AGES; return o.ptrel(posix_time::hours(60 * 365 * 24));
    case FAR_PTABS: vs_w = AGES - 1000; return o.ptabs(pt_in_ms(0) + posix_time::hours(60 * 365 * 24));
    case OLD_PTREL: vs_w = 0; return o.ptrel(posix_time::hours(-30 * 24));
    case OLD_PTREL_US: vs_w = 0; return o.ptrel(posix_time::microseconds(-1));
    case OLD_PTABS: vs_w = 0; return o.ptabs(system_time(gregorian::date(1960, 1, 1), posix_time::milliseconds(500)));
    case OLD_PTABS_0: vs_w = 0; return o.ptabs(posix_time::from_time_t(0));
#endif
    }
    vs_cut();
}
// calls op.rel(duration), op.abs(time point), op.ptrel, op.ptabs
template <class O> int call(O& o, int f) {
    if (f >= NFORM) return call_odd(o, f);
    vs_w = W * MS + (f == DURS ? FRAC : 0);
    switch (f) {
    case DUR: return o.rel(ms(W));
    case DURS: return o.rel(bc::nanoseconds(W * MS + FRAC));
    case STEADY: return o.abs(in_ms(W));
    case SYS: return o.abs(sys_in_ms(W));
    case CUSTOM: return o.abs(Custom::now() + ms(W));
#ifdef BOOST_THREAD_USES_DATETIME
    case PTREL: return o.ptrel(posix_time::milliseconds(W));
    case PTABS: return o.ptabs(pt_in_ms(W));
#endif
    }
    vs_cut();
}
// nobody ends the wait of o: it must end by the clock.  Slack: polling every 100 ms.
// once: a single wait without a predicate, which may also end early (without a timeout) or late when the clock is set
enum { TE = 5 };
template <class O> void run(O& o, int f, bool once = false) {
    long t0 = vs_now(); int r = call(o, f); long t = vs_now(), at, by = vs_jumped(&at), w = vs_w;
    if (r < 0) vs_fail("the wait ended with an impossible result %d", r);
    // the moment when it should end; system clock forms: when the system clock first stood at the deadline
    long lo = t0 + w, hi = lo, slack = 101 * MS;
    if (sysform(f)) {
        if (f != SYS) { lo -= 1000; hi += 1000; }       // microsecond clocks
        if (by && at < lo) { long a = lo - by > at ? lo - by : at, b = hi - by > at ? hi - by : at;
            if (at == t0) { lo = a < lo ? a : lo; hi = b > hi ? b : hi; } // the deadline was computed before or after the clock was set
            else lo = a, hi = b;
            if (by < 0) hi = t0 + W * MS + 1000 - by; } // set back just when the deadline was reached: may wait for it again
        else if (by < 0) hi -= by;
    }
#ifdef VS_POLL_CFG
    else if (by < 0) slack += -by;                      // a wait on the system clock cannot notice that it is set back
#endif
    if (f >= ODD_F64 && f <= ODD_CUSTOM_S || f == FAR_F64) hi += MS;      // rounding
    if (f >= OLD_0) slack = MS;
    if (r == 0) vs_assert_msg(t >= lo, "ended %ld ns early (clock set by %ld at %ld, started at %ld, ended at %ld)", lo - t, by, at, t0, t);
    if (!vs_forced_tick() && !(once && sysform(f))) vs_assert_msg(t <= hi + slack, "ended %ld ns late (clock set by %ld at %ld, started at %ld, ended at %ld)", t - hi, by, at, t0, t);
    long te = vs_get(TE);
    if (!te) vs_assert_msg(r == 0 || once, "reported success");
    else if (r == 1) { if (!vs_forced_tick()) vs_assert_msg(once || t <= te + MS, "the event came at %ld and was noticed at %ld", te, t); vs_assert(once || t >= te); }
    else if (!vs_forced_tick()) vs_assert_msg(lo <= te + slack, "reported a timeout at %ld, the event came at %ld before the deadline %ld", t, te, lo);
}
// the event that is waited for comes at 300 ms
template <class O, class E, class A> void ended(O& o, int f, E e, A after, bool once = false) {
    static const long by[4] = { 230, -230, 870, -870 };
    vs_t x([&] { this_thread::no_interruption_point::sleep_for(ms(300)); vs_set(TE, vs_now()); e(); });
    if (vs_choose(2)) { long b = by[vs_choose(4)]; vs_t j([=] { this_thread::no_interruption_point::sleep_for(ms(110)); vs_jump_realtime(b * MS); }); run(o, f, once); j.join(); } else run(o, f, once);
    after(); x.join();
}
// how the clock is set: by another thread after a while, or between any two looks at the clock
template <class O> void jumps(O& o, int f, bool once = false) {
    static const long by[4] = { 230, -230, 870, -870 };
    switch (vs_choose(5)) {
    case 0: run(o, f, once); break;
    // woken for nothing on the way, with the clock left alone and set
    case 4: { long b = vs_choose(2) ? 0 : by[vs_choose(4)]; vs_t j([=] { for (int i = 0; i < 3; i++) { this_thread::no_interruption_point::sleep_for(ms(110)); if (i == 1 && b) vs_jump_realtime(b * MS); } }); vs_spurious(1); run(o, f, once); vs_spurious(0); j.join(); break; }
    case 1: { long b = by[vs_choose(4)]; vs_t j([=] { this_thread::no_interruption_point::sleep_for(ms(110)); vs_jump_realtime(b * MS); }); run(o, f, once); j.join(); break; }
    case 2: { long b = by[vs_choose(4)]; vs_t j([=] { vs_jump_realtime(b * MS); }); run(o, f, once); j.join(); break; }
    case 3: vs_fault_window(VSF_JUMP); run(o, f, once); vs_fault_window(0); break;
    }
}
#define SCN(name) G_N(name, vs_opt().bound(2, 4).faults(VSF_JUMP | VSF_EINTR))
#define START vs_fault_window(0); int f = vs_choose(NFORM)
struct Sleep { template <class D> int rel(D d) { this_thread::sleep_for(d); return 0; } template <class T> int abs(T t) { this_thread::sleep_until(t); return 0; }
#ifdef BOOST_THREAD_USES_DATETIME
    template <class D> int ptrel(D d) { this_thread::sleep(d); return 0; } int ptabs(system_time t) { switch (vs_choose(3)) { case 0: this_thread::sleep(t); break; case 1: thread::sleep(t); break; default: this_thread::sleep(boost::get_xtime(t)); } return 0; }
#endif
};
struct SleepN { template <class D> int rel(D d) { this_thread::no_interruption_point::sleep_for(d); return 0; } template <class T> int abs(T t) { this_thread::no_interruption_point::sleep_until(t); return 0; }
#ifdef BOOST_THREAD_USES_DATETIME
    template <class D> int ptrel(D d) { this_thread::no_interruption_point::sleep(d); return 0; } int ptabs(system_time t) { this_thread::no_interruption_point::sleep(t); return 0; }
#endif
};
SCN(sleeps) { START; Sleep o; jumps(o, f); }
SCN(sleeps_in_thread) { START; thread t([=] { Sleep o; jumps(o, f); }); t.join(); }
SCN(sleeps_no_interruption) { START; SleepN o; jumps(o, f); }
G_N(sleeps_eintr, vs_opt().bound(2, 3).faults(VSF_EINTR, 2)) { START; SleepN o; vs_fault_window(VSF_EINTR); run(o, f); }
#ifdef BOOST_THREAD_USES_DATETIME
#define PT(REL, ABS) template <class D> int ptrel(D d) { return REL; } int ptabs(system_time d) { return ABS; }
#else
#define PT(REL, ABS)
#endif
struct Join { thread& t; template <class D> int rel(D d) { return t.try_join_for(d); } template <class T> int abs(T d) { return t.try_join_until(d); } PT(t.timed_join(d), t.timed_join(d)) };
SCN(joins) { START; int b = 1; vs_set(1, 0); thread t([] { vs_await(1, 1); }); { Join o = { t }; jumps(o, f); } vs_set(1, 1); t.join(); (void)b; }
template <class CV> struct Wait { CV& cv; unique_lock<mutex>& l; template <class D> int rel(D d) { return cv.wait_for(l, d) == cv_status::no_timeout; } template <class T> int abs(T d) { return cv.wait_until(l, d) == cv_status::no_timeout; } PT(cv.timed_wait(l, d), cv.timed_wait(l, d)) };
template <class CV> struct WaitP { CV& cv; unique_lock<mutex>& l; static bool no() { return false; } template <class D> int rel(D d) { return cv.wait_for(l, d, no); } template <class T> int abs(T d) { return cv.wait_until(l, d, no); } PT(cv.timed_wait(l, d, no), cv.timed_wait(l, d, no)) };
template <class CV> void waits() { START; mutex m; CV cv; unique_lock<mutex> l(m); Wait<CV> o = { cv, l }; jumps(o, f, true); }
template <class CV> void waitps() { START; mutex m; CV cv; unique_lock<mutex> l(m); WaitP<CV> o = { cv, l }; jumps(o, f); }
SCN(waits_cv) { waits<condition_variable>(); }
SCN(waits_any) { waits<condition_variable_any>(); }
SCN(waits_pred_cv) { waitps<condition_variable>(); }
SCN(waits_pred_any) { waitps<condition_variable_any>(); }
template <class M> struct Lock { M& m; int u(bool r) { if (r) m.unlock(); return r; } template <class D> int rel(D d) { return u(m.try_lock_for(d)); } template <class T> int abs(T d) { return u(m.try_lock_until(d)); } PT(u(m.timed_lock(d)), u(m.timed_lock(d))) };
template <class M> struct ULock { M& m; template <class D> int rel(D d) { unique_lock<M> l(m, d); return l.owns_lock(); } template <class T> int abs(T d) { unique_lock<M> l(m, defer_lock); return l.try_lock_until(d); } PT((unique_lock<M>(m, defer_lock).timed_lock(d)), (unique_lock<M>(m, d).owns_lock())) };
template <class M> struct Shared { M& m; int u(bool r) { if (r) m.unlock_shared(); return r; } template <class D> int rel(D d) { return u(m.try_lock_shared_for(d)); } template <class T> int abs(T d) { return u(m.try_lock_shared_until(d)); } PT(u(m.timed_lock_shared(d)), u(m.timed_lock_shared(d))) };
template <class M> struct Upgrade { M& m; int u(bool r) { if (r) m.unlock_upgrade(); return r; } template <class D> int rel(D d) { return u(m.try_lock_upgrade_for(d)); } template <class T> int abs(T d) { return u(m.try_lock_upgrade_until(d)); } 
#ifdef VS_V2
    PT(u(m.timed_lock_upgrade(d)), u(m.timed_lock_upgrade(d)))
#else
    PT((vs_cut(), 0), (vs_cut(), 0))
#endif
};
template <class M> struct UpX { M& m; int u(bool r) { if (r) m.unlock_and_lock_upgrade(); return r; } template <class D> int rel(D d) { return u(m.try_unlock_upgrade_and_lock_for(d)); } template <class T> int abs(T d) { return u(m.try_unlock_upgrade_and_lock_until(d)); } PT((vs_cut(), 0), (vs_cut(), 0)) };
template <class M> struct ShX { M& m; int u(bool r) { if (r) m.unlock_and_lock_shared(); return r; } template <class D> int rel(D d) { return u(m.try_unlock_shared_and_lock_for(d)); } template <class T> int abs(T d) { return u(m.try_unlock_shared_and_lock_until(d)); } PT((vs_cut(), 0), (vs_cut(), 0)) };
template <class M> struct ShU { M& m; int u(bool r) { if (r) m.unlock_upgrade_and_lock_shared(); return r; } template <class D> int rel(D d) { return u(m.try_unlock_shared_and_lock_upgrade_for(d)); } template <class T> int abs(T d) { return u(m.try_unlock_shared_and_lock_upgrade_until(d)); } PT((vs_cut(), 0), (vs_cut(), 0)) };
template <class M, class O> void locks() { START; M m; m.lock(); vs_t a([&] { O o = { m }; jumps(o, f); }); a.join(); m.unlock(); vs_assert(m.try_lock()); m.unlock(); }
SCN(locks_timed) { locks<timed_mutex, Lock<timed_mutex> >(); }
SCN(locks_timed_u) { locks<timed_mutex, ULock<timed_mutex> >(); }
SCN(locks_rec) { locks<recursive_timed_mutex, Lock<recursive_timed_mutex> >(); }
#ifdef VS_V2
typedef upgrade_mutex SM;
#else
typedef shared_mutex SM;
#endif
SCN(locks_shm) { locks<SM, Lock<SM> >(); }
SCN(locks_shm_shared) { locks<SM, Shared<SM> >(); }
#if !defined VS_V2 || defined BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
SCN(locks_shm_upgrade) { locks<SM, Upgrade<SM> >(); }
SCN(locks_up_to_x) { START; SM m; m.lock_shared(); vs_t a([&] { m.lock_upgrade(); UpX<SM> o = { m }; jumps(o, f); m.unlock_upgrade(); }); a.join(); m.unlock_shared(); vs_assert(m.try_lock()); m.unlock(); }
SCN(locks_sh_to_x) { START; SM m; m.lock_shared(); vs_t a([&] { m.lock_shared(); ShX<SM> o = { m }; jumps(o, f); m.unlock_shared(); }); a.join(); m.unlock_shared(); vs_assert(m.try_lock()); m.unlock(); }
SCN(locks_sh_to_up) { START; SM m; m.lock_upgrade(); vs_t a([&] { m.lock_shared(); ShU<SM> o = { m }; jumps(o, f); m.unlock_shared(); }); a.join(); m.unlock_upgrade(); vs_assert(m.try_lock()); m.unlock(); }
#endif
template <class F> struct Fut { F& u; template <class D> int rel(D d) { return u.wait_for(d) == future_status::ready; } template <class T> int abs(T d) { return u.wait_until(d) == future_status::ready; } PT(u.timed_wait(d), u.timed_wait_until(d)) };
SCN(futures) { START; promise<int> p; 
    if (vs_choose(2)) { BOOST_THREAD_FUTURE<int> u(p.get_future()); Fut<BOOST_THREAD_FUTURE<int> > o = { u }; jumps(o, f); } else { shared_future<int> u(p.get_future()); Fut<shared_future<int> > o = { u }; jumps(o, f); } p.set_value(1); }
struct Latch { latch& l; template <class D> int rel(D d) { return l.wait_for(d) == cv_status::no_timeout; } template <class T> int abs(T d) { return l.wait_until(d) == cv_status::no_timeout; } PT((vs_cut(), 0), (vs_cut(), 0)) };
SCN(latches) { START; latch l(1); Latch o = { l }; jumps(o, f); }
static int code(queue_op_status s) { return s == queue_op_status::timeout ? 0 : s == queue_op_status::not_ready ? 0 : s == queue_op_status::success ? 1 : -1; }
template <class Q> struct Pull { Q& q; template <class D> int rel(D d) { int x; return code(q.pull_for(d, x)); } template <class T> int abs(T d) { int x; return code(q.pull_until(d, x)); } PT((vs_cut(), 0), (vs_cut(), 0)) };
SCN(queue_priority) { START; typedef sync_priority_queue<int> Q; Q q; Pull<Q> o = { q }; jumps(o, f); }
template <class C> struct PullT { typedef sync_timed_queue<int, C> Q; Q& q; template <class D> int rel(D d) { int x; return code(q.pull_for(d, x)); } template <class D> int abs(bc::time_point<C, D> d) { int x; return code(q.pull_until(d, x)); } template <class T> int abs(T) { vs_cut(); } PT((vs_cut(), 0), (vs_cut(), 0)) };
template <class C> void tq() { START; typedef sync_timed_queue<int, C> Q; Q q; int k = vs_choose(2); if (k) q.push(1, C::now() + bc::hours(1)); PullT<C> o = { q }; jumps(o, f); }
SCN(queue_timed_steady) { tq<bc::steady_clock>(); }
SCN(queue_timed_system) { tq<bc::system_clock>(); }
SCN(queue_timed_custom) { tq<Custom>(); }
// an element of a timed queue is handed out when its time comes by the queue's clock
template <class C> struct Due { sync_timed_queue<int, C>& q; int form;
    int go() { int x = 0; switch (form) { case 0: x = q.pull(); break; case 1: q.pull(x); break; default: vs_assert(q.wait_pull(x) == queue_op_status::success); } vs_assert(x == 7); return 0; }
    template <class D> int rel(D) { return go(); } template <class T> int abs(T) { return go(); } PT(go(), go()) };
template <class C> void due(int f) { vs_fault_window(0); sync_timed_queue<int, C> q; Due<C> o = { q, vs_choose(3) }; q.push(7, ms(W)); jumps(o, f); }
SCN(queue_due_steady) { due<bc::steady_clock>(STEADY); }
SCN(queue_due_system) { due<bc::system_clock>(SYS); }
SCN(queue_due_custom) { due<Custom>(CUSTOM); }

// the event comes first: noticed at once, also when the clock has been set
#define END(name) G_N(ended_##name, vs_opt().bound(2, 4))
#define F_ int f = vs_choose(NFORM)
END(join) { F_; vs_set(1, 0); thread t([] { vs_await(1, 1); }); Join o = { t }; ended(o, f, [&] { vs_set(1, 1); }, nothing); if (t.joinable()) t.join(); }
template <class CV> struct WaitE { CV& cv; unique_lock<mutex>& l; bool& b; template <class D> int rel(D d) { return cv.wait_for(l, d, [&] { return b; }); } template <class T> int abs(T d) { return cv.wait_until(l, d, [&] { return b; }); } PT(cv.timed_wait(l, d, [&] { return b; }), cv.timed_wait(l, d, [&] { return b; })) };
template <class CV> void ewaits() { F_; mutex m; CV cv; bool b = false; unique_lock<mutex> l(m); WaitE<CV> o = { cv, l, b }; ended(o, f, [&] { { unique_lock<mutex> k(m); b = true; } cv.notify_one(); }, [&] { l.unlock(); }); }
END(wait_cv) { ewaits<condition_variable>(); }
END(wait_any) { ewaits<condition_variable_any>(); }
template <class M, class O> void elocks() { F_; M m; m.lock(); vs_set(1, 0); vs_t a([&] { O o = { m }; run(o, f); }); bool j = vs_choose(2); int b = vs_choose(4); static const long by[4] = { 230, -230, 870, -870 };
    this_thread::no_interruption_point::sleep_for(ms(110)); if (j) vs_jump_realtime(by[b] * MS); this_thread::no_interruption_point::sleep_for(ms(190)); vs_set(TE, vs_now()); m.unlock(); a.join(); vs_assert(m.try_lock()); m.unlock(); }
END(lock_timed) { elocks<timed_mutex, Lock<timed_mutex> >(); }
END(lock_rec) { elocks<recursive_timed_mutex, Lock<recursive_timed_mutex> >(); }
END(lock_shm) { elocks<SM, Lock<SM> >(); }
END(lock_shm_shared) { elocks<SM, Shared<SM> >(); }
#if !defined VS_V2 || defined BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
END(lock_shm_upgrade) { elocks<SM, Upgrade<SM> >(); }
#endif
END(future) { F_; promise<int> p; shared_future<int> u(p.get_future()); Fut<shared_future<int> > o = { u }; ended(o, f, [&] { p.set_value(3); }, nothing); vs_assert(u.get() == 3); }
END(latch) { F_; latch l(1); Latch o = { l }; ended(o, f, [&] { l.count_down(); }, nothing); }
END(queue_priority) { F_; sync_priority_queue<int> q; Pull<sync_priority_queue<int> > o = { q }; ended(o, f, [&] { q.push(1); }, nothing); }
END(queue_timed) { F_; sync_timed_queue<int> q; PullT<bc::steady_clock> o = { q }; ended(o, f, [&] { q.push(1, bc::steady_clock::now()); }, nothing); }
END(queue_timed_sys) { F_; sync_timed_queue<int, bc::system_clock> q; PullT<bc::system_clock> o = { q }; ended(o, f, [&] { q.push(1, bc::system_clock::now()); }, nothing, false); }

// unusual durations, far deadlines and past ones
#define ODD_(G, name, ...) G(odd_##name, vs_opt().bound(1, 2)) { int f = NFORM + vs_choose(ODD_END - NFORM); __VA_ARGS__ } G(old_##name, vs_opt().bound(1, 2)) { int f = OLD_0 + vs_choose(OLD_END - OLD_0); __VA_ARGS__ }
ODD_(G_N, sleep, Sleep o; run(o, f);)
ODD_(G_N, sleep_no_interruption, SleepN o; run(o, f);)
ODD_(G_T, join, vs_set(1, 0); thread t([] { vs_await(1, 1); }); { Join o = { t }; run(o, f); } vs_set(1, 1); t.join();)
ODD_(G_C, wait_cv, mutex m; condition_variable cv; unique_lock<mutex> l(m); Wait<condition_variable> o = { cv, l }; run(o, f, true);)
ODD_(G_C, wait_any, mutex m; condition_variable_any cv; unique_lock<mutex> l(m); Wait<condition_variable_any> o = { cv, l }; run(o, f, true);)
ODD_(G_C, wait_pred_cv, mutex m; condition_variable cv; unique_lock<mutex> l(m); WaitP<condition_variable> o = { cv, l }; run(o, f);)
ODD_(G_C, wait_pred_any, mutex m; condition_variable_any cv; unique_lock<mutex> l(m); WaitP<condition_variable_any> o = { cv, l }; run(o, f);)
template <class M, class O> void olocks(int f) { M m; m.lock(); vs_t a([&] { O o = { m }; run(o, f); }); a.join(); m.unlock(); vs_assert(m.try_lock()); m.unlock(); }
#define COMMA ,
ODD_(G_M, lock_timed, olocks<timed_mutex COMMA Lock<timed_mutex> >(f);)
ODD_(G_M, lock_timed_u, olocks<timed_mutex COMMA ULock<timed_mutex> >(f);)
ODD_(G_M, lock_rec, olocks<recursive_timed_mutex COMMA Lock<recursive_timed_mutex> >(f);)
ODD_(G_S, lock_shm, olocks<SM COMMA Lock<SM> >(f);)
ODD_(G_S, lock_shm_shared, olocks<SM COMMA Shared<SM> >(f);)
ODD_(G_F, future, promise<int> p; shared_future<int> u(p.get_future()); Fut<shared_future<int> > o = { u }; run(o, f); p.set_value(1);)
ODD_(G_B, latch, latch l(1); Latch o = { l }; run(o, f);)
ODD_(G_Q, queue_priority, sync_priority_queue<int> q; Pull<sync_priority_queue<int> > o = { q }; run(o, f);)
ODD_(G_Q, queue_timed, sync_timed_queue<int> q; PullT<bc::steady_clock> o = { q }; run(o, f);)
// what is free is obtained however old the deadline
template <class O> void had(O& o, int f) { long t0 = vs_now(); int r = call(o, f); vs_assert_msg(r == 1, "did not get what was free"); vs_assert(vs_forced_tick() || vs_now() == t0); }
G_M(free_lock_timed, vs_opt().bound(1, 2)) { int f = vs_choose(OLD_END); timed_mutex m; if (vs_choose(2)) { Lock<timed_mutex> o = { m }; had(o, f); } else { ULock<timed_mutex> o = { m }; had(o, f); } }
G_M(free_lock_rec, vs_opt().bound(1, 2)) { int f = vs_choose(OLD_END); recursive_timed_mutex m; bool again = vs_choose(2); if (again) m.lock(); Lock<recursive_timed_mutex> o = { m }; had(o, f); if (again) m.unlock(); }
G_S(free_lock_shm, vs_opt().bound(1, 2)) { int f = vs_choose(OLD_END); SM m; if (vs_choose(2)) { Lock<SM> o = { m }; had(o, f); } else { Shared<SM> o = { m }; had(o, f); } }
G_F(free_future, vs_opt().bound(1, 2)) { int f = vs_choose(OLD_END); promise<int> p; shared_future<int> u(p.get_future()); p.set_value(1); Fut<shared_future<int> > o = { u }; had(o, f); }
G_B(free_latch, vs_opt().bound(1, 2)) { int f = vs_choose(OLD_END); latch l(0); Latch o = { l }; had(o, f); }
G_Q(free_queue_priority, vs_opt().bound(1, 2)) { int f = vs_choose(OLD_END); sync_priority_queue<int> q; q.push(1); Pull<sync_priority_queue<int> > o = { q }; had(o, f); }
G_T(free_join, vs_opt().bound(1, 2)) { int f = vs_choose(OLD_END); thread t(nothing); vs_quiesce(); Join o = { t }; had(o, f); vs_assert(!t.joinable()); }
template <class CV> void fwait() { int f = vs_choose(OLD_END); mutex m; CV cv; bool b = true; unique_lock<mutex> l(m); WaitE<CV> o = { cv, l, b }; had(o, f); }
G_C(free_wait_cv, vs_opt().bound(1, 2)) { fwait<condition_variable>(); }
G_C(free_wait_any, vs_opt().bound(1, 2)) { fwait<condition_variable_any>(); }
// far deadlines: the wait is still there when the event comes, and not before
#define FAR(G, name) G(far_##name, vs_opt().bound(2, 4))
#define FF int f = FAR_H + vs_choose(FAR_END - FAR_H)
template <class O, class E> void fended(O& o, int f, E e, bool once = false) { vs_t x([&] { this_thread::no_interruption_point::sleep_for(ms(300)); vs_set(TE, vs_now()); e(); }); run(o, f, once); x.join(); }
FAR(G_T, join) { FF; vs_set(1, 0); thread t([] { vs_await(1, 1); }); Join o = { t }; fended(o, f, [&] { vs_set(1, 1); }); if (t.joinable()) t.join(); }
FAR(G_M, lock_timed) { FF; timed_mutex m; m.lock(); Lock<timed_mutex> o = { m }; vs_t a([&] { run(o, f); }); this_thread::no_interruption_point::sleep_for(ms(300)); vs_set(TE, vs_now()); m.unlock(); a.join(); }
FAR(G_M, lock_rec) { FF; recursive_timed_mutex m; m.lock(); Lock<recursive_timed_mutex> o = { m }; vs_t a([&] { run(o, f); }); this_thread::no_interruption_point::sleep_for(ms(300)); vs_set(TE, vs_now()); m.unlock(); a.join(); }
FAR(G_S, lock_shm) { FF; SM m; m.lock(); vs_t a([&] { Lock<SM> o = { m }; run(o, f); }); this_thread::no_interruption_point::sleep_for(ms(300)); vs_set(TE, vs_now()); m.unlock(); a.join(); }
FAR(G_S, lock_shm_shared) { FF; SM m; m.lock(); vs_t a([&] { Shared<SM> o = { m }; run(o, f); }); this_thread::no_interruption_point::sleep_for(ms(300)); vs_set(TE, vs_now()); m.unlock(); a.join(); }
FAR(G_F, future) { FF; promise<int> p; shared_future<int> u(p.get_future()); Fut<shared_future<int> > o = { u }; fended(o, f, [&] { p.set_value(3); }); }
FAR(G_B, latch) { FF; latch l(1); Latch o = { l }; fended(o, f, [&] { l.count_down(); }); }
FAR(G_Q, queue_priority) { FF; sync_priority_queue<int> q; Pull<sync_priority_queue<int> > o = { q }; fended(o, f, [&] { q.push(1); }); }
template <class CV> void fwaits() { FF; mutex m; CV cv; bool b = false; vs_t x([&] { this_thread::no_interruption_point::sleep_for(ms(300)); unique_lock<mutex> k(m); vs_set(TE, vs_now()); b = true; cv.notify_one(); }); { unique_lock<mutex> l(m); WaitE<CV> o = { cv, l, b }; run(o, f); } x.join(); }
FAR(G_C, wait_cv) { fwaits<condition_variable>(); }
FAR(G_C, wait_any) { fwaits<condition_variable_any>(); }
// sleeping until a far deadline (those which are not polled every 100 ms)
template <class O> void fsleep() { FF; if (polled(f) || f == FAR_STEADY_MAX) vs_cut();
#ifdef VS_POLL_CFG
    vs_cut();
#endif
    O o; run(o, f); }
FAR(G_N, sleep) { fsleep<Sleep>(); }
FAR(G_N, sleep_no_interruption) { fsleep<SleepN>(); }

#ifndef VS_POLL_CFG
// durations of single precision (a deadline of single precision is off by more than a millisecond once the system has been up for a day)
struct F32 { template <class O> static void go(O o) { vs_w = 562500000; long t0 = vs_now(); int r = o.rel(bc::duration<float, boost::ratio<60> >(0.009375f)); vs_assert(r == 0); vs_assert_msg(vs_now() >= t0 + vs_w, "ended %ld ns early", t0 + vs_w - vs_now()); } };
G_N(float32, vs_opt().bound(0, 0)) { switch (vs_choose(3)) {
    case 0: F32::go(Sleep()); break;
    case 1: { timed_mutex m; m.lock(); vs_t a([&] { Lock<timed_mutex> o = { m }; F32::go(o); }); a.join(); m.unlock(); break; }
    case 2: { promise<int> p; shared_future<int> u(p.get_future()); Fut<shared_future<int> > o = { u }; F32::go(o); break; }
} }
#endif
// an element with an unusual or past time
template <class C> struct DueO { sync_timed_queue<int, C>& q; int go() { int x = 0; switch (vs_choose(3)) { case 0: x = q.pull(); break; case 1: q.pull(x); break; default: vs_assert(q.wait_pull(x) == queue_op_status::success); } vs_assert(x == 7); return 0; }
    // (durations that can be expressed in the clock's)
    template <class D> typename std::enable_if<std::is_convertible<D, typename C::duration>::value, int>::type rel(D d) { if (vs_choose(2)) vs_assert(q.try_push(7, d) == queue_op_status::success); else q.push(7, d); return go(); }
    template <class D> typename std::enable_if<!std::is_convertible<D, typename C::duration>::value, int>::type rel(D) { vs_cut(); }
    template <class D> typename std::enable_if<std::is_convertible<D, typename C::duration>::value, int>::type abs(bc::time_point<C, D> t) { if (vs_choose(2)) vs_assert(q.try_push(7, t) == queue_op_status::success); else q.push(7, t); return go(); }
    int abs(...) { vs_cut(); } PT((vs_cut(), 0), (vs_cut(), 0)) };
ODD_(G_Q, due_steady, sync_timed_queue<int> q; DueO<bc::steady_clock> o = { q }; run(o, f);)
ODD_(G_Q, due_system, sync_timed_queue<int COMMA bc::system_clock> q; DueO<bc::system_clock> o = { q }; run(o, f);)
ODD_(G_Q, due_custom, sync_timed_queue<int COMMA Custom> q; DueO<Custom> o = { q }; run(o, f);)
FAR(G_Q, due) { FF; if (polled(f) || f == FAR_STEADY_MAX) vs_cut();
#ifdef VS_POLL_CFG
    vs_cut();
#endif
    sync_timed_queue<int> q; DueO<bc::steady_clock> o = { q }; run(o, f); }
