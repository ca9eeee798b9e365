// C02: timed waits on condition_variable and condition_variable_any
#include "cv.hpp"
enum { NOT = 0, RDY = 1, UNF = 2 };
// a clock of the user's own: half a second ahead of the steady clock
struct MyClock { typedef bc::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef bc::time_point<MyClock> time_point; enum { is_steady = 1 };
    static time_point now() { return time_point(bc::steady_clock::now().time_since_epoch() + bc::milliseconds(500)); } };
enum { NF = 8 };
// deadline forms; 4.. are relative
template <class K> int wait1(K*, typename K::CV& cv, typename K::L& l, int how, int n) {      // 1: no timeout, 0: timeout
    switch (how) {
    case 0: return cv.wait_for(K::arg(l), ms(n)) == cv_status::no_timeout;
    case 1: return cv.wait_until(K::arg(l), in_ms(n)) == cv_status::no_timeout;
    case 2: return cv.wait_until(K::arg(l), sys_in_ms(n)) == cv_status::no_timeout;
    case 3: return cv.wait_until(K::arg(l), MyClock::now() + ms(n)) == cv_status::no_timeout;
    case 4: return cv.wait_for(K::arg(l), bc::nanoseconds(n * MS)) == cv_status::no_timeout;
#ifdef BOOST_THREAD_USES_DATETIME
    case 5: return cv.timed_wait(K::arg(l), posix_time::milliseconds(n));
    case 6: return cv.timed_wait(K::arg(l), pt_in_ms(n));
    default: return cv.timed_wait(K::arg(l), xt_in_ms(n));
#else
    default: vs_cut();
#endif
    }
}
template <class K, class P> bool wait2(K*, typename K::CV& cv, typename K::L& l, int how, int n, P p) {
    switch (how) {
    case 0: return cv.wait_for(K::arg(l), ms(n), p);
    case 1: return cv.wait_until(K::arg(l), in_ms(n), p);
    case 2: return cv.wait_until(K::arg(l), sys_in_ms(n), p);
    case 3: return cv.wait_until(K::arg(l), MyClock::now() + ms(n), p);
    case 4: return cv.wait_for(K::arg(l), bc::nanoseconds(n * MS), p);
#ifdef BOOST_THREAD_USES_DATETIME
    case 5: return cv.timed_wait(K::arg(l), posix_time::milliseconds(n), p);
    case 6: return cv.timed_wait(K::arg(l), pt_in_ms(n), p);
    default: return cv.timed_wait(K::arg(l), xt_in_ms(n), p);
#else
    default: vs_cut();
#endif
    }
}
static long trunc(int how, long t) { return how >= 6 || how == 6 ? t / 1000 * 1000 : t; }
// nobody notifies: ends at the deadline with a timeout, not before, not much after
template <class K> void expires() {
    typename K::M m; typename K::CV cv; int how = vs_choose(NF), n = (vs_choose(4) - 2) * DL, pred = vs_choose(2); K* k = 0;
    typename K::L l(m); long t0 = trunc(how, vs_now()); int r = pred ? wait2(k, cv, l, how, n, [] { return false; }) : wait1(k, cv, l, how, n); long t = vs_now();
    vs_assert(l.owns_lock());
    if (pred) vs_assert_msg(!r, "the predicate is false but the wait says true");
    if (pred || !r) vs_assert_msg(t >= t0 + n * MS, "timeout %ld ns before the deadline", t0 + n * MS - t);
    if (!pred && r && n > 0) { vs_assert_msg(t < t0 + n * MS || vs_get(UNF), "no timeout reported at the deadline"); }
    if (!vs_forced_tick()) vs_assert_msg(t <= t0 + (n > 0 ? n * MS : 0) + MS, "the wait lasted %ld ns too long", t - t0 - n * MS);
    vs_outcome("%d%d%d", how, pred, r);
}
// a notification races with the deadline: the status is true to the clock, nothing is missed
template <class K> void race() {
    typename K::M m; typename K::CV cv; int how = vs_choose(NF), pred = vs_choose(2), ready = 0; K* k = 0; vs_set(NOT, -1);
    vs_t a([&] { typename K::L l(m); long t0 = trunc(how, vs_now()); int r, seen;
        if (pred) r = wait2(k, cv, l, how, DL, [&] { return ready != 0; }); else { r = 1; while (!ready && r) r = wait1(k, cv, l, how, DL); }
        long t = vs_now(); seen = ready; vs_assert(l.owns_lock());
        if (pred) vs_assert_msg(r == seen, "the wait returned %d, the predicate is %d", r, seen); else if (r) vs_assert(seen);
        if (!r) vs_assert_msg(t >= t0 + DL * MS, "timeout %ld ns before the deadline", t0 + DL * MS - t);
        if (!vs_forced_tick()) { vs_assert_msg(t <= t0 + 2 * DL * MS || (!pred && seen), "the wait lasted until %ld", t); if (vs_get(NOT) >= 0 && vs_get(NOT) < DL * MS) vs_assert_msg(t < t0 + DL * MS, "notified at %ld, woken at %ld", vs_get(NOT), t); } });
    int late = vs_choose(3); if (late) this_thread::sleep_for(ms(late == 1 ? DL / 2 : DL));
    { unique_lock<typename K::M> l(m); ready = 1; vs_set(NOT, vs_now()); } vs_choose(2) ? cv.notify_all() : cv.notify_one(); a.join();
}
// the predicate turned true without a notification: reported at the deadline
template <class K> void silent() {
    typename K::M m; typename K::CV cv; int how = vs_choose(NF), ready = 0; K* k = 0;
    vs_t a([&] { typename K::L l(m); int r = wait2(k, cv, l, how, DL, [&] { return ready != 0; }); vs_assert_msg(r == ready, "the wait returned %d, the predicate is %d", r, ready); });
    this_thread::sleep_for(ms(DL / 2)); { unique_lock<typename K::M> l(m); ready = 1; } a.join();
}
// a far deadline is never needed; a notified waiter that times out has not taken the notification of another
template <class K> void share() {
#ifdef VS_POLL_CFG
    vs_cut();   // the status is decided by the clock alone
#endif
    typename K::M m; typename K::CV cv; int how = vs_choose(2), to = 0, woken = 0; K* k = 0; 
    vs_t a([&] { typename K::L l(m); vs_add(2, 1); int r = wait1(k, cv, l, how, DL); if (r) { vs_set(4, 1); woken++; } else to++; }),
         b([&] { typename K::L l(m); vs_add(2, 1); cv.wait(K::arg(l)); woken++; vs_set(3, 1); });
    vs_tick_at(DL * MS); long p; { unique_lock<typename K::M> l(m); p = vs_get(2); cv.notify_one(); } vs_quiesce();
    if (p == 2) vs_assert_msg(vs_get(3) || vs_get(4) , "the notification went to a waiter that reports a timeout");
    cv.notify_all(); a.join(); b.join();
}
// notifications while the predicate stays false do not prolong the wait: the deadline is fixed when the wait begins
template <class K> void nagged() {
    typename K::M m; typename K::CV cv; int how = vs_choose(NF), all = vs_choose(2); K* k = 0;
    vs_t a([&] { typename K::L l(m); long t0 = trunc(how, vs_now()); bool r = wait2(k, cv, l, how, DL, [] { return false; }); long t = vs_now(); vs_assert(!r && l.owns_lock());
        vs_assert_msg(t >= t0 + DL * MS, "timeout %ld ns before the deadline", t0 + DL * MS - t);
        if (!vs_forced_tick()) vs_assert_msg(t <= t0 + DL * MS + MS, "notified in vain and waited %ld ns beyond the deadline", t - t0 - DL * MS); });
    for (int i = 0; i < 3; ++i) { this_thread::sleep_for(ms(DL * 3 / 5)); { unique_lock<typename K::M> l(m); } all ? cv.notify_all() : cv.notify_one(); } a.join();
}
// special posix_time durations
#ifdef BOOST_THREAD_USES_DATETIME
template <class K> void special() {
    typename K::M m; typename K::CV cv; int k = vs_choose(3), pred = vs_choose(2), ready = 0; posix_time::time_duration d = k == 0 ? posix_time::time_duration(date_time::pos_infin) : k == 1 ? posix_time::time_duration(date_time::neg_infin) : posix_time::time_duration(date_time::not_a_date_time);
    vs_t a([&] { typename K::L l(m); bool r; if (pred) { r = cv.timed_wait(K::arg(l), d, [&] { return ready != 0; }); vs_assert_msg(r == (ready != 0), "timed_wait returned %d, the predicate is %d", r, ready); } else { r = cv.timed_wait(K::arg(l), d); if (k == 0) vs_assert(r); } if (k == 0 && pred) vs_assert(ready); vs_assert(l.owns_lock()); });
    { unique_lock<typename K::M> l(m); ready = 1; } cv.notify_all(); if (k == 0 && !pred) { vs_quiesce(); cv.notify_all(); } a.join();
}
#endif
// the system clock is set while waiting: duration forms and steady deadlines do not care, system deadlines follow, notifications still arrive
template <class K> void jump() {
    typename K::M m; typename K::CV cv; int how = vs_choose(NF), fwd = vs_choose(2), ready = 0; K* k = 0; bool sys = how == 2 || how >= 6; bool notify = vs_choose(2);
    vs_t a([&] { typename K::L l(m); long t0 = trunc(how, vs_now()); long s0 = bc::system_clock::now().time_since_epoch().count(); int r = wait2(k, cv, l, how, 300, [&] { return ready != 0; }); long t = vs_now(); long s = bc::system_clock::now().time_since_epoch().count();
        vs_assert(r == ready); if (!r) { if (!sys) vs_assert_msg(t >= t0 + 300 * MS && t <= t0 + 401 * MS, "lasted %ld ns although the clock was only set", t - t0); else { vs_assert_msg(s - s0 >= 300 * MS - 1000, "timeout before the system clock reached the deadline"); vs_assert_msg(s - s0 <= 401 * MS || fwd, "timeout late"); if (fwd && !vs_forced_tick()) vs_assert_msg(t <= t0 + 151 * MS, "the system clock was set past the deadline and the wait lasted until %ld", t); } } });
    this_thread::sleep_for(ms(40)); vs_jump_realtime(fwd ? 5000 * MS : -100 * MS); if (notify) { { unique_lock<typename K::M> l(m); ready = 1; } cv.notify_one(); } a.join();
}
#define REG0(K) SCENARIO(expires_##K, vs_opt().bound(2, 3)) { expires<K>(); } SCENARIO(race_##K, vs_opt().bound(3, 5).spurious(1)) { race<K>(); } SCENARIO(silent_##K, vs_opt().bound(3, 4)) { silent<K>(); } SCENARIO(share_##K, vs_opt().bound(4, 6)) { share<K>(); } SCENARIO(jump_##K, vs_opt().bound(1, 2)) { jump<K>(); } SCENARIO(nagged_##K, vs_opt().bound(2, 3)) { nagged<K>(); }
#ifdef BOOST_THREAD_USES_DATETIME
#define REG(K) REG0(K) SCENARIO(special_##K, vs_opt().bound(4, 6)) { special<K>(); }
#else
#define REG(K) REG0(K)
#endif
REG(Plain) REG(Any) REG(AnyUser) REG(AnyX)
