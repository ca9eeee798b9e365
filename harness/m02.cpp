// M02: a mutex that is released is obtained by a waiter; try and timed acquisitions report the truth.
#include "vsh.hpp"
using namespace boost;
enum { REL = 1, ST = 2, GOT = 3 };   // ghost cells

static bool xt(timed_mutex& m, int n) { return m.timed_lock(xt_in_ms(n)); }
template <class M> bool xt(M& m, int n) { return m.timed_lock(boost::system_time(xt_in_ms(n))); }
template <class M> bool timed(M& m, int how, int n) {
    switch (how) {
    case 0: return m.try_lock_for(ms(n));
    case 1: return m.try_lock_until(in_ms(n));
    case 2: return m.try_lock_until(sys_in_ms(n));
    case 3: return m.timed_lock(posix_time::milliseconds(n));
    case 4: return m.timed_lock(pt_in_ms(n));
    default: return xt(m, n);
    }
}
// a holder releases once; two waiters (untimed, or timed with a far deadline) must both get it without waiting for a timeout
template <class M> void handoff() {
    M m; m.lock(); int x = 0;
    int k = vs_choose(3);
    auto w = [&](int kind) { return [&, kind] { if (kind) { bool r = timed(m, 0, FAR_); if (!r && vs_forced_tick()) { vs_set(7, 1); return; } vs_assert_msg(r, "timed acquisition failed although the mutex was released"); } else m.lock();
        x++; m.unlock(); vs_assert_msg(vs_forced_tick() || vs_now() < FAR_ * MS, "a waiter was woken by its timeout only"); }; };
    vs_t a(w(k & 1)), b(w(k >> 1)); m.unlock(); a.join(); b.join(); if (!vs_get(7)) vs_assert(x == 2);
}
// a timed waiter against a holder: failure only once the deadline has passed and never if the mutex had been free before it
template <class M> void deadline() {
    M m; int how = vs_choose(6); bool got = false; vs_set(REL, -1);
    m.lock();
    vs_t a([&] { long t0 = vs_now(); got = timed(m, how, DL); long t = vs_now(); long r = vs_get(REL); if (how >= 4) t0 = t0 / 1000 * 1000;   // posix_time has microseconds
        if (!got) { vs_assert_msg(t >= t0 + DL * MS, "timed acquisition gave up %ld ns early", t0 + DL * MS - t);
                    vs_assert_msg(r < 0 || r >= t0 + DL * MS || vs_forced_tick(), "mutex was free before the deadline but the acquisition failed"); }
        else { vs_assert_msg(r >= 0, "acquired while held"); m.unlock(); } });
    vs_tick_at(DL * MS / 2); vs_tick_at(DL * MS + 1);
    if (vs_choose(2)) this_thread::sleep_for(ms(vs_choose(2) ? DL - 1 : 2 * DL));
    vs_set(REL, vs_now()); m.unlock(); a.join(); vs_outcome("%d:%d", how, got);
    m.lock(); m.unlock();        // still usable
}
// never released: every timed form ends, at its deadline
template <class M> void expires() {
    M m; m.lock(); int how = vs_choose(6);
    vs_t a([&] { vs_assert(!timed(m, how, DL)); vs_assert(vs_now() >= DL * MS); if (!vs_forced_tick()) vs_assert_msg(vs_now() < 4 * DL * MS, "timeout long after the deadline"); vs_assert(!m.try_lock()); });
    a.join(); m.unlock(); vs_assert(m.try_lock()); m.unlock();
}
// past deadlines: succeed on a free mutex, fail at once on a held one
template <class M> void past() {
    M m; int how = vs_choose(6), n = -vs_choose(3); vs_assert_msg(timed(m, how, n), "past deadline on a free mutex");
    vs_t a([&] { vs_assert_msg(!timed(m, how, n), "acquired while held"); vs_assert(vs_now() == 0 || vs_forced_tick()); }); a.join(); m.unlock();
}
// try_lock fails only while another thread is between the start of lock and the end of unlock
template <class M> void trytruth() {
    M m; bool r = false; long b = 0, e = 0;
    vs_run([&] { vs_set(ST, 1); vs_point(); m.lock(); vs_point(); m.unlock(); vs_point(); vs_set(ST, 2); },
           [&] { b = vs_get(ST); r = m.try_lock(); e = vs_get(ST); if (r) m.unlock(); });
    if (!r) vs_assert_msg(b != 2 && e != 0, "try_lock failed on a free mutex"); vs_outcome("%d", r);
}
// special durations: never claim ownership that was not acquired
template <class M> void special() {
    M m; int k = vs_choose(3); bool held = vs_choose(2); posix_time::time_duration d = k == 0 ? posix_time::time_duration(date_time::pos_infin) : k == 1 ? posix_time::time_duration(date_time::neg_infin) : posix_time::time_duration(date_time::not_a_date_time);
    if (held) m.lock();
    int got = 0;
    vs_t a([&] { bool r = m.timed_lock(d); got = r; if (r) { vs_assert_msg(vs_get(ST) || !held, "timed_lock reported ownership of a mutex another thread holds"); vs_set(GOT, 1); vs_await(ST, 2); m.unlock(); } });
    if (held) { if (k == 0) { vs_point(); vs_set(ST, 1); m.unlock(); } vs_quiesce(); }
    else vs_quiesce();
    if (vs_get(GOT)) vs_assert_msg(!m.try_lock(), "timed_lock reported ownership but the mutex is free");
    vs_set(ST, 2); a.join(); if (held && k) m.unlock();
    vs_assert(m.try_lock()); m.unlock(); if (k == 0) vs_assert(got); vs_outcome("%d%d%d", k, held, got);
}
template <class M> void untimed_handoff() {
    M m; m.lock(); int x = 0; auto w = [&] { m.lock(); x++; m.unlock(); };
    vs_t a(w), b(w), c(w); m.unlock(); a.join(); b.join(); c.join(); vs_assert(x == 3);
}
// timed waiters whose timeout coincides with the release do not swallow the wakeup of another waiter
template <class M> void steal() {
    M m; m.lock(); int x = 0; bool g = false;
    vs_t a([&] { g = timed(m, 0, DL); if (g) { x++; m.unlock(); } }), b([&] { m.lock(); x++; m.unlock(); });
    vs_tick_at(DL * MS); m.unlock(); a.join(); b.join(); vs_assert(x == 1 + g);
}
// the mutex changes hands between other threads while a timed waiter waits
template <class M> void prolonged() { M m; m.lock(); int how = vs_choose(6), g = vs_choose(2); halfway([&] { bool r = timed(m, how, DL); if (r) m.unlock(); return !r; }, [&] { if (g) { m.unlock(); m.lock(); } }); m.unlock(); vs_assert(m.try_lock()); m.unlock(); }
#define REGU(M) SCENARIO(untimed_handoff_##M, vs_opt().bound(6, 8)) { untimed_handoff<M>(); } \
    SCENARIO(trytruth_##M, vs_opt().bound(9, 11)) { trytruth<M>(); }
#define REG(M) \
    SCENARIO(handoff_##M, vs_opt().bound(5, 7).spurious(1)) { handoff<M>(); } \
    SCENARIO(deadline_##M, vs_opt().bound(7, 9).spurious(1)) { deadline<M>(); } \
    SCENARIO(expires_##M, vs_opt().bound(7, 9).spurious(1)) { expires<M>(); } \
    SCENARIO(past_##M, vs_opt().bound(5, 7)) { past<M>(); } \
    SCENARIO(special_##M, vs_opt().bound(5, 7)) { special<M>(); } \
    SCENARIO(steal_##M, vs_opt().bound(7, 9)) { steal<M>(); } \
    SCENARIO(prolonged_##M, vs_opt().bound(3, 5).spurious(1)) { prolonged<M>(); }
#ifndef VS_NOREC
REGU(mutex) REGU(timed_mutex) REG(timed_mutex)
#endif
REGU(recursive_mutex) REGU(recursive_timed_mutex) REG(recursive_timed_mutex)
