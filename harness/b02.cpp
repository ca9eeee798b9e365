// B02: latch
#include "vsh.hpp"
#include <boost/thread/latch.hpp>
#include <boost/thread/thread_only.hpp>
using namespace boost;
enum { CNT = 1, REL = 2, ARR = 3 };
enum { W_WAIT, W_TRY, W_FOR, W_UNTIL, W_SYS, NW };
static bool w(latch& l, int f, int n) { switch (f) { case W_WAIT: l.wait(); return true; case W_TRY: return l.try_wait(); case W_FOR: return l.wait_for(ms(n)) == cv_status::no_timeout; case W_UNTIL: return l.wait_until(in_ms(n)) == cv_status::no_timeout; case W_SYS: return l.wait_until(sys_in_ms(n)) == cv_status::no_timeout; } return false; }
enum { C_DOWN, C_SIGNAL, C_TRY, NC };
static void down(latch& l, int f) { vs_add(CNT, 1); switch (f) { case C_DOWN: l.count_down(); break; case C_SIGNAL: l.signal(); break; case C_TRY: { bool r = l.try_count_down(); (void)r; } } }
// the counters' data must be visible to the waiters
struct Shared { int v[3]; Shared() { v[0] = v[1] = v[2] = 0; } };
template <int N, int W> void run(bool timed) {
    latch l(N); Shared s; int id[N + W]; int cf = vs_choose(NC), wf = timed ? W_FOR + vs_choose(3) : W_WAIT;
    for (int i = 0; i < N; i++) id[i] = vs_spawn([&, i] { s.v[i] = i + 1; down(l, cf); });
    for (int i = 0; i < W; i++) id[N + i] = vs_spawn([&] { bool r = w(l, wf, FAR_); if (!vs_forced_tick()) vs_assert_msg(r, "a timed wait missed the opening"); if (r) { vs_assert_msg(vs_get(CNT) == N, "a waiter was released after %ld of %d counts", vs_get(CNT), N); for (int k = 0; k < N; k++) vs_assert_msg(s.v[k] == k + 1, "the effect of a counting thread is not visible"); } vs_assert_msg(!r || l.try_wait(), "an open latch closed"); vs_add(REL, 1); });
    for (int i = 0; i < N + W; i++) vs_pthread_join(id[i]); vs_assert(vs_get(REL) == W); vs_assert_msg(l.try_wait() && l.try_count_down(), "the latch did not stay open"); l.wait(); vs_assert(l.wait_for(ms(0)) == cv_status::no_timeout && l.wait_until(in_ms(-5)) == cv_status::no_timeout);
}
SCENARIO(one_one, vs_opt().bound(5, 8).spurious(1).secs(40, 200)) { run<1, 1>(false); }
SCENARIO(one_one_timed, vs_opt().bound(5, 7).spurious(1).secs(40, 200)) { run<1, 1>(true); }
SCENARIO(two_one, vs_opt().bound(5, 7).spurious(1).secs(40, 200)) { run<2, 1>(false); }
SCENARIO(one_two, vs_opt().bound(4, 6).spurious(1).secs(40, 200)) { run<1, 2>(false); }
SCENARIO(two_two, vs_opt().bound(3, 4).secs(40, 200)) { run<2, 2>(false); }
SCENARIO(two_two_timed, vs_opt().bound(2, 3).secs(40, 200)) { run<2, 2>(true); }
SCENARIO(three_one, vs_opt().bound(3, 4).secs(40, 200)) { run<3, 1>(false); }
// not released before: with one count missing everyone stays
SCENARIO(missing, vs_opt().bound(3, 4).spurious(1).blocked_ok()) { latch& l = *new latch(2); int cf = vs_choose(NC); for (int i = 0; i < 2; i++) vs_spawn([&, i] { if (i) { l.count_down_and_wait(); } else l.wait(); vs_add(REL, 1); }); vs_quiesce(); vs_assert_msg(vs_get(REL) == 0 && !l.try_wait(), "a waiter was released with one count missing"); down(l, cf); vs_quiesce(); vs_assert_msg(vs_get(REL) == 2 && l.try_wait(), "%ld of two waiters released", vs_get(REL)); }
// timed waits give up at the deadline, not before, and count nothing
SCENARIO(timed_out, vs_opt().bound(2, 3).spurious(1)) { latch l(1); int f = W_TRY + vs_choose(4), n = vs_choose(3) * DL - DL; long t0 = vs_now(); bool r = w(l, f, n); vs_assert_msg(!r, "a closed latch was reported open"); if (f != W_TRY) { vs_assert_msg(vs_now() - t0 >= n * MS, "a timed wait gave up early"); vs_assert(vs_now() - t0 <= (n > 0 ? n * MS : 0) + 2000000); } else vs_assert(vs_now() == t0); l.count_down(); vs_assert(w(l, f, n)); }
SCENARIO(timed_race, vs_opt().bound(4, 6).spurious(1)) { latch l(1); Data d; int f = W_TRY + vs_choose(4); vs_t c([&] { d.bump(); vs_add(CNT, 1); l.count_down(); }); long t0 = vs_now(); bool r = w(l, f, DL); if (r) { vs_assert_msg(vs_get(CNT) == 1, "open before the count"); vs_assert(d.a == 1); } else if (f != W_TRY) vs_assert_msg(vs_now() - t0 >= DL * MS, "gave up before the deadline"); c.join(); vs_assert(l.try_wait()); }
// count_down_and_wait in every mix
SCENARIO(rendezvous, vs_opt().bound(6, 8).spurious(1).secs(40, 200)) { latch l(2); Shared s; int k = vs_choose(2); auto t = [&](int i) { s.v[i] = 1; vs_add(CNT, 1); if (i && k) l.sync(); else l.count_down_and_wait(); vs_assert_msg(vs_get(CNT) == 2, "released early"); vs_assert(s.v[1 - i] == 1); }; vs_run([&] { t(0); }, [&] { t(1); }); vs_assert(l.try_wait()); }
SCENARIO(rendezvous3, vs_opt().bound(4, 6).secs(40, 200)) { latch l(3); Shared s; auto t = [&](int i) { s.v[i] = 1; vs_add(CNT, 1); if (i < 2) l.count_down_and_wait(); else { l.count_down(); return; } vs_assert_msg(vs_get(CNT) == 3, "released early"); vs_assert(s.v[0] && s.v[1] && s.v[2]); }; vs_run([&] { t(0); }, [&] { t(1); }, [&] { t(2); }); }
// reset: once open, for the next round; a waiter of the first round still being woken is not held back
SCENARIO(reset, vs_opt().bound(7, 9).spurious(1).secs(40, 200)) { latch l(1); vs_t a([&] { vs_set(ARR, 1); l.wait(); vs_add(REL, 1); }); vs_await(ARR, 1); int q = vs_choose(2); if (q) vs_quiesce(); l.count_down(); if (q) { l.reset(1); vs_assert(!l.try_wait()); } a.join(); if (!q) { l.reset(2); vs_assert(!l.try_wait()); vs_t b([&] { l.wait(); vs_assert_msg(vs_get(CNT) == 2, "released early after reset"); }); vs_add(CNT, 1); l.count_down(); vs_add(CNT, 1); l.count_down(); b.join(); } vs_assert(vs_get(REL) == 1); }
// every history of a single thread
SCENARIO(history, vs_opt().bound(0, 0)) { int c = vs_choose(3); latch l(c); for (int i = 0; i < 5; i++) switch (vs_choose(5)) { case 0: if (!c) vs_cut(); l.count_down(); c--; break; case 1: { bool r = l.try_count_down(); if (c) c--; vs_assert_msg(r == (c == 0), "try_count_down"); break; } case 2: vs_assert_msg(l.try_wait() == (c == 0), "try_wait"); break; case 3: vs_assert_msg((l.wait_for(ms(1)) == cv_status::no_timeout) == (c == 0), "wait_for"); break; case 4: { int n = vs_choose(3); l.reset(n); c = n; break; } } }
SCENARIO(library_threads, vs_opt().bound(3, 5)) { latch l(2); Data d[2]; thread t([&] { d[0].bump(); l.count_down(); }), u([&] { d[1].bump(); l.count_down_and_wait(); vs_assert(d[0].a == 1); }); l.wait(); vs_assert(d[0].a == 1 && d[1].a == 1); t.join(); u.join(); }
// the only waiter destroys the latch as soon as it is open, while the last counting thread may still be returning
SCENARIO(last_waiter, vs_opt().bound(4, 6).spurious(1)) { int n = 1 + vs_choose(2), cf = vs_choose(NC), wf = vs_choose(NW + 1), id[2]; latch* l = new latch(n + (wf == NW)); for (int i = 0; i < n; i++) id[i] = vs_spawn([=] { down(*l, i ? C_DOWN : cf); }); if (wf == NW) l->count_down_and_wait(); else if (wf == W_TRY) { vs_await(CNT, n); if (!l->try_wait()) l->wait(); } else while (!w(*l, wf, FAR_)) ; delete l; for (int i = 0; i < n; i++) vs_pthread_join(id[i]); }
// counts that do not open the latch do not prolong a timed wait
SCENARIO(prolonged, vs_opt().bound(2, 3).spurious(1)) { latch l(9); int f = W_FOR + vs_choose(3), cf = vs_choose(NC); halfway([&] { return !w(l, f, DL); }, [&] { down(l, cf); }); vs_assert(!l.try_wait()); }
