// B03: completion_latch
#include "vsh.hpp"
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/thread_only.hpp>
using namespace boost;
enum { CNT = 1, REL = 2, CALLS = 3, CYC = 4, ENT = 5, NEED = 6, FIN = 7 };
static void completed() { vs_assert_msg(vs_get(CNT) == vs_get(NEED), "the completion function ran after %ld of %ld counts", vs_get(CNT), vs_get(NEED)); vs_add(CALLS, 1); vs_assert_msg(vs_get(CALLS) == vs_get(CYC), "the completion function ran %ld times in %ld cycles", vs_get(CALLS), vs_get(CYC)); }
struct F { void operator()() const { completed(); } };
enum { W_WAIT, W_TRY, W_FOR, W_UNTIL, NW };
static void w(completion_latch& l, int f) { bool r = true; switch (f) { case W_WAIT: l.wait(); break; case W_TRY: r = l.try_wait(); break; case W_FOR: r = l.wait_for(ms(FAR_)) == cv_status::no_timeout; break; case W_UNTIL: r = l.wait_until(in_ms(FAR_)) == cv_status::no_timeout; break; } vs_assert_msg(r, "a released waiter was told that the count is not zero"); }
static void release() { vs_assert_msg(vs_get(CNT) == vs_get(NEED), "a waiter was released after %ld of %ld counts", vs_get(CNT), vs_get(NEED)); vs_add(REL, 1); }
// N counting threads, W waiters.  those that come too late for a cycle belong to the next, which the main thread drives
template <int N, int W> void run() {
    vs_set(NEED, N); vs_set(CYC, 1); int form = vs_choose(2), wf = vs_choose(NW), v[3] = {0, 0, 0}; completion_latch* l = form ? new completion_latch(N, F()) : new completion_latch(N, &completed); int id[N + W];
    for (int i = 0; i < N; i++) id[i] = vs_spawn([&, i] { v[i] = 1; vs_add(CNT, 1); l->count_down(); });
    for (int i = 0; i < W; i++) id[N + i] = vs_spawn([&] { w(*l, wf); release(); for (int k = 0; k < N; k++) vs_assert_msg(v[k] == 1, "the effect of a counting thread is not visible"); });
    for (int i = 0; i < N; i++) vs_pthread_join(id[i]);
    vs_quiesce(); vs_assert_msg(vs_get(CALLS) == 1, "the completion function ran %ld times", vs_get(CALLS)); vs_assert_msg(vs_get(REL) >= 1, "nobody was released");
    while (vs_get(REL) < W) { long r = vs_get(REL); vs_add(NEED, 1); vs_add(CYC, 1); l->reset(1); vs_add(CNT, 1); l->signal(); vs_quiesce(); vs_assert_msg(vs_get(REL) > r, "the next cycle released nobody"); vs_assert_msg(vs_get(CALLS) == vs_get(CYC), "the completion function ran %ld times in %ld cycles", vs_get(CALLS), vs_get(CYC)); }
    for (int i = 0; i < W; i++) vs_pthread_join(id[N + i]); delete l;
}
SCENARIO(one_one, vs_opt().bound(5, 7).spurious(1).leak().secs(40, 200)) { run<1, 1>(); }
SCENARIO(two_one, vs_opt().bound(4, 5).spurious(1).leak().secs(40, 200)) { run<2, 1>(); }
SCENARIO(one_two, vs_opt().bound(3, 5).spurious(1).leak().secs(40, 200)) { run<1, 2>(); }
SCENARIO(two_two, vs_opt().bound(2, 3).leak().secs(40, 200)) { run<2, 2>(); }
// all threads count and wait; the completion function resets the latch for the next cycle
static completion_latch* gl; static int gn; static void next() { vs_assert_msg(vs_get(CNT) == gn * (vs_get(CALLS) + 1), "the completion function ran after %ld counts", vs_get(CNT)); gl->reset(gn); vs_add(CALLS, 1); }
template <int N> void cycles(int K) { completion_latch l(N, &next); gl = &l; gn = N; int id[N]; for (int i = 0; i < N; i++) id[i] = vs_spawn([&] { for (int c = 0; c < K; c++) { vs_add(CNT, 1); if (c % 2) l.sync(); else l.count_down_and_wait(); vs_assert_msg(vs_get(CNT) >= N * (c + 1), "released after %ld counts in cycle %d", vs_get(CNT), c); vs_add(FIN, 1); vs_await(CALLS, c + 1); vs_await(FIN, N * (c + 1)); } }); for (int i = 0; i < N; i++) vs_pthread_join(id[i]); vs_assert_msg(vs_get(CALLS) == K, "the completion function ran %ld times in %d cycles", vs_get(CALLS), K); }
SCENARIO(cycles2, vs_opt().bound(6, 8).spurious(1).secs(40, 200)) { cycles<2>(2); }
SCENARIO(cycles3, vs_opt().bound(3, 4).secs(40, 200)) { cycles<3>(1); }
// not before: with a count missing nobody is released and the function does not run
SCENARIO(missing, vs_opt().bound(5, 7).spurious(1)) { vs_set(NEED, 2); vs_set(CYC, 1); completion_latch l(2, F()); vs_t a([&] { l.wait(); release(); }), b([&] { vs_add(CNT, 1); l.count_down(); }); vs_quiesce(); vs_assert_msg(vs_get(REL) == 0 && vs_get(CALLS) == 0, "released with a count missing"); vs_add(CNT, 1); l.count_down(); a.join(); b.join(); vs_assert(vs_get(CALLS) == 1); }
// the last count waits for a waiter
SCENARIO(needs_waiter, vs_opt().bound(4, 6)) { vs_set(NEED, 1); vs_set(CYC, 1); completion_latch l(1, F()); vs_t b([&] { vs_add(CNT, 1); l.count_down(); vs_assert(vs_get(CALLS) == 1); }); vs_quiesce(); vs_assert_msg(vs_get(CALLS) == 0, "the function ran before any waiter came"); vs_t a([&] { l.wait(); release(); }); a.join(); b.join(); }
// another function for the next cycle
static void other() { vs_add(FIN, 1); }
SCENARIO(then, vs_opt().bound(4, 6)) { vs_set(NEED, 1); vs_set(CYC, 1); completion_latch l(1, F()); for (int c = 0; c < 2; c++) { if (c) { completion_latch::completion_function old = l.then(&other); vs_add(CYC, 1); old(); l.reset(1); vs_add(NEED, 1); } vs_t a([&] { l.wait(); release(); }), b([&] { vs_add(CNT, 1); l.count_down(); }); a.join(); b.join(); vs_assert(vs_get(CALLS) == (c ? 2 : 1) && vs_get(FIN) == c); } }
#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
// an interrupted waiter is no longer one: the count completes with the others
template <int N> void interrupted() {
    vs_set(NEED, 1); vs_set(CYC, 1); completion_latch* l = new completion_latch(1, F()); int wf = vs_choose(NW);
    auto f = [&] { try { w(*l, wf); release(); } catch (thread_interrupted&) { vs_add(FIN, 1); } }; thread a(f), b; if (N == 2) b = thread(f);
    int c = vs_spawn([&] { vs_add(CNT, 1); l->count_down(); }); a.interrupt(); vs_quiesce();
    if (!vs_get(CALLS)) { vs_assert_msg(vs_get(FIN) == N, "the last count waits although there is a waiter"); vs_spawn([&] { l->wait(); release(); }); vs_quiesce(); vs_assert_msg(vs_get(CALLS) == 1, "the last count waits although there is a waiter"); }
    vs_pthread_join(c);
    while (vs_get(REL) + vs_get(FIN) < N) { long r = vs_get(REL) + vs_get(FIN); vs_add(NEED, 1); vs_add(CYC, 1); l->reset(1); vs_add(CNT, 1); int d = vs_spawn([&] { l->signal(); }); vs_quiesce(); vs_assert_msg(vs_get(REL) + vs_get(FIN) > r, "the next cycle released nobody"); vs_pthread_join(d); }
    a.join(); if (N == 2) b.join(); vs_quiesce(); delete l;
}
SCENARIO(interrupted_alone, vs_opt().bound(4, 6)) { interrupted<1>(); }
SCENARIO(interrupted_other, vs_opt().bound(3, 4)) { interrupted<2>(); }
#endif
