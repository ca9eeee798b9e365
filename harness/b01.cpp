// B01: barrier
#include "vsh.hpp"
#include <boost/thread/barrier.hpp>
#include <boost/thread/thread_only.hpp>
using namespace boost;
enum { ARR = 1, PASS = 2, CALLS = 3, COUNT = 4, TRUE_ = 10 };  // ARR total arrivals, PASS total passes, TRUE_+g
// fixed participants: generation by generation; the data of everyone must be visible to everyone
struct Shared { int v[4]; int c; Shared() : c(0) { for (int i = 0; i < 4; i++) v[i] = 0; } };
static void part(barrier& b, Shared& s, int me, int n, int gens, bool cb, bool cdw) {
    for (int g = 0; g < gens; g++) {
        s.v[me] = g + 1; vs_add(ARR, 1); bool r = true; if (cdw) b.count_down_and_wait(); else { r = b.wait(); vs_add(TRUE_ + g, r); }
        vs_assert_msg(vs_get(ARR) >= (g + 1) * n, "generation %d: a thread passed when %ld of %d had arrived", g, vs_get(ARR) - g * n, n);
        if (cb) { vs_assert_msg(vs_get(CALLS) >= g + 1, "generation %d: a thread passed before the completion function ran", g); vs_assert(s.c == g + 1); }
        for (int i = 0; i < n; i++) vs_assert_msg(s.v[i] == g + 1, "what a participant did before arriving is not visible");
        vs_add(PASS, 1);
        // nobody may write again before all have read: a second barrier would do; the generations alternate for that
        vs_add(ARR, 0); b.wait();
    }
}
static Shared* gs; static int gn; static void done() { vs_assert_msg(vs_get(CALLS) * 2 >= 0, ""); long k = vs_add(COUNT, 1); if (k % 2) { long c = vs_add(CALLS, 1); gs->c = c; vs_assert_msg(vs_get(ARR) == c * gn, "the completion function ran when %ld of %ld had arrived", vs_get(ARR), c * gn); vs_assert_msg(vs_get(PASS) == (c - 1) * gn, "the completion function ran after a thread was released"); } }
static unsigned done_n() { done(); return gn; }
struct Fun { void operator()() const { done(); } }; struct FunN { unsigned operator()() const { return done_n(); } };
static barrier* make(int form, int n) { switch (form) { case 0: return new barrier(n); case 1: return new barrier(n, Fun()); case 2: return new barrier(n, FunN()); case 3: return new barrier(n, &done); case 4: return new barrier(n, &done_n); case 5: { static Fun f; return new barrier(n, f); } case 6: { static FunN f; return new barrier(n, f); } case 7: return new barrier(n, (void (*)())0); } return 0; }
template <int N> void fixed(int gens, int forms) {
    Shared s; gs = &s; gn = N; int form = vs_choose(forms); bool cb = form >= 1 && form <= 6; barrier* b = make(form, N); int id[N]; for (int i = 0; i < N; i++) { bool cdw = form == 0 && i == 1; id[i] = vs_spawn([=, &s] { part(*b, s, i, N, gens, cb, cdw); }); } for (int i = 0; i < N; i++) vs_pthread_join(id[i]);
    for (int g = 0; g < gens; g++) vs_assert_msg(vs_get(TRUE_ + g) <= 1 && (form == 0 || vs_get(TRUE_ + g) == 1), "generation %d: %ld threads were told true", g, vs_get(TRUE_ + g)); if (cb) vs_assert_msg(vs_get(CALLS) == gens && vs_get(COUNT) == 2 * gens, "the completion function ran %ld times", vs_get(COUNT)); vs_assert(vs_get(PASS) == N * gens); delete b;
}
SCENARIO(one, vs_opt().bound(1, 1).leak()) { fixed<1>(2, 8); }
SCENARIO(two, vs_opt().bound(6, 8).spurious(1).leak().secs(40, 200)) { fixed<2>(1, 8); }
SCENARIO(two_generations, vs_opt().bound(5, 7).spurious(1).leak().secs(40, 200)) { fixed<2>(2, 2); }
SCENARIO(three, vs_opt().bound(3, 4).leak().secs(40, 200)) { fixed<3>(1, 3); }
SCENARIO(four, vs_opt().bound(1, 2).leak().secs(40, 200)) { fixed<4>(1, 1); }
// plain generations without the separating barrier: only counts are checked, threads may run ahead
template <int N> void ahead(int gens) {
    barrier b(N); vs_spurious(1); int id[N]; for (int i = 0; i < N; i++) id[i] = vs_spawn([&] { for (int g = 0; g < gens; g++) { vs_add(ARR, 1); bool r = b.wait(); vs_add(TRUE_ + g, r); vs_assert_msg(vs_get(ARR) >= (g + 1) * N, "a thread passed generation %d after %ld arrivals", g, vs_get(ARR)); } }); for (int i = 0; i < N; i++) vs_pthread_join(id[i]);
    for (int g = 0; g < gens; g++) vs_assert_msg(vs_get(TRUE_ + g) == 1, "generation %d: %ld threads were told true", g, vs_get(TRUE_ + g));
}
SCENARIO(ahead2, vs_opt().bound(7, 9).spurious(2).secs(40, 200)) { ahead<2>(3); }
SCENARIO(ahead3, vs_opt().bound(4, 5).spurious(1).secs(40, 200)) { ahead<3>(2); }
// more threads than the count: batches
SCENARIO(batches, vs_opt().bound(3, 4).spurious(1).secs(40, 200)) {
    barrier b(2); int id[4]; for (int i = 0; i < 4; i++) id[i] = vs_spawn([&] { vs_add(ARR, 1); bool r = b.wait(); if (r) vs_add(TRUE_, 1); long p = vs_add(PASS, 1); vs_assert_msg(p <= vs_get(ARR) / 2 * 2, "%ld threads passed after %ld arrivals", p, vs_get(ARR)); }); for (int i = 0; i < 4; i++) vs_pthread_join(id[i]); vs_assert_msg(vs_get(TRUE_) == 2, "%ld threads were told true in two batches", vs_get(TRUE_)); }
SCENARIO(odd_one_waits, vs_opt().bound(4, 5).spurious(1).blocked_ok()) { barrier& b = *new barrier(2); for (int i = 0; i < 3; i++) vs_spawn([&] { vs_add(ARR, 1); b.wait(); vs_add(PASS, 1); }); vs_quiesce(); vs_assert_msg(vs_get(ARR) == 3 && vs_get(PASS) == 2, "%ld of three threads passed a barrier of two", vs_get(PASS)); }
// the completion function changes the count of the next generation: 2, then 1, then 2
SCENARIO(resized, vs_opt().bound(6, 8).secs(40, 200)) {
    struct R { unsigned operator()() const { return vs_add(CALLS, 1) == 1 ? 1 : 2; } }; barrier b(2, R());
    auto t = [&](int extra) { vs_add(ARR, 1); b.wait(); vs_assert_msg(vs_get(ARR) >= 2 && vs_get(CALLS) >= 1, "passed too early"); if (extra) { vs_assert_msg(b.wait(), "a barrier of one did not release its only thread"); vs_assert(vs_get(CALLS) >= 2); vs_set(5, 1); } vs_await(5, 1); vs_add(6, 1); b.wait(); vs_assert_msg(vs_get(6) == 2 && vs_get(CALLS) == 3, "passed too early after the count changed"); };
    vs_run([&] { t(0); }, [&] { t(1); }); }
SCENARIO(zero_count, vs_opt().bound(0, 0)) { int k = vs_choose(3); bool e = false; try { if (k == 0) barrier b(0); else if (k == 1) barrier b(0, &done); else barrier b(0, Fun()); } catch (thread_exception& x) { e = x.code().value() == system::errc::invalid_argument; } vs_assert_msg(e, "a barrier of zero was accepted"); }
// in library threads
SCENARIO(library_threads, vs_opt().bound(4, 6).secs(40, 200)) { barrier b(2); Shared s; auto w = [&](int i) { s.v[i] = 1; vs_add(ARR, 1); bool r = b.wait(); vs_add(TRUE_, r); vs_assert_msg(vs_get(ARR) == 2, "passed early"); vs_assert(s.v[1 - i] == 1); }; thread t([&] { w(0); }); w(1); t.join(); vs_assert(vs_get(TRUE_) == 1); }
