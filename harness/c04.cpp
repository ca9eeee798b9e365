// C04: notify_all_at_thread_exit
#include "cv.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
static void ipoint() { vs_await(7, 1); this_thread::interruption_point(); vs_assert(0); } static void interrupt(thread& t) { t.interrupt(); vs_set(7, 1); }
#else
static void ipoint() {} static void interrupt(thread&) {}
#endif
enum { FN = 1, TSS = 2, EXITF = 3, LOCKED = 4, WOKEN = 5, REG = 6 };
static thread_specific_ptr<int>* tss; 
static void cleanup(int* p) { delete p; vs_add(TSS, 1); }
struct Env { mutex m; condition_variable cv; int stage; thread_specific_ptr<int> p; Env() : stage(0), p(&cleanup) {} };
struct AtExit { Env& e; void operator()() const { vs_add(EXITF, 1); e.stage++; vs_point(); } };
static void body(Env& e, bool tss, bool ex) {
    if (tss) e.p.reset(new int(1)); if (ex) this_thread::at_thread_exit(AtExit{e});
    unique_lock<mutex> lk(e.m); e.stage = 1; notify_all_at_thread_exit(e.cv, boost::move(lk)); vs_assert_msg(!lk.owns_lock(), "the lock was not taken over"); vs_set(REG, 1);
    vs_point(); e.stage++;          // still under the lock
    vs_set(FN, 1);
}
static void waiter(Env& e, bool tss, bool ex) {
    unique_lock<mutex> lk(e.m); while (!e.stage) e.cv.wait(lk);
    vs_assert_msg(vs_get(FN), "the lock could be taken before the thread ended"); vs_assert_msg(vs_get(TSS) == tss, "the lock could be taken before thread-specific objects were destroyed"); vs_assert_msg(vs_get(EXITF) == ex, "the lock could be taken before the exit functions ran"); vs_assert(e.stage == 2 + ex); vs_add(WOKEN, 1); }
static void prober(Env& e, bool tss, bool ex) { if (e.m.try_lock()) { if (e.stage) vs_assert_msg(vs_get(FN) && vs_get(TSS) == tss && vs_get(EXITF) == ex, "the lock could be taken before the thread ended"); e.m.unlock(); } }
// how the thread's handle lives: 0 detached, 1 joined after the waiters woke, 2 joined first, 3 interrupted
template <int H> void run() {
    Env& e = *new Env; int tss = vs_choose(2), ex = vs_choose(2);
    thread t([&] { body(e, tss, ex); if (H == 3) ipoint(); });
    vs_t w([&] { waiter(e, tss, ex); }), q([&] { prober(e, tss, ex); });
    if (H == 0) t.detach(); if (H == 2) t.join(); if (H == 3) interrupt(t);
    w.join(); q.join(); if (H == 1 || H == 3) t.join();
    if (H) delete &e;        // a detached thread may still be notifying
}
SCENARIO(detached, vs_opt().bound(3, 4)) { run<0>(); }
SCENARIO(joined_later, vs_opt().bound(3, 4).leak()) { run<1>(); }
SCENARIO(joined_first, vs_opt().bound(3, 4).leak()) { run<2>(); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
SCENARIO(interrupted, vs_opt().bound(2, 4).leak()) { run<3>(); }
#endif
// all waiters of several conditions
SCENARIO(several, vs_opt().bound(2, 3)) {
    struct S { mutex m1, m2; condition_variable c1, c2; int a, b; }; S& s = *new S; mutex &m1 = s.m1, &m2 = s.m2; condition_variable &c1 = s.c1, &c2 = s.c2; int &a = s.a, &b = s.b; a = b = 0;
    thread t([&] { { unique_lock<mutex> l(m1); a = 1; notify_all_at_thread_exit(c1, boost::move(l)); } { unique_lock<mutex> l(m2); b = 1; notify_all_at_thread_exit(c2, boost::move(l)); } vs_set(FN, 1); });
    if (vs_choose(2)) t.detach();
    auto w = [&] { unique_lock<mutex> l(m1); while (!a) c1.wait(l); vs_assert(vs_get(FN)); };
    vs_t x(w), y(w); { unique_lock<mutex> l(m2); while (!b) c2.wait(l); vs_assert(vs_get(FN)); } x.join(); y.join(); if (t.joinable()) t.join();
}
// a thread the library did not start
SCENARIO(foreign, vs_opt().bound(3, 4)) {
    Env& e = *new Env; int tss = vs_choose(2), ex = vs_choose(2);
    vs_t t([&] { body(e, tss, ex); }); vs_t w([&] { waiter(e, tss, ex); }), q([&] { prober(e, tss, ex); }); w.join(); q.join(); t.join(); delete &e;
}
// exit functions and cleanups that register more of either, before and after the notification was asked for: all of them come first
enum { STEPS = 10 };
struct Chain { Env& e; int acts; Chain(Env& e) : e(e), acts(0) {} thread_specific_ptr<int>* q; };
static Chain* CH;
static void step(int code, int n);
static void chain_cleanup(int* p) { int c = *p; delete p; step(c >> 4, c & 15); }
// code: two bits per step (bit 0: exit function or cleanup; bit 1: also asks for a notification of another condition)
struct Step { int code, n; void operator()() const { step(code, n); } };
static mutex* xm; static condition_variable* xc; static bool* xf;
static void step(int code, int n) {
    vs_add(STEPS, 1); CH->acts++; vs_point(); if (!n) return;
    if ((code & 2) && !*xf) { unique_lock<mutex> l(*xm); *xf = true; notify_all_at_thread_exit(*xc, boost::move(l)); }
    if (code & 1) CH->q->reset(new int((code >> 2) << 4 | (n - 1))); else this_thread::at_thread_exit(Step{code >> 2, n - 1});
}
template <bool LIB> static void chained() {
    Env& e = *new Env; Chain c(e); thread_specific_ptr<int> q(&chain_cleanup); c.q = &q; CH = &c; mutex m2; condition_variable c2; bool f2 = false; xm = &m2; xc = &c2; xf = &f2;
    int n = 1 + vs_choose(vs_thorough() ? 3 : 2), code = 0; for (int i = 0; i < n; i++) code |= vs_choose(4) << (2 * i); bool before = vs_choose(2);
    auto body = [&] { if (before) step(code, n); { unique_lock<mutex> l(e.m); e.stage = 1; notify_all_at_thread_exit(e.cv, boost::move(l)); } if (!before) step(code, n); vs_set(FN, 1); };
    auto w = [&] { { unique_lock<mutex> l(e.m); while (!e.stage) e.cv.wait(l); vs_assert_msg(vs_get(FN) && vs_get(STEPS) == n + 1, "the lock was released when %ld of %d exit functions and cleanups had run", vs_get(STEPS), n + 1); vs_assert(c.acts == n + 1); } vs_add(WOKEN, 1); };
    if (LIB) { thread t(body); w(); t.join(); } else { vs_t t(body); w(); t.join(); }
    if (f2) vs_assert_msg(m2.try_lock(), "the lock passed by an exit function or cleanup was not released"); if (f2) m2.unlock(); delete &e;
}
SCENARIO(chained, vs_opt().bound(1, 2).leak()) { chained<true>(); }
SCENARIO(chained_foreign, vs_opt().bound(1, 2).leak()) { chained<false>(); }
