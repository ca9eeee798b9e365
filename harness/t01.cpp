// T01: threads run their function once; joins synchronise; timed joins are truthful
#include "vsh.hpp"
#include <boost/thread/thread.hpp>
#include <boost/ref.hpp>
using namespace boost;
enum { RUN = 1, FIN = 2, GO = 3, KEY = 8 };
struct Body { Data* d; int wait; Body(Data* d, int w) : d(d), wait(w) {} void operator()() const { vs_assert_msg(vs_add(RUN, 1) == 1, "the function ran twice"); if (wait) vs_await(GO, 1); d->bump(); d->b = d->a; vs_add(FIN, 1); } };
// ---- plain join, in every start order
SCENARIO(join, vs_opt().bound(6, 12).leak()) { Data d; thread t(Body(&d, 0)); t.join(); vs_assert_msg(vs_get(FIN) == 1, "join returned before the function ended"); d.check(); vs_assert(d.a == 1 && !t.joinable()); }
SCENARIO(join_many, vs_opt().bound(3, 5).leak()) {
    const int N = 3; Data d[N]; thread t[N]; int fin[N] = {0, 0, 0};
    for (int i = 0; i < N; i++) { Data* p = &d[i]; int* f = &fin[i]; t[i] = thread([p, f, i] { vs_add(KEY + i, 1); p->bump(); *f = 1; }); }
    for (int i = N; i--;) { t[i].join(); vs_assert_msg(fin[i] == 1, "join returned before the function ended"); d[i].check(); } for (int i = 0; i < N; i++) vs_assert_msg(vs_get(KEY + i) == 1, "a function ran %ld times", vs_get(KEY + i));
}
// the thread that joins is not the one that started; the handle moves between threads
SCENARIO(joined_elsewhere, vs_opt().bound(4, 6).leak()) {
    Data d; thread* t = new thread(Body(&d, 0)); int j = vs_choose(2);
    vs_t a([t, j, &d] { if (j) t->join(); else { thread u(boost::move(*t)); vs_assert(!t->joinable()); u.join(); } vs_assert_msg(vs_get(FIN) == 1, "join returned before the function ended"); d.check(); }); a.join(); d.check(); delete t;
}
// a tree of threads
SCENARIO(nested, vs_opt().bound(3, 5).leak()) {
    int v = 0, w = 0; thread t([&] { thread u([&] { w = 5; vs_point(); vs_add(FIN, 1); }); u.join(); vs_assert_msg(vs_get(FIN) == 1, "join returned early"); v = w + 1; }); t.join(); vs_assert(v == 6 && w == 5); }
// the function ends by an interruption, thrown by itself or requested
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
SCENARIO(interrupted, vs_opt().bound(3, 5).leak()) { Data d; int k = vs_choose(2); thread t([&] { vs_add(RUN, 1); d.bump(); if (k) throw thread_interrupted(); vs_await(GO, 1); this_thread::interruption_point(); vs_fail("not interrupted"); }); if (!k) { t.interrupt(); vs_set(GO, 1); } t.join(); d.check(); vs_assert(vs_get(RUN) == 1 && d.a == 1); }
#endif
// ---- timed joins: form x clock
enum { TJ_FOR, TJ_STEADY, TJ_SYS,
#if defined BOOST_THREAD_USES_DATETIME
    TJ_ABS, TJ_REL,
#endif
    NFORM };
static bool tjoin(thread& t, int f, int n) {
    switch (f) { case TJ_FOR: return t.try_join_for(ms(n)); case TJ_STEADY: return t.try_join_until(in_ms(n)); case TJ_SYS: return t.try_join_until(sys_in_ms(n));
#if defined BOOST_THREAD_USES_DATETIME
    case TJ_ABS: return t.timed_join(pt_in_ms(n)); case TJ_REL: return t.timed_join(posix_time::milliseconds(n));
#endif
    } return false; }
// the thread ends by itself: a deadline far away is not needed, a near one may be missed only once it has passed
SCENARIO(timed_far, vs_opt().bound(4, 6).leak()) { Data d; int f = vs_choose(NFORM); thread t(Body(&d, 0)); bool r = tjoin(t, f, FAR_); if (!vs_forced_tick()) vs_assert_msg(r, "timed join form %d gave up although the thread ended", f);
    if (r) { vs_assert_msg(vs_get(FIN) == 1 && !t.joinable(), "timed join returned true before the function ended"); d.check(); } else { vs_assert_msg(vs_now() >= FAR_ * MS && t.joinable(), "a failed timed join left the handle not joinable"); t.join(); d.check(); } }
SCENARIO(timed_near, vs_opt().bound(4, 6).leak()) {
    Data d; int f = vs_choose(NFORM), w = vs_choose(2); long dl = DL * MS; thread t(Body(&d, w)); vs_t g([&] { if (w) vs_set(GO, 1); });
    long t0 = vs_now(); bool r = tjoin(t, f, DL);
    if (r) { vs_assert_msg(vs_get(FIN) == 1 && !t.joinable(), "timed join returned true before the function ended"); d.check(); }
    else { vs_assert_msg(vs_now() - t0 >= dl - MS / 500, "timed join form %d gave up %ld ns before its deadline", f, dl - (vs_now() - t0)); vs_assert_msg(t.joinable(), "a failed timed join left the handle not joinable"); t.join(); vs_assert(vs_get(FIN) == 1); d.check(); }
    g.join();
}
// the thread never ends before the deadline: false, at the deadline
SCENARIO(timed_out, vs_opt().bound(2, 3).leak()) {
    Data d; int f = vs_choose(NFORM), n = vs_choose(3) * DL - DL; thread t(Body(&d, 1)); long t0 = vs_now(); bool r = tjoin(t, f, n); vs_assert_msg(!r, "timed join form %d reported a running thread as finished", f);
    vs_assert_msg(vs_now() - t0 >= n * MS - MS / 500, "timed join form %d gave up early", f); if (!vs_forced_tick()) vs_assert_msg(vs_now() - t0 <= (n > 0 ? n * MS : 0) + 2000000, "timed join form %d returned %ld ns late", f, vs_now() - t0 - n * MS);
    vs_assert_msg(t.joinable() && vs_get(FIN) == 0, "a failed timed join left the handle not joinable"); vs_set(GO, 1); bool r2 = tjoin(t, f, FAR_); if (!vs_forced_tick()) vs_assert(r2); if (!r2) t.join(); d.check(); vs_assert(!t.joinable());
}
// an already finished thread: even an expired timed join succeeds
SCENARIO(timed_done, vs_opt().bound(1, 2).leak()) { Data d; int f = vs_choose(NFORM), n = vs_choose(3) * DL - DL; thread t(Body(&d, 0)); vs_quiesce(); bool r = tjoin(t, f, n); vs_assert_msg(r, "timed join form %d of a finished thread failed", f); vs_assert(!t.joinable() && vs_get(FIN) == 1); d.check(); }
// two successive timed joins then a join by another thread
SCENARIO(timed_repeated, vs_opt().bound(2, 4).leak()) { Data d; thread t(Body(&d, 1)); vs_t g([] { vs_set(GO, 1); }); bool r = t.try_join_for(ms(DL)); if (!r) { vs_assert(t.joinable()); r = t.try_join_until(in_ms(DL)); } if (!r) { vs_assert(t.joinable()); t.join(); } vs_assert(vs_get(FIN) == 1); d.check(); g.join(); }
// ---- functions and arguments
struct Arg { static int live; int v; long at; Arg(int v) : v(v), at(vs_self()) { } Arg(Arg const& o) : v(o.v), at(vs_self()) {} };
static Data* gd; static void f0() { vs_add(RUN, 1); gd->bump(); } static void f1(int a) { vs_add(RUN, 1); gd->a = a; } static void f2(int a, Arg b) { vs_add(RUN, 1); gd->a = a * 10 + b.v; } static void f3(int& a, int b, int c) { vs_add(RUN, 1); a = b * 10 + c; }
struct Obj { int v; void add(int x) { vs_add(RUN, 1); v += x; } void operator()() { vs_add(RUN, 1); v = 9; } void operator()(int a, int b) { vs_add(RUN, 1); v = a * 10 + b; } };
struct MoveOnly { BOOST_THREAD_MOVABLE_ONLY(MoveOnly) int* p; explicit MoveOnly(int* p) : p(p) {} MoveOnly(BOOST_THREAD_RV_REF(MoveOnly) o) BOOST_NOEXCEPT : p(BOOST_THREAD_RV(o).p) { BOOST_THREAD_RV(o).p = 0; } MoveOnly& operator=(BOOST_THREAD_RV_REF(MoveOnly) o) { p = BOOST_THREAD_RV(o).p; BOOST_THREAD_RV(o).p = 0; return *this; } void operator()() { vs_add(RUN, 1); *p = 7; } };
SCENARIO(arguments, vs_opt().bound(1, 2).leak()) {
    Data d; gd = &d; int x = 0; Obj o = {0};
    switch (vs_choose(9)) {
    case 0: { thread t(&f0); t.join(); vs_assert(d.a == 1); break; }
    case 1: { thread t(&f1, 4); t.join(); vs_assert(d.a == 4); break; }
    case 2: { thread t(&f2, 4, Arg(2)); t.join(); vs_assert(d.a == 42); break; }
    case 3: { thread t(&f3, boost::ref(x), 3, 5); t.join(); vs_assert_msg(x == 35, "the argument was not passed by reference"); break; }
    case 4: { thread t(&Obj::add, &o, 5); t.join(); vs_assert(o.v == 5); break; }
#if ! defined BOOST_THREAD_PROVIDES_VARIADIC_THREAD
    case 5: { thread t(boost::ref(o)); t.join(); vs_assert_msg(o.v == 9, "the function object was not used by reference"); break; }
#else
    case 5: { thread t(&Obj::add, &o, 5); t.join(); vs_assert(o.v == 5); break; }
#endif
    case 6: { thread t(o); t.join(); vs_assert_msg(o.v == 0, "the function object was not copied"); break; }
#if ! defined BOOST_THREAD_PROVIDES_VARIADIC_THREAD
    case 7: { thread t(boost::ref(o), 3, 4); t.join(); vs_assert(o.v == 34); break; }
#else
    case 7: { thread t(o, 3, 4); t.join(); vs_assert(o.v == 0); break; }
#endif
    case 8: { MoveOnly m(&x); thread t(boost::move(m)); t.join(); vs_assert(x == 7 && m.p == 0); break; }
    }
    vs_assert(vs_get(RUN) == 1);
}
// the copies of function and arguments are made by the starting thread, before the constructor returns
struct Noter { int v; Noter(int v) : v(v) {} Noter(Noter const& o) : v(o.v) { if (vs_self() != 0) vs_add(KEY, 1); } void operator()() const { vs_add(RUN, 1); vs_assert(v == 3); } };
SCENARIO(decay_copy, vs_opt().bound(3, 4).leak()) { thread t; { Noter n(3); t = thread(n); n.v = 4; } t.join(); vs_assert(vs_get(RUN) == 1); vs_assert_msg(vs_get(KEY) == 0, "the function object was copied in the new thread"); }
// a timed join woken for nothing
SCENARIO(prolonged, vs_opt().bound(2, 3).spurious(1).leak()) { Data d; int f = vs_choose(NFORM); thread t(Body(&d, 1)); halfway([&] { return !tjoin(t, f, DL); }, nothing); vs_set(GO, 1); t.join(); d.check(); vs_assert(vs_get(FIN) == 1); }
// an exit function or a thread-specific cleanup is still running at the deadline: the thread has not finished
static void slow_cleanup(int* p) { delete p; vs_await(GO, 1); vs_add(FIN, 1); }
#include <boost/thread/tss.hpp>
SCENARIO(timed_exit_function, vs_opt().bound(2, 3).leak()) {
    thread_specific_ptr<int> q(&slow_cleanup); int f = vs_choose(NFORM), n = vs_choose(2) * DL; bool tss = vs_choose(2); thread t([&] { if (tss) q.reset(new int(1)); else this_thread::at_thread_exit([] { vs_await(GO, 1); vs_add(FIN, 1); }); });
    long t0 = vs_now(); bool r = tjoin(t, f, n); vs_assert_msg(!r, "timed join form %d succeeded before the exit functions had run", f);
    vs_assert_msg(vs_now() - t0 >= n * MS - MS / 500, "timed join form %d gave up early", f); if (!vs_forced_tick()) vs_assert_msg(vs_now() - t0 <= n * MS + 2000000, "timed join form %d returned %ld ns late", f, vs_now() - t0 - n * MS);
    vs_assert(t.joinable()); vs_set(GO, 1); t.join(); vs_assert(vs_get(FIN) == 1); }
