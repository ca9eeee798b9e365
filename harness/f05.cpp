// F05: results set at thread exit
#include "fut.hpp"
#include <boost/thread/tss.hpp>
using boost::packaged_task; using boost::future_status; using boost::thread;
#if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
template <class R> struct PT_ { typedef packaged_task<R()> t; };
#else
template <class R> struct PT_ { typedef packaged_task<R> t; };
#endif
template <class R> using PT = typename PT_<R>::t;
enum { SET = 1, GONE = 2, CLEANED = 3, RUNS = 4, GO = 5, ATEXIT = 6, CONT = 7, FLIVE = 61 };
struct Local { ~Local() { vs_point(); vs_set(CLEANED, 1); } };
static boost::thread_specific_ptr<Local>* tp;
static void prepare() { tp = new boost::thread_specific_ptr<Local>; }
static void finish() { delete tp; }
// the body of the thread that sets; what follows must not make it ready
template <class T> static void set_exit(promise<T>& p, int how, int v) { if (how) p.set_exception_at_thread_exit(boost::copy_exception(Ex(v))); else K<T>::setx(p, v); }
template <class T> static int wantx(int how, int v) { return how ? EXC + v : K<T>::hasv ? v : 0; }
template <class F> static void again(F f) { vs_assert_msg(OKOF(f()) == SATISFIED, "a second result was accepted"); }
template <class T> static void resets(promise<T>& p, int k) { switch (k) { case 0: break; case 1: again([&] { p.set_exception_deferred(boost::copy_exception(Ex(9))); }); break; case 2: again([&] { set_exit(p, 0, 9); }); break; case 3: again([&] { set_exit(p, 1, 9); }); break; case 4: again([&] { K<T>::setd(p, 9); }); break; } }
// in a thread of its own, joined, detached or foreign
struct Thr { int kind; thread t; int id; template <class F> Thr(int k, F f) : kind(k), id(-1) { if (kind == 2) id = vs_spawn(f); else { t = thread(f); if (kind == 1) t.detach(); } } void join() { if (kind == 0) t.join(); if (kind == 2) vs_pthread_join(id); if (kind == 1) vs_quiesce(); } };
template <class T> static void at_exit(int waits) {
    { prepare(); promise<T> p; sfut<T> s(p.get_future()); Data d; int how = vs_choose(2), kind = vs_choose(3), k = vs_choose(5); bool drop = vs_choose(2);
    Thr a(kind, [&, how, k, drop] { tp->reset(new Local); if (kind != 2) boost::this_thread::at_thread_exit([&] { vs_set(ATEXIT, 1); }); else vs_set(ATEXIT, 1); d.bump(); { promise<T> q(boost::move(p)); set_exit(q, how, 4); vs_set(SET, 1); vs_assert_msg(!s.is_ready(), "ready before the thread has ended"); resets(q, k); if (!drop) p = boost::move(q); } vs_assert_msg(!s.is_ready() && s.wait_for(ms(0)) == future_status::timeout, "ready before the thread has ended"); vs_set(GONE, 1); });
    auto w = [&, waits] { sfut<T> c(s); if (waits == 1) { bool r = c.wait_for(ms(FAR_)) == future_status::ready; vs_assert_msg(r || vs_forced_tick(), "a timed wait missed the end of the thread"); } if (waits == 2) { if (!c.is_ready()) c.wait(); } int r = fetch<T>(c); vs_assert_msg(vs_get(GONE), "ready before the thread had ended"); vs_assert_msg(vs_get(CLEANED) && vs_get(ATEXIT), "ready before the thread-specific objects were gone"); vs_assert_msg(r == wantx<T>(how, 4), "the future gave %d", r); vs_assert(d.a == 1); };
    vs_t x(w); w(); x.join(); a.join(); vs_assert(fetch<T>(s) == wantx<T>(how, 4)); s = sfut<T>(); p = promise<T>(); finish(); } vs_assert_msg(vs_get(LIVE) == 0, "%ld results left", vs_get(LIVE)); }
SCENARIO(exit_obj, vs_opt().bound(2, 3).leak().secs(20, 240)) { at_exit<Obj>(0); }
SCENARIO(exit_obj_timed, vs_opt().bound(1, 2).leak().secs(20, 240)) { at_exit<Obj>(1); }
SCENARIO(exit_void, vs_opt().bound(1, 2).leak().secs(20, 240)) { at_exit<void>(2); }
SCENARIO(exit_ref, vs_opt().bound(1, 2).leak().secs(20, 240)) { at_exit<int&>(2); }
SCENARIO(exit_mo, vs_opt().bound(1, 2).leak().secs(20, 240)) { promise<MO> p; fut<MO> f(p.get_future()); int how = vs_choose(2); thread t([&] { set_exit(p, how, 3); vs_set(GONE, 1); }); int r = fetch<MO>(f); vs_assert(vs_get(GONE) && r == wantx<MO>(how, 3)); t.join(); }
SCENARIO(exit_int_const, vs_opt().bound(1, 2).leak()) { promise<int> p; fut<int> f(p.get_future()); thread t([&] { const int v = 3; p.set_value_at_thread_exit(v); vs_set(GONE, 1); }); vs_assert(fetch<int>(f) == 3 && vs_get(GONE)); t.join(); }
// not ready as long as the thread lives
SCENARIO(stays_open, vs_opt().bound(2, 3).blocked_ok()) { promise<int>& p = *new promise<int>; sfut<int>& s = *new sfut<int>(p.get_future()); int how = vs_choose(2); vs_spawn([&] { set_exit(p, how, 1); vs_set(SET, 1); vs_await(GO, 1); }); vs_spawn([&] { sfut<int> c(s); c.wait(); vs_set(RUNS, 1); }); vs_quiesce(); vs_assert_msg(!vs_get(RUNS) && !s.is_ready() && !s.has_value() && !s.has_exception(), "ready although the thread is still running"); vs_set(GO, 1); vs_quiesce(); vs_assert_msg(vs_get(RUNS) && s.is_ready(), "not ready although the thread has ended"); vs_assert(fetch<int>(s) == wantx<int>(how, 1)); }
// several results of one thread; and of several threads
SCENARIO(several, vs_opt().bound(2, 3).leak().secs(20, 240)) { { promise<Obj> p[3]; sfut<Obj> s[3]; for (int i = 0; i < 3; i++) s[i] = sfut<Obj>(p[i].get_future()); int n = vs_choose(2), k = vs_choose(3); auto body = [&](int i) { set_exit(p[i], n, i); vs_assert(!s[i].is_ready()); vs_add(GONE, 1); }; thread t([&] { set_exit(p[0], 0, 0); body(1); }); thread u([&] { body(2); }); vs_assert(fetch<Obj>(s[k]) == wantx<Obj>(k ? n : 0, k)); vs_assert(vs_get(GONE) >= 1); for (int i = 0; i < 3; i++) vs_assert(fetch<Obj>(s[i]) == wantx<Obj>(i ? n : 0, i)); vs_assert(vs_get(GONE) == 2); t.join(); u.join(); } vs_assert(vs_get(LIVE) == 0); }
// competing setters: one wins
SCENARIO(compete, vs_opt().bound(3, 4).leak().secs(20, 240)) { { promise<Obj> p; sfut<Obj> s(p.get_future()); int h1 = vs_choose(2), h2 = 2 + vs_choose(2); int r1 = -100, r2 = -100; thread a([&] { r1 = OKOF(set_exit(p, h1, 1)); vs_set(GONE, 1); }); thread b([&] { switch (h2) { case 0: r2 = OKOF(p.set_value(Obj(2))); break; case 1: r2 = OKOF(p.set_exception(boost::copy_exception(Ex(2)))); break; default: r2 = OKOF(set_exit(p, h2 - 2, 2)); } }); int r = fetch<Obj>(s); a.join(); b.join(); vs_assert_msg((r1 == OK && r2 == SATISFIED) || (r2 == OK && r1 == SATISFIED), "two results accepted or refused: %d %d", r1, r2); vs_assert_msg(r == (r1 == OK ? wantx<Obj>(h1, 1) : wantx<Obj>(h2 & 1, 2)), "the future gave %d", r); } vs_assert(vs_get(LIVE) == 0); }
// what is ready already is refused at thread exit too
template <class T> static void refused() { { promise<T> p; fut<T> f(p.get_future()); int h1 = vs_choose(2), h2 = vs_choose(2); if (h1) p.set_exception(boost::copy_exception(Ex(1))); else K<T>::set(p, 1); thread t([&] { vs_assert_msg(OKOF(set_exit(p, h2, 2)) == SATISFIED, "a second result was accepted"); vs_assert(f.is_ready()); }); t.join(); vs_assert(fetch<T>(f) == wantx<T>(h1, 1)); } vs_assert(vs_get(LIVE) == 0); }
SCENARIO(refused_obj, vs_opt().bound(1, 2).leak()) { refused<Obj>(); }
SCENARIO(refused_void, vs_opt().bound(1, 2).leak()) { refused<void>(); }
SCENARIO(refused_ref, vs_opt().bound(1, 2).leak()) { refused<int&>(); }
// tasks
template <class T> struct Fn { int v; Data* d; explicit Fn(int x, Data* dd) : v(x), d(dd) { vs_add(FLIVE, 1); } Fn(Fn&& o) : v(o.v), d(o.d) { vs_add(FLIVE, 1); } ~Fn() { vs_add(FLIVE, -1); } T operator()() { vs_add(RUNS, 1); d->bump(); if (vs_get(CONT)) throw Ex(v); return K<T>::mk(v); } };
template <class T> static void task() { { prepare(); Data d; vs_set(CONT, vs_choose(2)); int kind = vs_choose(3), after = vs_choose(4); PT<T> p(Fn<T>(6, &d)); fut<T> f(p.get_future()), g; int want1 = wantx<T>(vs_get(CONT), 6);
    Thr a(kind, [&, after] { tp->reset(new Local); PT<T> q(boost::move(p)); q.make_ready_at_thread_exit(); vs_assert_msg(vs_get(RUNS) == 1 && !f.is_ready(), "ready before the thread has ended"); int r; switch (after) { case 0: break; case 1: r = OKOF(q()); vs_assert_msg(r == STARTED, "second invocation gave %d", r); break; case 2: r = OKOF(q.make_ready_at_thread_exit()); vs_assert_msg(r == STARTED || r == SATISFIED, "second invocation gave %d", r); break; case 3: q.reset(); g = q.get_future(); vs_assert(!g.is_ready()); q(); vs_assert(g.is_ready()); break; } vs_assert(!f.is_ready()); vs_set(GONE, 1); });
    f.wait(); vs_assert_msg(vs_get(GONE) && vs_get(CLEANED), "ready before the thread had ended"); int r = fetch<T>(f); vs_assert_msg(r == want1, "the future gave %d", r); vs_assert(d.a >= 1); a.join(); if (after == 3) vs_assert(fetch<T>(g) == want1 && vs_get(RUNS) == 2); else vs_assert(vs_get(RUNS) == 1); finish(); } vs_assert(!vs_get(LIVE) && !vs_get(FLIVE)); }
SCENARIO(task_obj, vs_opt().bound(2, 3).leak().secs(20, 240)) { task<Obj>(); }
SCENARIO(task_mo, vs_opt().bound(1, 2).leak().secs(20, 240)) { task<MO>(); }
SCENARIO(task_ref, vs_opt().bound(1, 2).leak().secs(20, 240)) { task<int&>(); }
SCENARIO(task_void, vs_opt().bound(1, 2).leak().secs(20, 240)) { task<void>(); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
// an interrupted thread has ended as well
SCENARIO(interrupted, vs_opt().bound(2, 3).leak()) { { promise<Obj> p; fut<Obj> f(p.get_future()); thread t([&] { p.set_value_at_thread_exit(Obj(2)); boost::this_thread::sleep_for(ms(FAR_)); vs_assert(vs_forced_tick()); }); t.interrupt(); int r = fetch<Obj>(f); vs_assert(r == 2); t.join(); } vs_assert(vs_get(LIVE) == 0); }
#endif
// an abandoned future; the promise gone before anybody looks
SCENARIO(abandoned, vs_opt().bound(2, 3).leak()) { { int k = vs_choose(3); fut<Obj> f; { promise<Obj> p; f = p.get_future(); promise<Obj>* q = new promise<Obj>(boost::move(p)); thread t([q, k] { q->set_value_at_thread_exit(Obj(3)); if (k) { delete q; vs_point(); } vs_set(GONE, 1); if (!k) delete q; }); if (k == 2) { f = fut<Obj>(); } t.join(); } if (k != 2) vs_assert(f.is_ready() && fetch<Obj>(f) == 3); } vs_assert(vs_get(LIVE) == 0); }
#if defined BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
SCENARIO(continued, vs_opt().bound(2, 3).leak().secs(20, 240)) { { promise<Obj> p; fut<Obj> f(p.get_future()); int when = vs_choose(2); fut<int> c; auto attach = [&] { c = f.then(boost::launch::sync, [](fut<Obj> x) { vs_assert_msg(vs_get(GONE) && x.is_ready(), "the continuation ran before the thread had ended"); vs_add(CONT, 1); return fetch<Obj>(x) + 1; }); }; if (!when) attach(); thread t([&] { p.set_value_at_thread_exit(Obj(3)); vs_point(); vs_set(GONE, 1); }); if (when) attach(); vs_assert(fetch<int>(c) == 4); t.join(); vs_assert(vs_get(CONT) == 1); } vs_assert(vs_get(LIVE) == 0); }
#endif
// set before the future is retrieved; through a promise that has lost its state
template <class T> static void early() { { promise<T> p; int how = vs_choose(2), where = vs_choose(2); fut<T> f; thread t([&, how, where] { int r = OKOF(set_exit(p, how, 4)); vs_assert_msg(r == OK, "setting the result before get_future gave %d", r); if (where) { f = p.get_future(); vs_assert_msg(!f.is_ready(), "ready before the thread has ended"); } vs_set(SET, 1); vs_point(); vs_set(GONE, 1); }); if (!where) { vs_await(SET, 1); f = p.get_future(); int r = fetch<T>(f); vs_assert_msg(vs_get(GONE), "ready before the thread had ended"); vs_assert(r == wantx<T>(how, 4)); t.join(); } else { t.join(); vs_assert(f.is_ready() && fetch<T>(f) == wantx<T>(how, 4)); } } vs_assert(vs_get(LIVE) == 0); }
SCENARIO(early_obj, vs_opt().bound(2, 3).leak()) { early<Obj>(); }
SCENARIO(early_mo, vs_opt().bound(1, 2).leak()) { early<MO>(); }
SCENARIO(early_ref, vs_opt().bound(1, 2).leak()) { early<int&>(); }
SCENARIO(early_void, vs_opt().bound(1, 2).leak()) { early<void>(); }
template <class T> static void stateless() { { promise<T> p, q(boost::move(p)); int how = vs_choose(2); vs_assert(OKOF(p.notify_deferred()) == MOVED);
#if ! defined BOOST_THREAD_PROVIDES_PROMISE_LAZY
    thread t([&] { int r = OKOF(set_exit(p, how, 4)); vs_assert_msg(r == MOVED, "setting through a promise without state gave %d", r); set_exit(q, how, 4); }); t.join(); fut<T> f(q.get_future()); vs_assert(f.is_ready() && fetch<T>(f) == wantx<T>(how, 4));
#endif
    } vs_assert(vs_get(LIVE) == 0); }
SCENARIO(stateless_obj, vs_opt().bound(1, 2).leak()) { stateless<Obj>(); }
SCENARIO(stateless_ref, vs_opt().bound(1, 2).leak()) { stateless<int&>(); }
SCENARIO(stateless_void, vs_opt().bound(1, 2).leak()) { stateless<void>(); }
// exit functions and cleanups registering more of either: all come before the result
enum { STEPS = 8 };
static void step(int code, int n);
static void chain_cleanup(int* p) { int c = *p; delete p; step(c >> 4, c & 15); }
static boost::thread_specific_ptr<int>* chq; static promise<int>* chp;
struct Step { int code, n; void operator()() const { step(code, n); } };
static void step(int code, int n) {
    vs_add(STEPS, 1); vs_point(); if (!n) return; if ((code & 2) && chp) { promise<int>* p = chp; chp = 0; p->set_value_at_thread_exit(7); }
    if (code & 1) chq->reset(new int((code >> 2) << 4 | (n - 1))); else boost::this_thread::at_thread_exit(Step{code >> 2, n - 1}); }
SCENARIO(chained, vs_opt().bound(1, 2).leak()) {
    boost::thread_specific_ptr<int> q(&chain_cleanup); chq = &q; promise<int> p, p2; fut<int> f(p.get_future()), f2(p2.get_future()); chp = &p2; int kind = vs_choose(2) * 2;
    int n = 1 + vs_choose(vs_thorough() ? 3 : 2), code = 0; for (int i = 0; i < n; i++) code |= vs_choose(4) << (2 * i); bool before = vs_choose(2);
    Thr t(kind, [&] { if (before) step(code, n); p.set_value_at_thread_exit(5); if (!before) step(code, n); });
    int r = fetch<int>(f); vs_assert_msg(r == 5 && vs_get(STEPS) == n + 1, "ready when %ld of %d exit functions and cleanups had run", vs_get(STEPS), n + 1);
    if (!chp) vs_assert_msg(fetch<int>(f2) == 7, "the result an exit function set at thread exit"); t.join(); }
#if defined BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
// a continuation that runs in the exiting thread sets further results at thread exit
SCENARIO(set_by_continuation, vs_opt().bound(1, 2).leak().secs(20, 240)) {
    { const int N = 3; promise<Obj> p[N]; fut<Obj> s[N]; for (int i = 0; i < N; i++) s[i] = p[i].get_future(); promise<Obj> a, b; fut<Obj> fa(a.get_future()), fb(b.get_future()); int n = 1 + vs_choose(N), k = vs_choose(n); bool two = vs_choose(2);
    fut<int> c = s[k].then(boost::launch::sync, [&](fut<Obj> x) { vs_assert(x.is_ready()); a.set_value_at_thread_exit(Obj(8)); if (two) b.set_exception_at_thread_exit(boost::copy_exception(Ex(9))); return fetch<Obj>(x); });
    thread t([&] { for (int i = 0; i < n; i++) set_exit(p[i], 0, i); });
    vs_assert(fetch<int>(c) == k); vs_assert_msg(fetch<Obj>(fa) == 8, "a result set at thread exit by a continuation"); if (two) vs_assert(fetch<Obj>(fb) == EXC + 9); for (int i = 0; i < n; i++) if (i != k) vs_assert(fetch<Obj>(s[i]) == i); t.join(); }
    vs_assert(vs_get(LIVE) == 0); }
#endif
