// F06: continuations
#include "fut.hpp"
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
typedef boost::executors::basic_thread_pool Pool;
#endif
using boost::async; using boost::launch; using boost::future_status; using boost::thread; using boost::packaged_task;
enum { READY = 1, RUNS = 2, RUNNER = 3, CTHROWS = 4, GO = 5, PVAL = 6, RUNS2 = 7, FLIVE = 61 };
// the continuation: checks what it receives, adds 10
template <class F, class T, class T2> struct Co { int want; Data* d; explicit Co(int w, Data* dd = 0) : want(w), d(dd) { vs_add(FLIVE, 1); } Co(Co&& o) : want(o.want), d(o.d) { vs_add(FLIVE, 1); } Co(const Co& o) : want(o.want), d(o.d) { vs_add(FLIVE, 1); } ~Co() { vs_add(FLIVE, -1); }
    typedef T2 result_type;
    T2 operator()(F f) { vs_add(RUNS, 1); vs_set(RUNNER, vs_self()); vs_assert_msg(f.valid() && f.is_ready(), "the continuation got a future that is not ready"); vs_assert_msg(vs_get(READY), "the continuation ran before its antecedent was ready"); if (d) d->bump(); int r = fetch<T>(f); vs_assert_msg(r == want, "the continuation received %d", r); if (vs_get(CTHROWS) == 1) throw Ex(50); if (vs_get(CTHROWS) == 2) f.get_exception_ptr() ? boost::rethrow_exception(f.get_exception_ptr()) : void(); vs_point(); return K<T2>::mk(r >= EXC ? 30 : r < 0 ? 31 : r + 10); } };
template <class T2> static int cwant(int w) { int c = vs_get(CTHROWS); return c == 1 ? EXC + 50 : c == 2 && w >= EXC ? w : c == 2 && w < 0 ? w : K<T2>::hasv ? (w >= EXC ? 30 : w < 0 ? 31 : w + 10) : 0; }
static launch pol(int k) { switch (k) { case 0: return launch::async; case 1: return launch::sync; case 2: return launch::deferred; case 3: return launch::none; } return launch::inherit; }
static void clean() { vs_quiesce(); vs_assert_msg(!vs_get(LIVE), "%ld results left alive", vs_get(LIVE)); vs_assert_msg(!vs_get(FLIVE), "%ld functions left alive", vs_get(FLIVE)); }
// an antecedent set by another thread; attached before, after or meanwhile
template <class T> static void put(promise<T>& p, int how) { vs_set(READY, 1); switch (how) { case 0: K<T>::set(p, 5); break; case 1: p.set_exception(Ex(5)); break; case 2: { promise<T> q(boost::move(p)); } } }
template <class T> static int pwant(int how) { return how == 0 ? (K<T>::hasv ? 5 : 0) : how == 1 ? EXC + 5 : (int)BROKEN; }
template <class F, class T2> static void collect(F& g, int form, int w) { if (form == 1) g.wait(); if (form == 2) { bool r = g.wait_for(ms(FAR_)) == future_status::ready; vs_assert_msg(r || vs_forced_tick(), "a timed wait missed the continuation"); } int r = fetch<T2>(g); vs_assert_msg(r == cwant<T2>(w), "the continuation's future gave %d, expected %d", r, cwant<T2>(w)); }
template <class T, class T2, bool SH> static void then1(int np = 5) { { Data d; promise<T> p; fut<T> f(p.get_future()); int how = vs_choose(3), k = vs_choose(np), th = vs_choose(3); vs_set(CTHROWS, th); int w = pwant<T>(how), form = k == 2 ? 0 : vs_choose(2) * 2, seen = 0; vs_t s([&, how] { put(p, how); });
    fut<T2> g; { if (SH) { sfut<T> sf(f.share()); g = k == 3 ? sf.then(Co<sfut<T>, T, T2>(w, &d)) : sf.then(pol(k), Co<sfut<T>, T, T2>(w, &d)); vs_assert_msg(sf.valid() && g.valid(), "validity after then"); } else { g = k == 3 ? f.then(Co<fut<T>, T, T2>(w, &d)) : f.then(pol(k), Co<fut<T>, T, T2>(w, &d)); vs_assert_msg(!f.valid() && g.valid(), "validity after then"); } }
    if (k == 2) { vs_assert_msg(g.wait_for(ms(0)) == future_status::deferred, "a deferred continuation"); vs_assert_msg(vs_get(RUNS) == 0, "a deferred continuation ran before anybody waited"); }
    collect<fut<T2>, T2>(g, form, w); seen = d.a; vs_assert_msg(seen == 1 && vs_get(RUNS) == 1, "the continuation ran %ld times", vs_get(RUNS)); if (k == 2) vs_assert_msg(vs_get(RUNNER) == vs_self(), "a deferred continuation runs in the waiting thread"); if (k == 0) vs_assert_msg(vs_get(RUNNER) != vs_self() && vs_get(RUNNER) != s.id, "an async continuation runs in a thread of its own"); if (k == 1) vs_assert_msg(vs_get(RUNNER) == vs_self() || vs_get(RUNNER) == s.id, "a sync continuation runs where its antecedent becomes ready"); s.join(); } clean(); }
SCENARIO(then_obj_int, vs_opt().bound(2, 3).leak().secs(20, 240)) { then1<Obj, int, false>(); }
SCENARIO(then_int_obj, vs_opt().bound(1, 2).leak()) { then1<int, Obj, false>(); }
SCENARIO(then_void_void, vs_opt().bound(1, 2).leak()) { then1<void, void, false>(); }
SCENARIO(then_ref_mo, vs_opt().bound(1, 2).leak()) { then1<int&, MO, false>(3); }
SCENARIO(then_mo_obj, vs_opt().bound(1, 2).leak()) { then1<MO, Obj, false>(2); }
SCENARIO(then_shared_obj_obj, vs_opt().bound(2, 3).leak().secs(20, 240)) { then1<Obj, Obj, true>(); }
SCENARIO(then_shared_void_void, vs_opt().bound(1, 2).leak()) { then1<void, void, true>(); }
SCENARIO(then_shared_ref_int, vs_opt().bound(1, 2).leak()) { then1<int&, int, true>(3); }
// several continuations of one shared future, several waiters of one continuation
SCENARIO(fan_out, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<Obj> p; sfut<Obj> f(p.get_future()); int how = vs_choose(2), k[3], w = pwant<Obj>(how); for (int i = 0; i < 3; i++) { k[i] = vs_choose(3); if (i && k[i] < k[i - 1]) vs_cut(); } fut<int> g[3]; g[0] = f.then(pol(k[0]), Co<sfut<Obj>, Obj, int>(w)); vs_t s([&, how] { put(p, how); }); vs_t a([&] { sfut<Obj> c(f); g[1] = c.then(pol(k[1]), Co<sfut<Obj>, Obj, int>(w)); }); { sfut<Obj> c(f); g[2] = c.then(pol(k[2]), Co<sfut<Obj>, Obj, int>(w)); } s.join(); a.join(); for (int i = 0; i < 3; i++) collect<fut<int>, int>(g[i], 0, w); vs_assert_msg(vs_get(RUNS) == 3, "%ld of 3 continuations ran", vs_get(RUNS)); vs_assert(fetch<Obj>(f) == w); } clean(); }
SCENARIO(fan_in, vs_opt().bound(2, 3).leak().secs(20, 240)) { { promise<Obj> p; fut<Obj> f(p.get_future()); int how = vs_choose(2), k = vs_choose(3), w = pwant<Obj>(how); sfut<Obj> g(f.then(pol(k), Co<fut<Obj>, Obj, Obj>(w))); vs_t a([&] { sfut<Obj> c(g); collect<sfut<Obj>, Obj>(c, 0, w); }), b([&] { sfut<Obj> c(g); collect<sfut<Obj>, Obj>(c, 1, w); }); put(p, how); a.join(); b.join(); vs_assert_msg(vs_get(RUNS) == 1, "the continuation ran %ld times", vs_get(RUNS)); } clean(); }
// chains
template <int N> static void chain() { { promise<Obj> p; fut<Obj> f(p.get_future()); vs_set(READY, 1); int k1 = vs_choose(3), k2 = vs_choose(5), how = vs_choose(2), late = vs_choose(2); if (k1 == 2 && k2 != 2 && k2 != 4) vs_cut(); vs_t s([&, how] { put(p, how); }); fut<int> g(f.then(pol(k1), [](fut<Obj> x) { vs_assert(x.is_ready()); vs_add(RUNS, 1); return x.get().v + 1; })); if (late) s.join(); fut<int> h(g.then(pol(k2), [](fut<int> x) { vs_assert(x.is_ready()); vs_add(RUNS2, 1); return x.get() + 1; })); int r = fetch<int>(h); vs_assert_msg(r == (how ? EXC + 5 : 7), "the end of a chain gave %d", r); vs_assert(vs_get(RUNS) == 1 && vs_get(RUNS2) == 1); if (!late) s.join(); } clean(); }
SCENARIO(chained, vs_opt().bound(2, 3).leak().secs(20, 240)) { chain<2>(); }
// the continuation's future dropped at once: it runs all the same unless it is deferred; nothing leaks
SCENARIO(dropped, vs_opt().bound(2, 3).leak()) { { promise<Obj> p; fut<Obj> f(p.get_future()); int how = vs_choose(3), k = vs_choose(3), sh = vs_choose(2), w = pwant<Obj>(how); { if (sh) { sfut<Obj> s(f.share()); s.then(pol(k), Co<sfut<Obj>, Obj, int>(w)); } else f.then(pol(k), Co<fut<Obj>, Obj, int>(w)); } put(p, how); vs_quiesce(); vs_assert_msg(vs_get(RUNS) == (k != 2), "the continuation ran %ld times", vs_get(RUNS)); } clean(); }
// ready antecedents; invalid ones
SCENARIO(ready_made, vs_opt().bound(1, 2).leak()) { { vs_set(READY, 1); int k = vs_choose(5), e = vs_choose(3); fut<Obj> f; if (e == 0) f = boost::make_ready_future(Obj(5)); if (e == 1) f = boost::make_exceptional_future<Obj>(Ex(5)); if (e == 2) f = boost::make_ready_future(4).then(launch::sync, [](fut<int> x) { return Obj(x.get() + 1); }); int w = e == 1 ? EXC + 5 : 5; fut<int> g(f.then(pol(k), Co<fut<Obj>, Obj, int>(w))); if (k == 1) vs_assert_msg(g.is_ready(), "a sync continuation of a ready future"); collect<fut<int>, int>(g, 0, w); vs_assert(vs_get(RUNS) == 1); fut<Obj> bad; sfut<Obj> sbad; vs_assert(OKOF(bad.then(pol(k), Co<fut<Obj>, Obj, int>(w))) == UNINIT && OKOF(sbad.then(pol(k), Co<sfut<Obj>, Obj, int>(w))) == UNINIT && OKOF(f.then(Co<fut<Obj>, Obj, int>(w))) == UNINIT); vs_assert(vs_get(RUNS) == 1); } clean(); }
// every kind of antecedent; the policy is inherited
SCENARIO(of_async, vs_opt().bound(2, 3).leak().secs(20, 240)) { { int k = vs_choose(5), th = vs_choose(2); fut<Obj> f(async(launch::async, [th] { vs_set(READY, 1); if (th) throw Ex(5); return Obj(5); })); int w = th ? EXC + 5 : 5; fut<int> g(k == 3 ? f.then(Co<fut<Obj>, Obj, int>(w)) : f.then(pol(k), Co<fut<Obj>, Obj, int>(w))); collect<fut<int>, int>(g, 0, w); vs_assert(vs_get(RUNS) == 1); if (k != 1 && k != 2) vs_assert(vs_get(RUNNER) != vs_self()); vs_quiesce(); } clean(); }
SCENARIO(of_task, vs_opt().bound(2, 3).leak()) { { int k = vs_choose(3), th = vs_choose(3); packaged_task<Obj()> t([th] { vs_set(READY, 1); if (th) throw Ex(5); return Obj(5); }); fut<Obj> f(t.get_future()); int w = th == 2 ? (int)BROKEN : th ? EXC + 5 : 5; vs_t s([&, th] { if (th == 2) { vs_set(READY, 1); t = packaged_task<Obj()>(); } else t(); }); fut<int> g(f.then(pol(k), Co<fut<Obj>, Obj, int>(w))); collect<fut<int>, int>(g, 0, w); s.join(); vs_assert(vs_get(RUNS) == 1); } clean(); }
SCENARIO(of_deferred, vs_opt().bound(2, 3).leak()) { { int how = vs_choose(3), th = vs_choose(2), use = vs_choose(3); auto fn = [th] { vs_set(READY, 1); vs_add(RUNS2, 1); if (th) throw Ex(5); return Obj(5); }; int w = th ? EXC + 5 : 5; fut<int> g; sfut<Obj> s; fut<Obj> f(async(launch::deferred, fn)); if (how == 0) g = f.then(launch::deferred, Co<fut<Obj>, Obj, int>(w)); if (how == 1) g = f.then(launch::inherit, Co<fut<Obj>, Obj, int>(w)); if (how == 2) { s = f.share(); g = s.then(launch::deferred, Co<sfut<Obj>, Obj, int>(w)); } vs_assert(g.wait_for(ms(0)) == future_status::deferred && vs_get(RUNS) == 0 && vs_get(RUNS2) == 0);
    if (use == 0) { collect<fut<int>, int>(g, 0, w); vs_assert(vs_get(RUNS) == 1 && vs_get(RUNS2) == 1 && vs_get(RUNNER) == vs_self()); } if (use == 1 && how == 2) { vs_run([&] { sfut<Obj> c(s); vs_assert(fetch<Obj>(c) == w); }, [&] { collect<fut<int>, int>(g, 0, w); }); vs_assert(vs_get(RUNS) == 1 && vs_get(RUNS2) == 1); } } clean(); }
// a deferred antecedent that somebody waits for through another handle
SCENARIO(of_deferred_shared, vs_opt().bound(2, 3).leak()) { { int k = vs_choose(2), th = vs_choose(2), late = vs_choose(2); int w = th ? EXC + 5 : 5; sfut<Obj> s(async(launch::deferred, [th] { vs_set(READY, 1); if (th) throw Ex(5); return Obj(5); }).share()); fut<int> g; auto wait = [&] { sfut<Obj> c(s); vs_assert(fetch<Obj>(c) == w); }; vs_t a(wait); if (late) a.join(); g = s.then(pol(k), Co<sfut<Obj>, Obj, int>(w)); collect<fut<int>, int>(g, 0, w); if (!late) a.join(); vs_assert(vs_get(RUNS) == 1); vs_quiesce(); } clean(); }
// a deferred antecedent nobody else can wait for
SCENARIO(of_deferred_alone, vs_opt().bound(1, 1)) { int k = vs_choose(2); fut<Obj> f(async(launch::deferred, [] { vs_set(READY, 1); return Obj(5); })); fut<int> g(f.then(pol(k), Co<fut<Obj>, Obj, int>(5))); collect<fut<int>, int>(g, 0, 5); }
// no thread to be had for an asynchronous continuation: an error in its future; the others run
SCENARIO(nothread, vs_opt().bound(2, 3).leak().faults(VSF_CREATE)) { { int when = vs_choose(2), w = 5; promise<Obj> p; sfut<Obj> f(p.get_future()); vs_set(READY, 0); vs_fault_window(0); fut<int> g, h; auto attach = [&] { h = f.then(launch::async, Co<sfut<Obj>, Obj, int>(w)); g = f.then(launch::sync, Co<sfut<Obj>, Obj, int>(w)); }; vs_fault_window(VSF_CREATE); if (!when) attach(); int r = OKOF(put(p, 0)); vs_assert_msg(r == OK, "set_value failed because a continuation could not be started"); if (when) { r = OKOF(attach()); if (r != OK) vs_outcome("then threw"); }
    vs_fault_window(0); vs_assert(fetch<Obj>(f) == 5); if (g.valid()) vs_assert(fetch<int>(g) == 15); if (h.valid()) { int q = outcome([&] { try { return h.get(); } catch (boost::thread_resource_error&) { return 77; } }); vs_assert_msg(q == 15 || q == 77, "a continuation that could not be started gave %d", q); vs_assert(vs_get(RUNS) == 1 + (q == 15)); } vs_quiesce(); } clean(); }
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
// on executors
template <class E> static void on(E& ex, int loc) { promise<Obj> p; fut<Obj> f(p.get_future()); int how = vs_choose(2), sh = vs_choose(2), w = pwant<Obj>(how); fut<int> g; vs_t s([&, how] { put(p, how); }); if (sh) { sfut<Obj> c(f.share()); g = c.then(ex, Co<sfut<Obj>, Obj, int>(w)); vs_assert(c.valid()); } else { g = f.then(ex, Co<fut<Obj>, Obj, int>(w)); vs_assert(!f.valid()); } collect<fut<int>, int>(g, 0, w); if (loc) vs_assert_msg(vs_get(RUNNER) != vs_self() && vs_get(RUNNER) != s.id, "the continuation did not run in its executor"); fut<int> h(g.valid() ? g.then(ex, [](fut<int>) { return 1; }) : fut<int>()); s.join(); vs_assert(vs_get(RUNS) == 1); if (h.valid()) vs_assert(fetch<int>(h) == 1); }
SCENARIO(on_pool, vs_opt().bound(2, 3).leak().secs(20, 240)) { { vs_set(CTHROWS, vs_choose(2)); Pool ex(1); on(ex, 1); } clean(); }
SCENARIO(on_adaptor, vs_opt().bound(1, 2).leak()) { { boost::executors::executor_adaptor<Pool> ex(1); boost::executors::executor& e = ex; on(e, 1); } clean(); }
SCENARIO(on_inline, vs_opt().bound(2, 3).leak()) { { boost::executors::inline_executor ex; on(ex, 0); } clean(); }
// the executor is inherited, also after the antecedents are gone
SCENARIO(inherited, vs_opt().bound(1, 2).leak().secs(20, 240)) { { Pool ex(1); vs_set(READY, 1); int k[2]; launch l[3] = {launch::executor, launch::inherit, launch::none}; for (int i = 0; i < 2; i++) k[i] = vs_choose(3); int late = vs_choose(2), sh = vs_choose(2); fut<Obj> f(async(ex, [] { return Obj(5); })); fut<int> g; if (sh) { sfut<Obj> s(f.share()); g = k[0] == 2 ? s.then(Co<sfut<Obj>, Obj, int>(5)) : s.then(l[k[0]], Co<sfut<Obj>, Obj, int>(5)); } else g = k[0] == 2 ? f.then(Co<fut<Obj>, Obj, int>(5)) : f.then(l[k[0]], Co<fut<Obj>, Obj, int>(5)); if (late) { g.wait(); vs_quiesce(); } auto c2 = [](fut<int> x) { vs_assert(x.is_ready()); vs_add(RUNS2, 1); vs_assert_msg(vs_self() != 0, "the continuation did not run in its executor"); return x.get() + 1; }; fut<int> h(k[1] == 2 ? g.then(std::move(c2)) : g.then(l[k[1]], std::move(c2))); vs_assert(fetch<int>(h) == 16 && vs_get(RUNS) == 1 && vs_get(RUNS2) == 1); } clean(); }
// an executor that refuses
SCENARIO(refused, vs_opt().bound(2, 3).leak()) { { int when = vs_choose(2), sh = vs_choose(2); promise<Obj> p; fut<Obj> f(p.get_future()); Pool ex(1); fut<int> g, h; auto attach = [&] { if (sh) { sfut<Obj> s(f.share()); g = s.then(ex, Co<sfut<Obj>, Obj, int>(5)); h = s.then(launch::sync, Co<sfut<Obj>, Obj, int>(5)); } else g = f.then(ex, Co<fut<Obj>, Obj, int>(5)); }; if (!when) attach(); ex.close(); int r = OKOF(put(p, 0)); vs_assert_msg(r == OK, "set_value failed because an executor refused a continuation"); if (when) attach(); int q = outcome([&] { try { return g.get(); } catch (boost::sync_queue_is_closed&) { return 77; } }); vs_assert_msg(q == 77, "a refused continuation gave %d", q); if (h.valid()) vs_assert(fetch<int>(h) == 15 && vs_get(RUNS) == 1); else vs_assert(vs_get(RUNS) == 0); } clean(); }
SCENARIO(close_race, vs_opt().bound(2, 3).leak().secs(20, 240)) { { promise<Obj> p; fut<Obj> f(p.get_future()); fut<int> g; { Pool ex(1); g = f.then(ex, Co<fut<Obj>, Obj, int>(5)); vs_t s([&] { put(p, 0); }), c([&] { ex.close(); }); s.join(); c.join(); } vs_assert_msg(g.is_ready(), "the executor is gone, the continuation's future not ready"); int q = outcome([&] { try { return g.get(); } catch (boost::sync_queue_is_closed&) { return 77; } }); vs_assert_msg(q == 15 || q == 77, "%d", q); vs_assert(vs_get(RUNS) == (q == 15)); } clean(); }
#endif
