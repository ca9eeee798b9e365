// F07: unwrap, fallback_to, ready-made futures
#include "fut.hpp"
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#endif
using boost::async; using boost::launch; using boost::future_status; using boost::packaged_task;
enum { ODONE = 1, IDONE = 2, RUNS = 3 };
static void clean() { vs_quiesce(); vs_assert_msg(!vs_get(LIVE), "%ld results left alive", vs_get(LIVE)); }
#if defined BOOST_THREAD_PROVIDES_FUTURE_UNWRAP
// outer: 0 the inner future, 1 an exception, 2 broken, 3 an inner future that is not valid; inner: 0 value 1 exception 2 broken
template <class T> static void outer(promise<fut<T> >& po, promise<T>& pi, fut<T>& in, int o) { vs_set(ODONE, 1); switch (o) { case 0: po.set_value(boost::move(in)); break; case 1: po.set_exception(Ex(7)); break; case 2: { promise<fut<T> > q(boost::move(po)); } break; case 3: po.set_value(fut<T>()); } }
template <class T> static void inner(promise<T>& p, int i) { vs_set(IDONE, 1); switch (i) { case 0: K<T>::setr(p, 5); break; case 1: p.set_exception(Ex(5)); break; case 2: { promise<T> q(boost::move(p)); } } }
template <class T> static int want(int o, int i) { return o == 1 ? EXC + 7 : o == 2 ? (int)BROKEN : o == 3 ? (int)BROKEN : i == 0 ? val<T>(5) : i == 1 ? EXC + 5 : (int)BROKEN; }
template <class T> static void collect(fut<T>& g, int form, int o, int w) { if (form == 1) { if (g.is_ready()) vs_assert_msg(vs_get(ODONE) && (o || vs_get(IDONE)), "ready too early"); } if (form == 2) { bool r = g.wait_for(ms(FAR_)) == future_status::ready; vs_assert_msg(r || vs_forced_tick(), "a timed wait missed the result"); } if (form == 3) { g.wait(); vs_assert(g.is_ready() && g.has_exception() == (w >= EXC || w < 0)); } int r = fetch<T>(g); vs_assert_msg(vs_get(ODONE) && (o || vs_get(IDONE)), "ready too early"); vs_assert_msg(r == w, "the unwrapped future gave %d, expected %d", r, w); }
template <class T> static void unwrap1(int no) { { promise<fut<T> > po; promise<T> pi; fut<T> in(pi.get_future()); fut<fut<T> > f(po.get_future()); int o = vs_choose(no), i = o ? 0 : vs_choose(3), how = vs_choose(2), form = vs_choose(4); vs_t a([&] { outer(po, pi, in, o); }), b([&] { inner(pi, i); }); fut<T> g; if (how) g = f.unwrap(); else { fut<T> h(boost::move(f)); g = boost::move(h); } vs_assert_msg(!f.valid() && g.valid(), "validity after unwrap"); collect(g, form, o, want<T>(o, i)); a.join(); b.join(); } clean(); }
SCENARIO(unwrap_obj, vs_opt().bound(2, 3).leak().secs(20, 240)) { unwrap1<Obj>(4); }
SCENARIO(unwrap_int, vs_opt().bound(2, 3).leak().secs(20, 240)) { unwrap1<int>(4); }
SCENARIO(unwrap_mo, vs_opt().bound(1, 2).leak()) { unwrap1<MO>(4); }
SCENARIO(unwrap_void, vs_opt().bound(2, 3).leak().secs(20, 240)) { unwrap1<void>(4); }
SCENARIO(unwrap_ref, vs_opt().bound(1, 2).leak()) { unwrap1<int&>(4); }
// every order of the four events: outer set, inner set, unwrapped, inner attached
SCENARIO(ready_inner, vs_opt().bound(1, 2).leak()) { { int e = vs_choose(4), late = vs_choose(2); promise<fut<Obj> > po; fut<fut<Obj> > f(po.get_future()); auto mk = [e]() -> fut<Obj> { switch (e) { case 0: return boost::make_ready_future(Obj(5)); case 1: return boost::make_exceptional_future<Obj>(Ex(5)); case 2: return boost::make_ready_future(4).then(launch::sync, [](fut<int> x) { return Obj(x.get() + 1); }); } promise<Obj> p; return p.get_future(); }; if (!late) po.set_value(mk()); fut<Obj> g(f.unwrap()); if (late) { vs_assert(!g.is_ready()); po.set_value(mk()); } vs_assert_msg(g.is_ready(), "both levels are ready, the unwrapped future is not"); vs_assert(fetch<Obj>(g) == (e == 0 || e == 2 ? 5 : e == 1 ? EXC + 5 : (int)BROKEN)); } clean(); }
SCENARIO(ready_inner_void, vs_opt().bound(1, 2).leak()) { { int e = vs_choose(2), late = vs_choose(2); promise<fut<void> > po; fut<fut<void> > f(po.get_future()); auto mk = [e]() -> fut<void> { if (e) return boost::make_exceptional_future<void>(Ex(5)); return boost::make_ready_future(); }; if (!late) po.set_value(mk()); fut<void> g(f.unwrap()); if (late) po.set_value(mk()); vs_assert_msg(g.is_ready(), "both levels are ready, the unwrapped future is not"); vs_assert(fetch<void>(g) == (e ? EXC + 5 : 0)); } clean(); }
SCENARIO(both_ready_made, vs_opt().bound(1, 2).leak()) { { fut<fut<Obj> > f(boost::make_ready_future(boost::make_ready_future(Obj(5)))); fut<Obj> g(vs_choose(2) ? f.unwrap() : fut<Obj>(boost::move(f))); vs_assert(g.is_ready() && fetch<Obj>(g) == 5); fut<fut<Obj> > bad; vs_assert(OKOF(bad.unwrap()) == UNINIT); } clean(); }
// inner and outer futures of other kinds
SCENARIO(of_async, vs_opt().bound(2, 3).leak().secs(20, 240)) { { int th = vs_choose(3); fut<fut<Obj> > f(async(launch::async, [th]() -> fut<Obj> { if (th == 2) throw Ex(7); vs_point(); return async(launch::async, [th] { vs_point(); if (th) throw Ex(5); vs_set(IDONE, 1); return Obj(5); }); })); fut<Obj> g(f.unwrap()); int r = fetch<Obj>(g); vs_assert_msg(r == (th == 2 ? EXC + 7 : th ? EXC + 5 : 5), "got %d", r); vs_quiesce(); } clean(); }
SCENARIO(of_tasks, vs_opt().bound(2, 3).leak()) { { int th = vs_choose(3); packaged_task<Obj()> ti([th] { if (th == 1) throw Ex(5); return Obj(5); }); packaged_task<fut<Obj>()> to([&]() -> fut<Obj> { if (th == 2) throw Ex(7); return ti.get_future(); }); fut<Obj> g(to.get_future().unwrap()); vs_t a([&] { to(); }), b([&] { ti(); }); int r = fetch<Obj>(g); vs_assert_msg(r == (th == 2 ? EXC + 7 : th ? EXC + 5 : 5), "got %d", r); a.join(); b.join(); } clean(); }
// levels
SCENARIO(three_levels, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<fut<fut<Obj> > > p3; promise<fut<Obj> > p2; promise<Obj> p1; int e = vs_choose(4); fut<fut<fut<Obj> > > f3(p3.get_future()); fut<fut<Obj> > f2(p2.get_future()); fut<Obj> f1(p1.get_future()); vs_t a([&] { if (e == 3) p3.set_exception(Ex(3)); else p3.set_value(boost::move(f2)); }), b([&] { if (e == 2) p2.set_exception(Ex(2)); else p2.set_value(boost::move(f1)); }), c([&] { if (e == 1) p1.set_exception(Ex(1)); else p1.set_value(Obj(5)); }); fut<Obj> g(f3.unwrap().unwrap()); int r = fetch<Obj>(g); vs_assert_msg(r == (e ? EXC + e : 5), "got %d", r); a.join(); b.join(); c.join(); } clean(); }
// continuations before and after
SCENARIO(with_then, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<int> p, q; fut<int> fq(q.get_future()); int k = vs_choose(3), e = vs_choose(3); launch pol = k == 0 ? launch::async : k == 1 ? launch::sync : launch::deferred; if (k == 2) pol = launch::sync; vs_t a([&] { p.set_value(1); }), b([&] { if (e == 1) q.set_exception(Ex(5)); else q.set_value(5); }); fut<int> g(p.get_future().then(pol, [&](fut<int> x) { vs_add(RUNS, x.get()); if (e == 2) throw Ex(7); return boost::move(fq); }).unwrap()); fut<int> h(g.then(k == 2 ? launch::deferred : pol, [&](fut<int> x) { vs_add(RUNS, 1); return x.get() + 1; })); int r = fetch<int>(h); vs_assert_msg(r == (e == 2 ? EXC + 7 : e == 1 ? EXC + 5 : 6) && vs_get(RUNS) == 2, "got %d after %ld", r, vs_get(RUNS)); a.join(); b.join(); vs_quiesce(); } clean(); }
SCENARIO(shared_waiters, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<fut<Obj> > po; promise<Obj> pi; fut<Obj> in(pi.get_future()); sfut<Obj> g(po.get_future().unwrap()); vs_t a([&] { po.set_value(boost::move(in)); pi.set_value(Obj(5)); }), b([&] { sfut<Obj> c(g); vs_assert(fetch<Obj>(c) == 5); }); sfut<Obj> c(g); vs_assert(fetch<Obj>(c) == 5); a.join(); b.join(); } clean(); }
// the result dropped before, between and after
SCENARIO(dropped, vs_opt().bound(2, 3).leak()) { { promise<fut<Obj> > po; promise<Obj> pi; fut<Obj> in(pi.get_future()); { fut<Obj> g(po.get_future().unwrap()); vs_t a([&] { po.set_value(boost::move(in)); }), b([&] { pi.set_value(Obj(5)); }); g = fut<Obj>(); a.join(); b.join(); } } clean(); }
// deferred futures
SCENARIO(deferred_outer, vs_opt().bound(1, 2)) { fut<fut<Obj> > f(async(launch::deferred, [] { return boost::make_ready_future(Obj(5)); })); fut<Obj> g(f.unwrap()); vs_assert(fetch<Obj>(g) == 5); }
SCENARIO(deferred_inner, vs_opt().bound(1, 2)) { promise<fut<Obj> > po; fut<Obj> g(po.get_future().unwrap()); po.set_value(async(launch::deferred, [] { return Obj(5); })); vs_assert(fetch<Obj>(g) == 5); }
#endif
#if defined BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
// fallback_to
template <class T> static void fall(fut<T> f, int how, int lv) { T v(K<T>::mk(9)); fut<T> g(f.fallback_to(boost::move(v))); vs_assert(!f.valid() && g.valid()); int r = fetch<T>(g); vs_assert_msg(r == (how ? 9 : 5), "fallback_to gave %d", r); }
template <class T> static void fallc(fut<T> f, int how) { T v(K<T>::mk(9)); fut<T> g(f.fallback_to(v)); vs_assert_msg(K<T>::rd(v) == 9, "the fallback was moved from"); int r = fetch<T>(g); vs_assert_msg(r == (how ? 9 : 5), "fallback_to gave %d", r); }
template <class T> static void fallback1() { { promise<T> p; int how = vs_choose(3); fut<T> f(p.get_future()); vs_t s([&] { switch (how) { case 0: K<T>::setr(p, 5); break; case 1: p.set_exception(Ex(5)); break; case 2: { promise<T> q(boost::move(p)); } } }); fall<T>(boost::move(f), how, 0); s.join(); } clean(); }
SCENARIO(fallback_obj, vs_opt().bound(2, 3).leak()) { fallback1<Obj>(); }
SCENARIO(fallback_mo, vs_opt().bound(1, 2).leak()) { fallback1<MO>(); }
SCENARIO(fallback_const, vs_opt().bound(2, 3).leak()) { { promise<Obj> p; int how = vs_choose(3); fut<Obj> f(p.get_future()); vs_t s([&] { switch (how) { case 0: p.set_value(Obj(5)); break; case 1: p.set_exception(Ex(5)); break; case 2: { promise<Obj> q(boost::move(p)); } } }); fallc<Obj>(boost::move(f), how); s.join(); } clean(); }
SCENARIO(fallback_kinds, vs_opt().bound(2, 3).leak()) { { int how = vs_choose(2), k = vs_choose(4), c = vs_choose(2); auto fn = [how] { vs_add(RUNS, 1); if (how) throw Ex(5); return Obj(5); }; fut<Obj> f; if (k == 0) f = async(launch::async, fn); if (k == 1) f = async(launch::deferred, fn); if (k == 2) { packaged_task<Obj()> t(fn); f = t.get_future(); t(); } if (k == 3) f = boost::make_ready_future(1).then(launch::sync, [fn](fut<int>) { return fn(); }); if (c) fallc<Obj>(boost::move(f), how); else fall<Obj>(boost::move(f), how, 0); vs_assert(vs_get(RUNS) == 1); vs_quiesce(); } clean(); }
#if defined BOOST_THREAD_PROVIDES_EXECUTORS
SCENARIO(fallback_executor, vs_opt().bound(1, 2).leak()) { { int how = vs_choose(2); boost::executors::basic_thread_pool ex(1); fall<Obj>(async(ex, [how] { if (how) throw Ex(5); return Obj(5); }), how, 0); } clean(); }
#endif
#endif
// ready-made futures
SCENARIO(ready_made, vs_opt().bound(0, 0).leak()) { {
    { Obj o(5); fut<Obj> f(boost::make_ready_future(o)); vs_assert(f.valid() && f.is_ready() && f.has_value() && o.v == 5 && fetch<Obj>(f) == 5); }
    { Obj o(5); fut<Obj> f(boost::make_ready_future<Obj>(o)); vs_assert(f.is_ready() && o.v == 5 && fetch<Obj>(f) == 5); }
    { Obj o(5); fut<Obj> f(boost::make_ready_future(boost::move(o))); vs_assert(f.is_ready() && fetch<Obj>(f) == 5); }
    { fut<Obj> f(boost::make_ready_future<Obj>(Obj(5))); vs_assert(f.is_ready() && fetch<Obj>(f) == 5); }
    { fut<Obj> f(boost::make_ready_future<Obj>(5)); vs_assert(f.is_ready() && fetch<Obj>(f) == 5); }
    { fut<MO> f(boost::make_ready_future(MO(new int(5)))); vs_assert(f.is_ready() && fetch<MO>(f) == 5); }
    { fut<int&> f(boost::make_ready_future<int&>(cells[5])); vs_assert(f.is_ready() && fetch<int&>(f) == 5); }
    { fut<int&> f(boost::make_ready_future(boost::ref(cells[5]))); vs_assert(f.is_ready() && fetch<int&>(f) == 5); }
    { fut<void> f(boost::make_ready_future()); vs_assert(f.valid() && f.is_ready() && fetch<void>(f) == 0); }
    { fut<Obj> f(boost::make_future(Obj(5))); vs_assert(f.is_ready() && fetch<Obj>(f) == 5); }
    { sfut<Obj> f(boost::make_shared_future(Obj(5))); vs_assert(f.is_ready() && fetch<Obj>(f) == 5); }
    { sfut<void> f(boost::make_shared_future()); vs_assert(f.is_ready()); int r = fetch<void>(f); vs_assert_msg(r == 0, "make_shared_future() gave %d", r); }
    { fut<int> f(boost::make_ready_no_decay_future<int>(5)); vs_assert(f.is_ready() && fetch<int>(f) == 5); }
    { fut<Obj> f(boost::make_exceptional_future<Obj>(Ex(5))); vs_assert(f.valid() && f.is_ready() && f.has_exception() && fetch<Obj>(f) == EXC + 5); }
    { fut<Obj> f(boost::make_exceptional_future<Obj>(boost::copy_exception(Ex(5)))); vs_assert(f.is_ready() && fetch<Obj>(f) == EXC + 5); }
    { fut<void> f(boost::make_exceptional_future<void>(Ex(5))); vs_assert(f.is_ready() && fetch<void>(f) == EXC + 5); }
    { fut<int&> f(boost::make_exceptional_future<int&>(Ex(5))); vs_assert(f.is_ready() && fetch<int&>(f) == EXC + 5); }
    { fut<Obj> f; try { throw Ex(6); } catch (...) { f = boost::make_exceptional_future<Obj>(); } vs_assert(f.is_ready() && fetch<Obj>(f) == EXC + 6); }
    { fut<Obj> f(boost::make_ready_future<Obj>(boost::copy_exception(Ex(5)))); vs_assert(f.is_ready() && fetch<Obj>(f) == EXC + 5); }
    } clean(); }
// futures made from an exception
template <class T> static void exceptional() { { boost::exception_ptr e(boost::copy_exception(Ex(5))); int k = vs_choose(3); fut<T> f(k == 0 ? fut<T>(boost::exceptional_ptr(e)) : k == 1 ? fut<T>(boost::make_exceptional(Ex(5))) : fut<T>(boost::make_exceptional(e))); vs_assert(f.valid() && f.is_ready() && f.has_exception() && !f.has_value()); f.wait(); vs_assert(f.wait_for(ms(0)) == future_status::ready); if (vs_choose(2)) { sfut<T> s(f.share()), c(s); vs_t a([&] { vs_assert(fetch<T>(c) == EXC + 5); }); vs_assert(fetch<T>(s) == EXC + 5 && fetch<T>(s) == EXC + 5); a.join(); } else vs_assert(fetch<T>(f) == EXC + 5); sfut<T> x(boost::make_exceptional(Ex(6))); vs_assert(x.is_ready() && fetch<T>(x) == EXC + 6); } clean(); }
SCENARIO(exceptional_obj, vs_opt().bound(2, 3).leak()) { exceptional<Obj>(); }
SCENARIO(exceptional_mo, vs_opt().bound(0, 0).leak()) { { fut<MO> f(boost::make_exceptional(Ex(5))); vs_assert(f.is_ready() && f.has_exception() && fetch<MO>(f) == EXC + 5); } clean(); }
SCENARIO(exceptional_ref, vs_opt().bound(1, 2).leak()) { exceptional<int&>(); }
SCENARIO(exceptional_void, vs_opt().bound(1, 2).leak()) { exceptional<void>(); }
#if defined BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
SCENARIO(exceptional_then, vs_opt().bound(2, 3).leak()) { { fut<Obj> f(boost::make_exceptional(Ex(5))); int k = vs_choose(2); fut<int> g(f.then(k ? launch::async : launch::sync, [](fut<Obj> x) { vs_assert(x.is_ready() && x.has_exception()); return fetch<Obj>(x); })); vs_assert(fetch<int>(g) == EXC + 5); vs_quiesce(); } clean(); }
#endif
