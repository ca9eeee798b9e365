// F08: when_all, when_any
#include "fut.hpp"
#include <vector>
#include <tuple>
using boost::async; using boost::launch; using boost::future_status; using boost::when_all; using boost::when_any; using boost::csbl::get;
enum { SET0 = 1, GO = 5, RAN0 = 6, ORDER = 9 };
static void clean() { vs_quiesce(); vs_assert_msg(!vs_get(LIVE), "%ld results left alive", vs_get(LIVE)); }
template <class T> static void put(promise<T>& p, int i, int how) { vs_set(SET0 + i, 1); switch (how) { case 0: K<T>::setr(p, 10 + i); break; case 1: p.set_exception(Ex(10 + i)); break; case 2: { promise<T> q(boost::move(p)); } } }
template <class T> static int want(int i, int how) { return how == 0 ? val<T>(10 + i) : how == 1 ? EXC + 10 + i : (int)BROKEN; }
template <class T> struct isf { enum { unique = 1 }; }; template <class T> struct isf<sfut<T> > { enum { unique = 0 }; };
template <class F, class T> static void check_ready(F& f, int i, int how) { vs_assert_msg(f.valid() && f.is_ready(), "input %d of when_all is not ready in its result", i); int r = fetch<T>(f); vs_assert_msg(r == want<T>(i, how), "input %d gave %d", i, r); }
template <class G> static void get_ready(G& g, int form) { vs_assert(g.valid()); if (form == 1) g.wait(); if (form == 2) { bool r = g.wait_for(ms(FAR_)) == future_status::ready; vs_assert_msg(r || vs_forced_tick(), "a timed wait missed the result"); } }
// all: one setter each
template <class F, class T> static void all_range(int n) { { promise<T> p[3]; std::vector<F> f; int how[3] = {0, 0, 0}; for (int i = 0; i < n; i++) { f.push_back(F(p[i].get_future())); how[i] = vs_choose(n < 3 ? 3 : 2); } int form = vs_choose(3), late = vs_choose(2); if (late) for (int i = 0; i < n; i++) put(p[i], i, how[i]); vs_t a([&] { if (!late) put(p[0], 0, how[0]); }), b([&] { if (!late && n > 1) put(p[1], 1, how[1]); }), c([&] { if (!late && n > 2) put(p[2], 2, how[2]); });
    fut<std::vector<F> > g(when_all(f.begin(), f.end())); for (int i = 0; i < n; i++) vs_assert_msg(f[i].valid() == !isf<F>::unique, "validity of the inputs after when_all"); if (g.is_ready()) for (int i = 0; i < n; i++) vs_assert_msg(vs_get(SET0 + i), "when_all is ready before input %d", i); get_ready(g, form); std::vector<F> v(g.get()); vs_assert((int)v.size() == n); for (int i = 0; i < n; i++) { vs_assert_msg(vs_get(SET0 + i), "when_all is ready before input %d", i); check_ready<F, T>(v[i], i, how[i]); } a.join(); b.join(); c.join(); } clean(); }
SCENARIO(all_range1, vs_opt().bound(2, 3).leak()) { all_range<fut<Obj>, Obj>(1); }
SCENARIO(all_range2, vs_opt().bound(2, 3).leak().secs(20, 240)) { all_range<fut<Obj>, Obj>(2); }
SCENARIO(all_range3, vs_opt().bound(0, 1).leak().secs(20, 240)) { all_range<fut<int>, int>(3); }
SCENARIO(all_range_shared, vs_opt().bound(1, 2).leak().secs(20, 240)) { all_range<sfut<Obj>, Obj>(2); }
SCENARIO(all_range_void, vs_opt().bound(1, 2).leak().secs(20, 240)) { all_range<fut<void>, void>(2); }
SCENARIO(all_tuple, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<Obj> p; promise<int> q; promise<void> r; fut<Obj> f(p.get_future()); sfut<int> s(q.get_future()); fut<void> h(r.get_future()); int how[3] = {vs_choose(2), vs_choose(2), vs_choose(2)}, form = vs_choose(3); vs_t a([&] { put(p, 0, how[0]); }), b([&] { put(q, 1, how[1]); }), c([&] { put(r, 2, how[2]); }); auto g(when_all(boost::move(f), s, boost::move(h))); vs_assert(!f.valid() && s.valid() && !h.valid()); get_ready(g, form); auto v(g.get()); for (int i = 0; i < 3; i++) vs_assert_msg(vs_get(SET0 + i), "when_all is ready before input %d", i); check_ready<fut<Obj>, Obj>(get<0>(v), 0, how[0]); check_ready<sfut<int>, int>(get<1>(v), 1, how[1]); check_ready<fut<void>, void>(get<2>(v), 2, how[2]); a.join(); b.join(); c.join(); } clean(); }
SCENARIO(all_not_early, vs_opt().bound(2, 3).leak()) { { promise<Obj> p[2]; int tup = vs_choose(2), last = vs_choose(2); fut<Obj> f[2] = {p[0].get_future(), p[1].get_future()}; std::vector<fut<Obj> > v; vs_t a([&] { put(p[!last], !last, 0); }); if (tup) { auto g(when_all(boost::move(f[0]), boost::move(f[1]))); a.join(); vs_quiesce(); vs_assert_msg(!g.is_ready() && g.wait_for(ms(1)) == future_status::timeout, "when_all is ready too early"); put(p[last], last, 1); auto v(g.get()); check_ready<fut<Obj>, Obj>(last ? get<1>(v) : get<0>(v), last, 1); check_ready<fut<Obj>, Obj>(last ? get<0>(v) : get<1>(v), !last, 0); } else { v.push_back(boost::move(f[0])); v.push_back(boost::move(f[1])); auto g(when_all(v.begin(), v.end())); a.join(); vs_quiesce(); vs_assert_msg(!g.is_ready() && g.wait_for(ms(1)) == future_status::timeout, "when_all is ready too early"); put(p[last], last, 1); std::vector<fut<Obj> > w(g.get()); check_ready<fut<Obj>, Obj>(w[last], last, 1); check_ready<fut<Obj>, Obj>(w[!last], !last, 0); } } clean(); }
// any: one setter sets its future; the others only afterwards
template <class F, class T> static void any_range(int n) { { promise<T> p[3]; std::vector<F> f; int only = vs_choose(n), how = vs_choose(3), form = vs_choose(3), late = vs_choose(2); for (int i = 0; i < n; i++) f.push_back(F(p[i].get_future())); auto first = [&] { put(p[only], only, how); }; if (late) first(); vs_t s([&] { if (!late) first(); vs_await(GO, 1); for (int i = 0; i < n; i++) if (i != only) put(p[i], i, 0); });
    fut<std::vector<F> > g(when_any(f.begin(), f.end())); for (int i = 0; i < n; i++) vs_assert_msg(f[i].valid() == !isf<F>::unique, "validity of the inputs after when_any"); get_ready(g, form); std::vector<F> v(g.get()); vs_assert((int)v.size() == n); vs_assert_msg(vs_get(SET0 + only), "when_any is ready before any input"); for (int i = 0; i < n; i++) vs_assert_msg(v[i].valid() && v[i].is_ready() == (i == only), "input %d in the result of when_any", i); vs_set(GO, 1); for (int i = 0; i < n; i++) { int r = fetch<T>(v[i]); vs_assert_msg(r == want<T>(i, i == only ? how : 0), "input %d gave %d", i, r); } s.join(); } clean(); }
SCENARIO(any_range1, vs_opt().bound(2, 3).leak()) { any_range<fut<Obj>, Obj>(1); }
SCENARIO(any_range2, vs_opt().bound(2, 3).leak().secs(20, 240)) { any_range<fut<Obj>, Obj>(2); }
SCENARIO(any_range3, vs_opt().bound(1, 2).leak().secs(20, 240)) { any_range<fut<int>, int>(3); }
SCENARIO(any_range_shared, vs_opt().bound(1, 2).leak().secs(20, 240)) { any_range<sfut<Obj>, Obj>(2); }
SCENARIO(any_range_void, vs_opt().bound(1, 2).leak()) { any_range<fut<void>, void>(2); }
SCENARIO(any_tuple, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<Obj> p; promise<int> q; promise<void> r; fut<Obj> f(p.get_future()); sfut<int> s(q.get_future()); fut<void> h(r.get_future()); int only = vs_choose(3), how = vs_choose(2), form = vs_choose(3); auto set = [&](int i, int o) { i == 0 ? put(p, 0, o) : i == 1 ? put(q, 1, o) : put(r, 2, o); }; vs_t a([&] { set(only, how); vs_await(GO, 1); for (int i = 0; i < 3; i++) if (i != only) set(i, 0); }); auto g(when_any(boost::move(f), s, boost::move(h))); vs_assert(!f.valid() && s.valid() && !h.valid()); get_ready(g, form); auto v(g.get()); vs_assert_msg(get<0>(v).is_ready() == (only == 0) && get<1>(v).is_ready() == (only == 1) && get<2>(v).is_ready() == (only == 2) && vs_get(SET0 + only), "the result of when_any"); vs_set(GO, 1); vs_assert(fetch<Obj>(get<0>(v)) == want<Obj>(0, only == 0 ? how : 0) && fetch<int>(get<1>(v)) == want<int>(1, only == 1 ? how : 0) && fetch<void>(get<2>(v)) == want<void>(2, only == 2 ? how : 0)); a.join(); } clean(); }
SCENARIO(any_race, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<Obj> p[2]; fut<Obj> f[2] = {p[0].get_future(), p[1].get_future()}; vs_t a([&] { put(p[0], 0, 0); }), b([&] { put(p[1], 1, 1); }); if (vs_choose(2)) { auto g(when_any(boost::move(f[0]), boost::move(f[1]))); auto v(g.get()); vs_assert_msg(get<0>(v).is_ready() || get<1>(v).is_ready(), "when_any is ready, no input is"); vs_assert(fetch<Obj>(get<0>(v)) == 10 && fetch<Obj>(get<1>(v)) == EXC + 11); } else { std::vector<fut<Obj> > w; w.push_back(boost::move(f[0])); w.push_back(boost::move(f[1])); auto h(when_any(w.begin(), w.end())); std::vector<fut<Obj> > v(h.get()); vs_assert_msg(v[0].is_ready() || v[1].is_ready(), "when_any is ready, no input is"); vs_assert(fetch<Obj>(v[0]) == 10 && fetch<Obj>(v[1]) == EXC + 11); } a.join(); b.join(); } clean(); }
// none
SCENARIO(none, vs_opt().bound(0, 0).leak()) { { std::vector<fut<Obj> > e; auto g(when_all(e.begin(), e.end())); vs_assert(g.is_ready() && g.get().empty()); auto h(when_any(e.begin(), e.end())); vs_assert(h.is_ready() && h.get().empty()); auto i(when_all()); vs_assert(i.valid() && i.is_ready()); i.get(); auto j(when_any()); vs_assert(j.valid() && j.is_ready()); j.get(); } clean(); }
// deferred functions: when_all runs them all before it returns; when_any takes the first that is ready or can be run, in order
static fut<int> kind(int k, int i, promise<int>& p) { if (k == 0) return p.get_future(); if (k == 1) { p.set_value(10 + i); return p.get_future(); } return async(launch::deferred, [i] { vs_add(RAN0 + i, 1); int me = vs_self(); vs_assert_msg(me == 0, "a deferred function did not run in the caller"); return 10 + i; }); }
template <class G> static void all_deferred(G mk) { { promise<int> p[3]; int k[3]; fut<int> f[3]; for (int i = 0; i < 3; i++) { k[i] = vs_choose(3); f[i] = kind(k[i], i, p[i]); } int pend = 0; for (int i = 0; i < 3; i++) pend += k[i] == 0; mk(f, [&](auto& g) { for (int i = 0; i < 3; i++) vs_assert_msg(vs_get(RAN0 + i) == (k[i] == 2), "deferred input %d ran %ld times before when_all returned", i, vs_get(RAN0 + i)); if (!pend) g.wait(); else { vs_quiesce(); vs_assert_msg(!g.is_ready(), "when_all is ready too early"); } for (int i = 0; i < 3; i++) if (k[i] == 0) p[i].set_value(10 + i); }, [&](fut<int>& x, int i) { vs_assert(x.is_ready() && fetch<int>(x) == 10 + i && vs_get(RAN0 + i) == (k[i] == 2)); }); } clean(); }
SCENARIO(all_deferred_tuple, vs_opt().bound(1, 1).leak()) { all_deferred([](fut<int>* f, auto mid, auto chk) { auto g(when_all(boost::move(f[0]), boost::move(f[1]), boost::move(f[2]))); mid(g); auto v(g.get()); chk(get<0>(v), 0); chk(get<1>(v), 1); chk(get<2>(v), 2); }); }
SCENARIO(all_deferred_range, vs_opt().bound(1, 1).leak()) { all_deferred([](fut<int>* f, auto mid, auto chk) { std::vector<fut<int> > w; for (int i = 0; i < 3; i++) w.push_back(boost::move(f[i])); auto g(when_all(w.begin(), w.end())); mid(g); std::vector<fut<int> > v(g.get()); for (int i = 0; i < 3; i++) chk(v[i], i); }); }
template <class G> static void any_deferred(G mk) { { promise<int> p[3]; int k[3], first = 3, w = -1; fut<int> f[3]; for (int i = 0; i < 3; i++) { k[i] = vs_choose(3); f[i] = kind(k[i], i, p[i]); } for (int i = 2; i >= 0; i--) if (k[i]) first = i; if (first == 3) vs_cut(); w = first; mk(f, [&](auto& g) { for (int i = 0; i < 3; i++) vs_assert_msg(vs_get(RAN0 + i) == (k[i] == 2 && i == w), "deferred input %d ran %ld times before when_any returned", i, vs_get(RAN0 + i)); g.wait(); }, [&](fut<int>& x, int i) { vs_assert_msg(x.is_ready() == (k[i] == 1 || (k[i] == 2 && i == w)), "input %d of when_any", i); if (k[i] == 0) p[i].set_value(10 + i); vs_assert(fetch<int>(x) == 10 + i && vs_get(RAN0 + i) == (k[i] == 2)); }); } clean(); }
SCENARIO(any_deferred_tuple, vs_opt().bound(1, 1).leak()) { any_deferred([](fut<int>* f, auto mid, auto chk) { auto g(when_any(boost::move(f[0]), boost::move(f[1]), boost::move(f[2]))); mid(g); auto v(g.get()); chk(get<0>(v), 0); chk(get<1>(v), 1); chk(get<2>(v), 2); }); }
SCENARIO(any_deferred_range, vs_opt().bound(1, 1).leak()) { any_deferred([](fut<int>* f, auto mid, auto chk) { std::vector<fut<int> > w; for (int i = 0; i < 3; i++) w.push_back(boost::move(f[i])); auto g(when_any(w.begin(), w.end())); mid(g); std::vector<fut<int> > v(g.get()); for (int i = 0; i < 3; i++) chk(v[i], i); }); }
// combinations
SCENARIO(nested, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<Obj> p[3]; fut<Obj> f[3] = {p[0].get_future(), p[1].get_future(), p[2].get_future()}; vs_t a([&] { put(p[0], 0, 0); }), b([&] { put(p[1], 1, 0); }); auto in(when_any(boost::move(f[0]), boost::move(f[1]))); auto g(when_all(boost::move(in), boost::move(f[2]))); put(p[2], 2, 0); auto v(g.get()); auto w(get<0>(v).get()); vs_assert(get<1>(v).is_ready() && (get<0>(w).is_ready() || get<1>(w).is_ready())); vs_assert(fetch<Obj>(get<0>(w)) == 10 && fetch<Obj>(get<1>(w)) == 11 && fetch<Obj>(get<1>(v)) == 12); a.join(); b.join(); } clean(); }
SCENARIO(then, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<int> p[2]; fut<int> f[2] = {p[0].get_future(), p[1].get_future()}; int pol = vs_choose(2); vs_t a([&] { put(p[0], 0, 0); }); fut<int> g(when_all(boost::move(f[0]), boost::move(f[1])).then(pol ? launch::sync : launch::deferred, [](fut<std::tuple<fut<int>, fut<int> > > x) { auto v(x.get()); return get<0>(v).get() + get<1>(v).get(); })); put(p[1], 1, 0); vs_assert(g.get() == 21); a.join(); vs_quiesce(); } clean(); }
// the result dropped
SCENARIO(dropped, vs_opt().bound(1, 2).leak()) { { promise<Obj> p[2]; fut<Obj> f[2] = {p[0].get_future(), p[1].get_future()}; int any = vs_choose(2); vs_t a([&] { put(p[0], 0, 0); }), b([&] { put(p[1], 1, 0); }); if (any) when_any(boost::move(f[0]), boost::move(f[1])); else when_all(boost::move(f[0]), boost::move(f[1])); a.join(); b.join(); } clean(); }
// no thread to be had
SCENARIO(nothread, vs_opt().bound(1, 1).leak().faults(VSF_CREATE)) { { vs_fault_window(0); promise<Obj> p[2]; fut<Obj> f[2] = {p[0].get_future(), p[1].get_future()}; int k = vs_choose(4); std::vector<fut<Obj> > w; if (k >= 2) for (int i = 0; i < 2; i++) w.push_back(boost::move(f[i])); vs_t s([&] { vs_await(GO, 1); put(p[0], 0, 0); put(p[1], 1, 0); }); vs_fault_window(VSF_CREATE);
    int r = outcome([&] { try { if (k == 0) { auto g(when_all(boost::move(f[0]), boost::move(f[1]))); vs_set(GO, 1); g.get(); } if (k == 1) { auto g(when_any(boost::move(f[0]), boost::move(f[1]))); vs_set(GO, 1); g.get(); } if (k == 2) { auto g(when_all(w.begin(), w.end())); vs_set(GO, 1); g.get(); } if (k == 3) { auto g(when_any(w.begin(), w.end())); vs_set(GO, 1); g.get(); } return 0; } catch (boost::thread_resource_error&) { return 77; } }); vs_assert_msg(r == 0 || r == 77, "gave %d", r); vs_set(GO, 1); s.join(); } clean(); }
