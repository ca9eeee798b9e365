// F09: wait_for_any, wait_for_all
#include "fut.hpp"
#include <vector>
using boost::async; using boost::launch; using boost::future_status; using boost::thread;
enum { SET0 = 1, GO = 5, DONE = 6 };
static void clean() { vs_quiesce(); vs_assert_msg(!vs_get(LIVE), "%ld results left alive", vs_get(LIVE)); }
template <class T> static void put(promise<T>& p, int i, int how) { vs_set(SET0 + i, 1); switch (how) { case 0: K<T>::setr(p, 10 + i); break; case 1: p.set_exception(Ex(10 + i)); break; case 2: { promise<T> q(boost::move(p)); } } }
template <class T> static int want(int i, int how) { return how == 0 ? val<T>(10 + i) : how == 1 ? EXC + 10 + i : (int)BROKEN; }
// n futures, a setter each, in every order; ONLY: just one is set before the call returns
template <class F, class T> static int any(std::vector<F>& f, int form) { int n = f.size(); if (form == 0) return boost::wait_for_any(f.begin(), f.end()) - f.begin(); if (n == 1) { return boost::wait_for_any(f[0]); } if (n == 2) return boost::wait_for_any(f[0], f[1]); return boost::wait_for_any(f[0], f[1], f[2]); }
template <class F, class T> static void any1(int n, bool hows) { { promise<T> p[3]; std::vector<F> f; int how[3] = {0, 0, 0}; for (int i = 0; i < n; i++) { f.push_back(F(p[i].get_future())); if (hows) how[i] = vs_choose(3); } int form = vs_choose(2), only = vs_choose(n); vs_t s([&] { put(p[only], only, how[only]); vs_await(GO, 1); for (int i = 0; i < n; i++) if (i != only) put(p[i], i, how[i]); });
    int r = any<F, T>(f, form); vs_assert_msg(r == only, "wait_for_any gave %d, %d was ready", r, only); vs_assert(f[only].is_ready()); for (int i = 0; i < n; i++) vs_assert(f[i].valid() && (i == only || !f[i].is_ready())); vs_set(GO, 1); for (int i = 0; i < n; i++) { int g = fetch<T>(f[i]); vs_assert_msg(g == want<T>(i, how[i]), "future %d gave %d after wait_for_any", i, g); } s.join(); } clean(); }
SCENARIO(any_obj2, vs_opt().bound(2, 3).leak()) { any1<fut<Obj>, Obj>(2, true); }
SCENARIO(any_obj3, vs_opt().bound(2, 3).leak().secs(20, 240)) { any1<fut<Obj>, Obj>(3, false); }
SCENARIO(any_shared, vs_opt().bound(2, 3).leak()) { any1<sfut<Obj>, Obj>(2, false); }
SCENARIO(any_void, vs_opt().bound(2, 3).leak()) { any1<fut<void>, void>(2, false); }
SCENARIO(any_ref, vs_opt().bound(1, 2).leak()) { any1<fut<int&>, int&>(2, false); }
SCENARIO(any_one, vs_opt().bound(2, 3).leak()) { { promise<Obj> p; std::vector<fut<Obj> > f; f.push_back(p.get_future()); vs_t s([&] { put(p, 0, 0); }); vs_assert(boost::wait_for_any(f.begin(), f.end()) == f.begin() && f[0].is_ready()); s.join(); vs_assert(boost::wait_for_any(f.begin(), f.begin()) == f.begin()); } clean(); }
// concurrent setters
template <class F, class T> static void race(int n) { { promise<T> p[3]; std::vector<F> f; for (int i = 0; i < n; i++) f.push_back(F(p[i].get_future())); int form = vs_choose(2); vs_t a([&] { put(p[0], 0, 0); }), b([&] { put(p[1], 1, 1); }), c([&] { if (n == 3) put(p[2], 2, 0); }); int r = any<F, T>(f, form); vs_assert_msg(r >= 0 && r < n && vs_get(SET0 + r) && f[r].is_ready(), "wait_for_any gave %d, which is not ready", r); for (int i = 0; i < n; i++) vs_assert(fetch<T>(f[i]) == want<T>(i, i == 1)); a.join(); b.join(); c.join(); } clean(); }
SCENARIO(race2, vs_opt().bound(2, 3).leak()) { race<fut<Obj>, Obj>(2); }
SCENARIO(race3, vs_opt().bound(1, 2).leak().secs(20, 240)) { race<fut<Obj>, Obj>(3); }
SCENARIO(race2_shared, vs_opt().bound(1, 2).leak()) { race<sfut<Obj>, Obj>(2); }
// ready already; the first ready one is the one found
SCENARIO(ready, vs_opt().bound(1, 1).leak()) { { promise<Obj> p[3]; std::vector<fut<Obj> > f; for (int i = 0; i < 3; i++) f.push_back(p[i].get_future()); int m = 1 + vs_choose(7), form = vs_choose(2), first = -1; for (int i = 2; i >= 0; i--) if (m >> i & 1) { put(p[i], i, 0); first = i; } int r = any<fut<Obj>, Obj>(f, form); vs_assert_msg(r == first, "wait_for_any gave %d, expected %d", r, first); } clean(); }
// futures without a state do not count, and do not shift the others
SCENARIO(invalid, vs_opt().bound(1, 2).leak()) { { promise<Obj> p[3]; std::vector<fut<Obj> > f; int m = 1 + vs_choose(7), form = vs_choose(2), only = vs_choose(3); if (!(m >> only & 1)) vs_cut(); for (int i = 0; i < 3; i++) { fut<Obj> x(p[i].get_future()); f.push_back(m >> i & 1 ? boost::move(x) : fut<Obj>()); } vs_t s([&] { put(p[only], only, 0); }); int r = any<fut<Obj>, Obj>(f, form); vs_assert_msg(r == only, "wait_for_any gave %d, expected %d", r, only); s.join(); } clean(); }
// two waiters over the same futures, in opposite and equal orders
SCENARIO(overlap, vs_opt().bound(2, 3).leak().secs(20, 240)) { { promise<Obj> p[2]; sfut<Obj> f[2] = {sfut<Obj>(p[0].get_future()), sfut<Obj>(p[1].get_future())}; int only = vs_choose(2), form = vs_choose(2), opp = vs_choose(2); auto wait = [&](bool rev) { std::vector<sfut<Obj> > v; v.push_back(f[rev]); v.push_back(f[!rev]); int r = any<sfut<Obj>, Obj>(v, form); vs_assert_msg((r ^ rev) == only, "wait_for_any gave %d", r); }; vs_t a([&] { wait(false); }), b([&] { wait(opp); }); put(p[only], only, 0); a.join(); b.join(); put(p[!only], !only, 0); vs_assert(fetch<Obj>(f[0]) == 10 && fetch<Obj>(f[1]) == 11); } clean(); }
// the same state several times
SCENARIO(same_twice, vs_opt().bound(1, 2).leak()) { { promise<Obj> p, q; sfut<Obj> f(p.get_future()), g(q.get_future()); std::vector<sfut<Obj> > v; int k = vs_choose(3), form = vs_choose(2), o = vs_choose(2); v.push_back(f); if (k == 0) v.push_back(f); if (k == 1) { v.push_back(g); v.push_back(f); } if (k == 2) { v.push_back(f); v.push_back(g); } vs_t s([&] { if (o && k) put(q, 1, 0); else put(p, 0, 0); }); int r = any<sfut<Obj>, Obj>(v, form); vs_assert_msg(v[r].is_ready(), "wait_for_any gave %d, which is not ready", r); s.join(); } clean(); }
// a waiter for all, one for any, one for one of them
SCENARIO(mixed, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<Obj> p[2]; sfut<Obj> f[2] = {sfut<Obj>(p[0].get_future()), sfut<Obj>(p[1].get_future())}; vs_t a([&] { sfut<Obj> x(f[1]), y(f[0]); int r = boost::wait_for_any(x, y); vs_assert((r ? y : x).is_ready()); }), b([&] { sfut<Obj> x(f[0]), y(f[1]); boost::wait_for_all(x, y); vs_assert(vs_get(SET0) && vs_get(SET0 + 1) && x.is_ready() && y.is_ready()); }), s([&] { put(p[0], 0, 0); }); put(p[1], 1, 0); sfut<Obj> x(f[0]); vs_assert(fetch<Obj>(x) == 10); a.join(); b.join(); s.join(); } clean(); }
// the wait callbacks run and may produce the result
SCENARIO(callback, vs_opt().bound(1, 2).leak()) { { promise<Obj> p, q; int which = vs_choose(2), form = vs_choose(2); std::vector<fut<Obj> > f; f.push_back(p.get_future()); f.push_back(q.get_future()); (which ? q : p).set_wait_callback(+[](promise<Obj>& x) { x.set_value(Obj(5)); }); int r = any<fut<Obj>, Obj>(f, form); vs_assert_msg(r == which && fetch<Obj>(f[r]) == 5, "wait_for_any gave %d", r); } clean(); }
// repeated: each wait registers and unregisters
SCENARIO(again, vs_opt().bound(1, 2).leak().secs(20, 240)) { { promise<Obj> p[2]; fut<Obj> f[2] = {p[0].get_future(), p[1].get_future()}; vs_t a([&] { put(p[0], 0, 0); vs_await(GO, 1); put(p[1], 1, 0); }); int r = boost::wait_for_any(f[0], f[1]); vs_assert(r == 0); r = boost::wait_for_any(f[0], f[1]); vs_assert(r == 0); vs_set(GO, 1); r = boost::wait_for_any(f[1], f[0]); vs_assert((r == 0 && f[1].is_ready()) || r == 1); r = boost::wait_for_any(f[1]); vs_assert(r == 0 && f[1].is_ready()); a.join(); } clean(); }
// the promise, the futures and the waiter go away in any order
SCENARIO(lifetimes, vs_opt().bound(2, 3).leak()) { { promise<Obj>* p = new promise<Obj>, *q = new promise<Obj>; { fut<Obj> f(p->get_future()), g(q->get_future()); vs_t s([&] { put(*p, 0, 0); delete p; vs_await(DONE, 1); put(*q, 1, 0); delete q; }); int r = boost::wait_for_any(f, g); vs_assert(r == 0); vs_set(DONE, 1); { fut<Obj> t(boost::move(f)), u(boost::move(g)); } s.join(); } } clean(); }
// wait_for_all
template <class F, class T> static void all(std::vector<F>& f, int form) { int n = f.size(); if (form == 0) boost::wait_for_all(f.begin(), f.end()); else if (n == 1) boost::wait_for_all(f[0]); else if (n == 2) boost::wait_for_all(f[0], f[1]); else boost::wait_for_all(f[0], f[1], f[2]); }
template <class F, class T> static void all1(int n) { { promise<T> p[3]; std::vector<F> f; int how[3] = {0, 0, 0}; for (int i = 0; i < n; i++) { f.push_back(F(p[i].get_future())); how[i] = vs_choose(3); } int form = vs_choose(2); vs_t a([&] { put(p[0], 0, how[0]); }), b([&] { if (n > 1) put(p[1], 1, how[1]); }), c([&] { if (n > 2) put(p[2], 2, how[2]); }); all<F, T>(f, form); for (int i = 0; i < n; i++) vs_assert_msg(vs_get(SET0 + i) && f[i].is_ready() && f[i].valid(), "wait_for_all returned, %d is not ready", i); for (int i = 0; i < n; i++) vs_assert(fetch<T>(f[i]) == want<T>(i, how[i])); a.join(); b.join(); c.join(); } clean(); }
SCENARIO(all_1, vs_opt().bound(2, 3).leak()) { all1<fut<Obj>, Obj>(1); }
SCENARIO(all_2, vs_opt().bound(2, 3).leak().secs(20, 240)) { all1<fut<Obj>, Obj>(2); }
SCENARIO(all_3, vs_opt().bound(0, 1).leak().secs(20, 240)) { all1<fut<Obj>, Obj>(3); }
SCENARIO(all_shared, vs_opt().bound(1, 2).leak()) { all1<sfut<Obj>, Obj>(2); }
SCENARIO(all_void, vs_opt().bound(1, 2).leak()) { all1<fut<void>, void>(2); }
SCENARIO(async_mix, vs_opt().bound(1, 2).leak().secs(20, 240)) { { int form = vs_choose(2), m = vs_choose(2); fut<Obj> f[2] = {async(launch::async, [] { vs_set(SET0, 1); return Obj(10); }), async(launch::async, [] { vs_set(SET0 + 1, 1); if (0) return Obj(0); throw Ex(11); return Obj(0); })}; if (m) { if (form) boost::wait_for_all(f[0], f[1]); else boost::wait_for_all(f, f + 2); vs_assert(f[0].is_ready() && f[1].is_ready()); } else { int r = form ? boost::wait_for_any(f[0], f[1]) : boost::wait_for_any(f, f + 2) - f; vs_assert(f[r].is_ready() && vs_get(SET0 + r)); } vs_assert(fetch<Obj>(f[0]) == 10 && fetch<Obj>(f[1]) == EXC + 11); vs_quiesce(); } clean(); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
// an interrupted wait leaves no trace
SCENARIO(interrupted, vs_opt().bound(2, 3).leak().secs(20, 240)) { { promise<Obj> p[2]; sfut<Obj> f[2] = {sfut<Obj>(p[0].get_future()), sfut<Obj>(p[1].get_future())}; int k = vs_choose(3), set = vs_choose(2); thread t([&] { int r = outcome([&]() -> int { std::vector<sfut<Obj> > v(f, f + 2); if (k == 0) return boost::wait_for_any(v.begin(), v.end()) - v.begin(); if (k == 1) return boost::wait_for_any(v[0], v[1]); boost::wait_for_all(v[0], v[1]); return 7; }); vs_assert_msg(r == INTR || (set && k < 2 && r == 0), "gave %d", r); }); vs_t s([&] { if (set) put(p[0], 0, 0); }); t.interrupt(); t.join(); s.join(); if (!set) put(p[0], 0, 0); put(p[1], 1, 0); vs_assert(boost::wait_for_any(f, f + 2) == f && fetch<Obj>(f[0]) == 10 && fetch<Obj>(f[1]) == 11); } clean(); }
#endif
