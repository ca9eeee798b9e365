// Q03: closing
#include "qu.hpp"
using boost::thread;
typedef bc::steady_clock SC;
// priority and timed queues behind the same face; every element of the timed queue is due at once
template <class T_> struct Prio { typedef T_ T; enum { cap = 0 }; boost::sync_priority_queue<T> q;
    int push(int f, int v) { T x = E<T>::mk(v); switch (f) { case 0: case 3: TRYQ(q.push(boost::move(x))) case 1: case 2: return st(q.try_push(boost::move(x))); case 4: case 7: TRYQ(q.push(x)) default: return st(q.try_push(x)); } }
    int pull(int f, int& v) { T x = E<T>::mk(-5); int r = pull_(f, x); if (f >= 5 && r >= TIMEOUT && vs_forced_tick()) vs_cut(); if (r == OKQ) v = E<T>::rd(x); return r; }
    int pull_(int f, T& x) { switch (f) { case PULL: TRYQ(q.pull(x)) case PULLV: TRYQ(x = q.pull()) case TRYP: return st(q.try_pull(x)); case NBP: return st(q.nonblocking_pull(x)); case WAITP: return st(q.wait_pull(x)); case 5: return st(q.pull_until(in_ms(FAR_), x)); default: return st(q.pull_for(ms(FAR_), x)); } }
    void close() { q.close(); } bool closed() { return q.closed(); } bool empty() { return q.empty(); } bool full() { return q.full(); } size_t size() { return q.size(); } };
template <class T_> struct Timed { typedef T_ T; enum { cap = 0 }; boost::sync_timed_queue<T> q; SC::time_point t0; Timed() : t0(SC::now()) {}
    int push(int f, int v) { T x = E<T>::mk(v); switch (f) { case 0: TRYQ(q.push(boost::move(x), t0)) case 1: return st(q.try_push(boost::move(x), t0)); case 2: return st(q.try_push(boost::move(x), ms(0))); case 3: TRYQ(q.push(boost::move(x), ms(0))) case 4: TRYQ(q.push(x, t0)) case 5: return st(q.try_push(x, t0)); case 6: return st(q.try_push(x, ms(0))); default: TRYQ(q.push(x, ms(0))) } }
    int pull(int f, int& v) { T x = E<T>::mk(-5); int r = pull_(f, x); if (f >= 5 && r >= TIMEOUT && vs_forced_tick()) vs_cut(); if (r == OKQ) v = E<T>::rd(x); return r; }
    int pull_(int f, T& x) { switch (f) { case PULL: TRYQ(q.pull(x)) case PULLV: TRYQ(x = q.pull()) case TRYP: return st(q.try_pull(x)); case NBP: return st(q.nonblocking_pull(x)); case WAITP: return st(q.wait_pull(x)); case 5: return st(q.pull_until(in_ms(FAR_), x)); default: return st(q.pull_for(ms(FAR_), x)); } }
    void close() { q.close(); } bool closed() { return q.closed(); } bool empty() { return q.empty(); } bool full() { return q.full(); } size_t size() { return q.size(); } };
template <class Q> struct NP { enum { n = 5 }; }; template <class T> struct NP<Prio<T> > { enum { n = 7 }; }; template <class T> struct NP<Timed<T> > { enum { n = 7 }; };
static bool blocksp(int f) { return f != TRYP && f != NBP; }
template <class Q> static int pickpull() { int f = vs_choose(NP<Q>::n); if (!blocksp(f)) vs_cut(); return f; }
// blocked consumers
template <class Q> static void consumers(int n) { { Q q; int f[2] = {pickpull<Q>(), WAITP}; vs_t a([&] { int v; int r = q.pull(f[0], v); vs_assert_msg(r == CLOSED, "pull form %d gave %d", f[0], r); }), b([&] { if (n > 1) { int v; int r = q.pull(f[1], v); vs_assert_msg(r == CLOSED, "pull form %d gave %d", f[1], r); } }); q.close(); a.join(); b.join(); vs_assert(q.closed() && q.empty()); q.close(); vs_assert(q.closed()); } }
// an element, two consumers, close: the element reaches one of them, whatever the order
template <class Q> static void drain() { { Q q; int f[2] = {pickpull<Q>(), PULL}; vs_t p([&] { vs_assert(q.push(vs_choose(2) * 3, 7) == OKQ); q.close(); }); auto c = [&](int i) { int v = 0, r = q.pull(f[i], v); if (r == OKQ) { vs_assert(v == 7); vs_add(9, 1); } else vs_assert_msg(r == CLOSED, "pull gave %d", r); }; vs_t a([&] { c(0); }), b([&] { c(1); }); p.join(); a.join(); b.join(); vs_assert_msg(vs_get(9) == 1, "the element was pulled %ld times", vs_get(9)); } }
// pushes racing with close: each is delivered if and only if it reported success
template <class Q> static void racing(int n) { { Q q; int r[2] = {CLOSED, CLOSED}, f[2] = {vs_choose(8), 0}; vs_t a([&] { r[0] = q.push(f[0], 1); vs_assert_msg(r[0] == OKQ || r[0] == CLOSED || (r[0] == BUSY && (f[0] & 3) == NB), "push gave %d", r[0]); }), b([&] { if (n > 1) { r[1] = q.push(f[1], 2); vs_assert(r[1] == OKQ || r[1] == CLOSED); } }); q.close(); vs_assert(q.closed()); int v, s = 0, k = 0; int lf = q.push(vs_choose(2), 9); vs_assert_msg(lf == CLOSED, "push after close gave %d", lf); a.join(); b.join(); while ((k = q.pull(TRYP, v)) == OKQ) { vs_assert_msg((v == 1 || v == 2) && !(s >> v & 1), "pulled %d", v); s |= 1 << v; } vs_assert_msg(k == CLOSED, "pull gave %d", k); for (int i = 0; i < n; i++) vs_assert_msg((r[i] == OKQ) == (s >> (i + 1) & 1), "push gave %d, delivered %d", r[i], s >> (i + 1) & 1); } }
// all three at once
// every form, before and after
template <class Q> static void seq() { { Q q; int n = vs_choose(3), v; for (int i = 0; i < n; i++) vs_assert(q.push(PUSH, i + 1) == OKQ); vs_assert(!q.closed()); q.close(); for (int f = 0; f < 8; f++) { int r = q.push(f, 9); vs_assert_msg(r == CLOSED, "push form %d after close gave %d", f, r); } vs_assert((int)q.size() == n); int f = vs_choose(NP<Q>::n); for (int i = 0; i < n; i++) { int r = q.pull(f, v); vs_assert_msg(r == OKQ, "pull form %d gave %d", f, r); } for (int g = 0; g < NP<Q>::n; g++) { int r = q.pull(g, v); vs_assert_msg(r == CLOSED, "pull form %d of an empty closed queue gave %d", g, r); } } }
#define ALL(N, Q, B, BT) SCENARIO(consumers1_##N, vs_opt().bound(B, BT).leak()) { consumers<Q >(1); } SCENARIO(consumers2_##N, vs_opt().bound(B - 1, BT - 1).leak().secs(40, 300)) { consumers<Q >(2); } SCENARIO(drain_##N, vs_opt().bound(B, BT).leak().secs(40, 300)) { drain<Q >(); } SCENARIO(racing1_##N, vs_opt().bound(B, BT).leak().secs(40, 300)) { racing<Q >(1); } SCENARIO(racing2_##N, vs_opt().bound(B - 1, BT - 1).leak().secs(40, 300)) { racing<Q >(2); } SCENARIO(threesome_##N, vs_opt().bound(B, BT).leak().secs(40, 300)) { threesome_<Q >(); } SCENARIO(seq_##N, vs_opt().bound(0, 0).leak()) { seq<Q >(); }
// as threesome, but a push may also fail as busy
template <class Q> static void threesome_() { { Q q; int f = vs_choose(8), cf = pickpull<Q>(), r = -1, v = 0, g = -1; vs_t a([&] { r = q.push(f, 1); }), b([&] { g = q.pull(cf, v); vs_assert_msg((g == OKQ && v == 1) || g == CLOSED, "pull gave %d", g); }); q.close(); a.join(); b.join(); vs_assert_msg(r == OKQ || r == CLOSED || (r == BUSY && (f & 3) == NB), "push gave %d", r); vs_assert_msg((r == OKQ) == (g == OKQ), "push gave %d, pull %d", r, g); vs_assert(q.empty()); } }
ALL(queue, Sync<Pay>, 3, 4)
ALL(deque, Dq<Pay>, 3, 4)
typedef Bnd<Pay, 1> B1; typedef Bnd<Pay, 2> B2;
ALL(bounded, B2, 3, 4)
ALL(priority, Prio<int>, 3, 4)
ALL(timed, Timed<Pay>, 3, 4)
ALL(adaptor, Ad<Pay>, 2, 3)
ALL(dadaptor, AdD<Pay>, 2, 3)
ALL(view, Vw<Pay>, 2, 3)
typedef Old<Pay, 2> O2;
// blocked producers: capacity 1, full
template <class Q> static void producers(int n) { { Q q; vs_assert(q.push(PUSH, 1) == OKQ); int f[2] = {vs_choose(4), vs_choose(2) * 4}; static const int pf[] = {PUSH, WAIT, PUSH + 4, WAIT + 4}; vs_t a([&] { int r = q.push(pf[f[0]], 2); vs_assert_msg(r == CLOSED, "push form %d gave %d", pf[f[0]], r); }), b([&] { if (n > 1) { int r = q.push(f[1], 3); vs_assert(r == CLOSED); } }); q.close(); a.join(); b.join(); int v; vs_assert(q.pull(PULL, v) == OKQ && v == 1); vs_assert(q.pull(PULL, v) == CLOSED); } }
SCENARIO(producers1, vs_opt().bound(3, 4).leak()) { producers<B1>(1); }
SCENARIO(producers2, vs_opt().bound(2, 3).leak()) { producers<B1>(2); }
SCENARIO(producers_old, vs_opt().bound(2, 3).leak()) { producers<Old<Pay, 1> >(1); }
// a blocked producer, a consumer making room and close
SCENARIO(room_and_close, vs_opt().bound(3, 4).leak()) { { B1 q; q.push(PUSH, 1); int r = -1, f = vs_choose(2) * 3; vs_t a([&] { r = q.push(f, 2); }), b([&] { int v; vs_assert(q.pull(PULL, v) == OKQ && v == 1); }); q.close(); a.join(); b.join(); int v = 0, g = q.pull(PULL, v); vs_assert_msg(r == OKQ ? g == OKQ && v == 2 : r == CLOSED && g == CLOSED, "push gave %d, pull %d", r, g); } }
// both kinds of waiter cannot be blocked at once, but a closer must wake whichever there is, also after much traffic
SCENARIO(traffic, vs_opt().bound(2, 3).leak().secs(40, 300)) { { B1 q; vs_t p([&] { for (int i = 0; i < 3; i++) { int r = q.push(PUSH, i); if (r == CLOSED) return; vs_add(1, 1); } }), c([&] { int v; for (int i = 0; i < 2; i++) { int r = q.pull(WAITP, v); if (r == CLOSED) return; vs_assert(r == OKQ && v == i); vs_add(2, 1); } }); q.close(); p.join(); c.join(); int v; while (q.pull(PULL, v) == OKQ) vs_add(2, 1); vs_assert_msg(vs_get(1) == vs_get(2), "%ld in, %ld out", vs_get(1), vs_get(2)); } }
// elements left in a closed, destroyed queue are destroyed
SCENARIO(left, vs_opt().bound(0, 0).leak()) { int k = vs_choose(5), v; { Sync<Pay> a; Dq<Pay> b; B2 c; Prio<int> d; Timed<Pay> e; a.push(0, 1); a.push(0, 2); b.push(0, 1); b.push(0, 2); c.push(0, 1); c.push(0, 2); d.push(0, 1); e.push(0, 1); e.push(0, 2); if (k == 0) a.pull(0, v); if (k == 1) b.pull(0, v); if (k == 2) c.pull(0, v); if (k == 3) { a.close(); b.close(); c.close(); d.close(); e.close(); } } }
// elements not yet due are not lost by closing: they come out once they are due
SCENARIO(timed_later, vs_opt().bound(0, 0).leak()) { boost::sync_timed_queue<Pay> q; q.push(Pay(3), ms(DL)); q.close(); Pay x; int r = st(q.try_pull(x)); if (!vs_forced_tick()) vs_assert_msg(r == CLOSED, "gave %d", r); vs_advance(DL * MS); vs_assert(q.size() == 1); r = st(q.try_pull(x)); vs_assert_msg(r == OKQ && *x.p == 3, "gave %d", r); r = st(q.try_pull(x)); vs_assert(r == CLOSED); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
SCENARIO(interrupted, vs_opt().bound(3, 4).leak()) { { B1 q; int f = vs_choose(2), v; if (f) q.push(PUSH, 1); thread a([&] { try { int v; int r = f ? q.push(PUSH, 2) : q.pull(PULL, v); vs_assert(r == CLOSED); } catch (boost::thread_interrupted&) {} }); vs_t b([&] { int v; int r = f ? q.push(WAIT, 2) : q.pull(WAITP, v); vs_assert(r == CLOSED); }); vs_t c([&] { q.close(); }); a.interrupt(); a.join(); b.join(); c.join(); if (f) vs_assert(q.pull(PULL, v) == OKQ && v == 1); } }
#endif
