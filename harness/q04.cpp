// Q04: priority and timed queues
#include "qu.hpp"
#include <set>
#include <functional>
using boost::thread;
typedef bc::steady_clock SC; typedef bc::system_clock RC;
enum { DONE0 = 1, TAKEN0 = 20 };
// --- priority
template <class Q, class T> static int ppull(Q& q, int f, int& v) { T x = E<T>::mk(-5); int r; switch (f) { case 0: q.pull(x); r = OKQ; break; case 1: x = q.pull(); r = OKQ; break; case 2: r = st(q.try_pull(x)); break; case 3: r = st(q.nonblocking_pull(x)); break; case 4: r = st(q.wait_pull(x)); break; case 5: r = st(q.pull_until(in_ms(DL), x)); break; default: r = st(q.pull_for(ms(DL), x)); } v = E<T>::rd(x); return r; }
template <class Q, class T> static int ppush(Q& q, int f, int v) { T x = E<T>::mk(v); switch (f) { case 0: TRYQ(q.push(boost::move(x))) case 1: return st(q.try_push(boost::move(x))); case 2: TRYQ(q.push(x)) default: return st(q.try_push(x)); } }
template <class Q, class T, class C> static void phist(int depth) { { Q q; std::multiset<int, C> ref; bool closed = false; for (int k = 0; k < depth; k++) { int op = vs_choose(11), v = 0; if (op < 5) { int x = op; int r = ppush<Q, T>(q, k & 3, x); vs_assert_msg(r == (closed ? CLOSED : OKQ), "push gave %d", r); if (r == OKQ) ref.insert(x); } else if (op < 10) { int f = op == 5 ? 0 : op == 6 ? 1 : op == 7 ? 2 : op == 8 ? 3 : 4; if (ref.empty() && (f == 0 || f == 1 || (f == 4 && !closed))) vs_cut(); int r = ppull<Q, T>(q, f, v); int w = !ref.empty() ? OKQ : closed ? CLOSED : EMPTY; vs_assert_msg(r == w, "pull form %d gave %d, expected %d", f, r, w); if (r == OKQ) { vs_assert_msg(v == *ref.begin(), "pulled %d, expected %d", v, *ref.begin()); ref.erase(ref.begin()); } } else { if (closed) vs_cut(); q.close(); closed = true; } vs_assert(q.size() == ref.size() && q.empty() == ref.empty() && q.closed() == closed && !q.full()); }
    while (!ref.empty()) { int v; vs_assert((ppull<Q, T>(q, 2, v)) == OKQ); vs_assert_msg(v == *ref.begin(), "pulled %d, expected %d", v, *ref.begin()); ref.erase(ref.begin()); } } }
struct PLess { bool operator()(const Pay& a, const Pay& b) const { return *a.p < *b.p; } };
typedef boost::sync_priority_queue<int> PQ; typedef boost::sync_priority_queue<int, std::vector<int>, std::greater<int> > PQG; typedef boost::sync_priority_queue<Pay, std::deque<Pay>, PLess> PQP;
SCENARIO(phist_int, vs_opt().bound(0, 0).secs(40, 300)) { phist<PQ, int, std::greater<int> >(vs_thorough() ? 6 : 5); }
SCENARIO(phist_greater, vs_opt().bound(0, 0).secs(40, 300)) { phist<PQG, int, std::less<int> >(vs_thorough() ? 6 : 4); }
SCENARIO(phist_pay, vs_opt().bound(0, 0).leak().secs(40, 300)) { phist<PQP, Pay, std::greater<int> >(vs_thorough() ? 5 : 4); }
// a copy that throws leaves the queue as it was
struct FLess { bool operator()(const FragM& a, const FragM& b) const { return *a.p < *b.p; } }; typedef boost::sync_priority_queue<FragM, std::vector<FragM>, FLess> PQF;
SCENARIO(pthrows, vs_opt().bound(0, 0).leak().secs(40, 300)) { { PQF q; std::multiset<int> ref; int depth = vs_thorough() ? 4 : 3, thrown = 0; for (int k = 0; k < depth; k++) { int op = vs_choose(6), f = op - 4, x = vs_choose(op < 4 ? 3 : 2), v = 0, r = -1; if (ref.empty() && (op == 4)) vs_cut(); vs_set(5, op >= 4 || thrown == 2 ? 0 : vs_choose(4)); try { r = op < 4 ? ppush<PQF, FragM>(q, op, x) : ppull<PQF, FragM>(q, f * 2 + x, v); } catch (FragErr&) { thrown++; } vs_set(5, 0);
        if (r == OKQ && op < 4) ref.insert(x); else if (r == OKQ) { vs_assert_msg(!ref.empty() && v == *ref.rbegin(), "pulled %d", v); ref.erase(--ref.end()); } else vs_assert_msg(r == -1 || (r == EMPTY && ref.empty()), "gave %d", r); vs_assert_msg(q.size() == ref.size() && q.empty() == ref.empty(), "size is %d, expected %d", (int)q.size(), (int)ref.size()); }
    while (!ref.empty()) { int v = q.size() ? (ppull<PQF, FragM>(q, 2, v), v) : -1; vs_assert_msg(v == *ref.rbegin(), "pulled %d, expected %d", v, *ref.rbegin()); ref.erase(--ref.end()); } } }
// all orders of up to 6 elements, pulls interleaved
SCENARIO(porders, vs_opt().bound(0, 0).secs(40, 300)) { PQ q; std::multiset<int> ref; int n = vs_thorough() ? 7 : 6, used = 0; for (int i = 0; i < n; i++) { int x = vs_choose(n); if (used >> x & 1) vs_cut(); used |= 1 << x; q.push(x); ref.insert(x); if (i == n / 2) { int v = q.pull(); vs_assert(v == *ref.rbegin()); ref.erase(--ref.end()); } } while (!ref.empty()) { int v = q.pull(); vs_assert_msg(v == *ref.rbegin(), "pulled %d, expected %d", v, *ref.rbegin()); ref.erase(--ref.end()); } }
// concurrent: nothing higher that was there before the pull began may be left behind
template <class Q, class T> static void pconc(int np, int nc) { { Q q; int pf = vs_choose(4), cf = vs_choose(7); auto prod = [&](int lo, int n) { for (int i = 0; i < n; i++) { int x = lo == 1 ? 1 + 2 * i : 4 - 2 * i; vs_assert((ppush<Q, T>(q, pf, x)) == OKQ); vs_set(DONE0 + x, 1); } };
    auto cons = [&](int n) { for (int i = 0; i < n; i++) { int pend[6], v; for (int x = 0; x < 6; x++) pend[x] = vs_get(DONE0 + x) && !vs_get(TAKEN0 + x); int f0 = vs_forced_tick(), r = ppull<Q, T>(q, cf, v); (void)f0; int any = 0; for (int x = 0; x < 6; x++) any |= pend[x]; if (r != OKQ) { vs_assert_msg((cf == 2 || cf == 3) ? (r == EMPTY || (r == BUSY && cf == 3)) : cf >= 5 && r == TIMEOUT, "pull form %d gave %d", cf, r); if (r == EMPTY && nc == 1) vs_assert_msg(!any, "pull said empty"); if (r == TIMEOUT && nc == 1) vs_assert_msg(!any, "pull timed out with an element there"); return; } vs_assert_msg(v > 0 && v < 6 && vs_add(TAKEN0 + v, 1) == 1, "pulled %d", v); if (nc == 1) for (int x = v + 1; x < 6; x++) vs_assert_msg(!pend[x], "pulled %d, but %d was there", v, x); } };
    vs_t a([&] { prod(1, 2); }), b([&] { if (np > 1) prod(2, 2); }), c([&] { cons(nc > 1 ? np : 2); }), d([&] { if (nc > 1) cons(np); }); a.join(); b.join(); c.join(); d.join(); int v, last = 99; while (ppull<Q, T>(q, 2, v) == OKQ) { vs_assert(v < last); last = v; vs_assert(vs_add(TAKEN0 + v, 1) == 1); } for (int x = 1; x < 5; x++) vs_assert_msg(vs_get(TAKEN0 + x) == vs_get(DONE0 + x), "%d lost", x); } }
SCENARIO(pconc_1_1, vs_opt().bound(2, 3).secs(40, 300)) { pconc<PQ, int>(1, 1); }
SCENARIO(pconc_2_1, vs_opt().bound(1, 2).secs(40, 300)) { pconc<PQ, int>(2, 1); }
SCENARIO(pconc_2_2, vs_opt().bound(1, 2).secs(40, 300)) { pconc<PQP, Pay>(2, 2); }
SCENARIO(ptimeout, vs_opt().bound(1, 2)) { PQ q; int f = 5 + vs_choose(2), v, e = vs_choose(2); vs_t p([&] { if (e) q.push(3); }); long t0 = vs_now(); int r = ppull<PQ, int>(q, f, v); long t1 = vs_now(); p.join(); if (r == OKQ) vs_assert(e && v == 3); else { vs_assert_msg(r == TIMEOUT, "gave %d", r); vs_assert_msg(t1 - t0 >= DL * MS, "timed out after %ld", t1 - t0); if (!vs_forced_tick()) vs_assert(!e); } }
SCENARIO(pfar, vs_opt().bound(2, 3)) { PQ q; int f = vs_choose(3), x = 0; vs_t p([&] { q.push(3); }); int r = f == 0 ? st(q.pull_until(in_ms(FAR_), x)) : f == 1 ? st(q.pull_for(ms(FAR_), x)) : st(q.pull_until(sys_in_ms(FAR_), x)); if (!vs_forced_tick()) vs_assert_msg(r == OKQ && x == 3, "gave %d", r); p.join(); }
// --- timed
template <class C> struct TQ { typedef boost::sync_timed_queue<Pay, C> Q; Q q; typename C::time_point t0; TQ() : t0(C::now()) {}
    typename C::time_point due(int n) { return t0 + ms(n * DL); }
    // forms 0..7; element n is due at n*DL
    int push(int f, int n) { Pay x(n); ms d(bc::duration_cast<ms>(due(n) - C::now())); switch (f) { case 0: q.push(boost::move(x), due(n)); return OKQ; case 1: q.push(x, due(n)); return OKQ; case 2: return st(q.try_push(boost::move(x), due(n))); case 3: return st(q.try_push(x, due(n))); case 4: q.push(boost::move(x), d); return OKQ; case 5: q.push(x, d); return OKQ; case 6: return st(q.try_push(boost::move(x), d)); default: return st(q.try_push(x, d)); } }
    // forms: pull(x), x=pull(), wait, try, nonblocking, until, for
    int pull(int f, int& n, int lim) { Pay x(-5); int r; switch (f) { case 0: q.pull(x); r = OKQ; break; case 1: x = q.pull(); r = OKQ; break; case 2: r = st(q.wait_pull(x)); break; case 3: r = st(q.try_pull(x)); break; case 4: r = st(q.nonblocking_pull(x)); break; case 5: r = st(q.pull_until(due(lim), x)); break; default: r = st(q.pull_for(ms(lim * DL), x)); } n = x.p ? *x.p : -77; if (r == OKQ) { vs_assert_msg(C::now() >= due(n), "element %d came out early", n); vs_assert_msg(vs_add(TAKEN0 + n, 1) == 1, "element %d came out twice", n); } return r; } };
// one consumer, elements pushed before and while it sleeps: all come out, in order of time, each promptly
template <class C> static void tsleep(int nlate) { { TQ<C> t; int first = 1 + vs_choose(4), pf = vs_choose(8), f = vs_choose(3), second = nlate ? 1 + vs_choose(4) : 0; if (second == first) vs_cut(); t.push(pf, first); vs_t p([&] { if (nlate) { t.push(0, second); vs_set(DONE0, 1); } }); int n; int r = t.pull(f, n, 0); vs_assert(r == OKQ); if (!vs_forced_tick()) { int e = nlate && second < first ? second : first; vs_assert_msg(n == e, "element %d came out before %d", n, e); vs_assert_msg(vs_now() <= e * DL * MS + 1000, "element %d due at %d ms came out at %ld ns", n, e * DL, vs_now()); } if (nlate) { r = t.pull(f, n, 0); vs_assert(r == OKQ); int l = second > first ? second : first; if (!vs_forced_tick()) vs_assert_msg(n == l && vs_now() <= l * DL * MS + 1000, "element %d came out at %ld", n, vs_now()); } p.join(); vs_assert(t.q.empty()); } }
SCENARIO(tsleep_one, vs_opt().bound(2, 3).leak()) { tsleep<SC>(0); }
SCENARIO(tsleep_two, vs_opt().bound(2, 3).leak().secs(40, 300)) { tsleep<SC>(1); }
SCENARIO(tsleep_one_sys, vs_opt().bound(2, 3).leak()) { tsleep<RC>(0); }
SCENARIO(tsleep_two_sys, vs_opt().bound(1, 2).leak().secs(40, 300)) { tsleep<RC>(1); }
// the consumer waits on an empty queue first
template <class C> static void tempty() { { TQ<C> t; int f = vs_choose(3), n, pf = vs_choose(8), e = vs_choose(3); vs_t p([&] { t.push(pf, e); }); int r = t.pull(f, n, 0); vs_assert(r == OKQ && n == e); if (!vs_forced_tick()) vs_assert_msg(vs_now() <= e * DL * MS + 1000, "came out at %ld", vs_now()); p.join(); } }
SCENARIO(tempty_steady, vs_opt().bound(2, 3).leak()) { tempty<SC>(); }
SCENARIO(tempty_sys, vs_opt().bound(2, 3).leak()) { tempty<RC>(); }
// two consumers, two elements
template <class C> static void ttwo() { { TQ<C> t; int f = vs_choose(3), f2 = vs_choose(3), e1 = vs_choose(3), e2 = vs_choose(3); if (e1 == e2) vs_cut(); auto c = [&](int f) { int n; int r = t.pull(f, n, 0); vs_assert(r == OKQ); if (!vs_forced_tick()) vs_assert_msg(vs_now() <= n * DL * MS + 1000, "element %d came out at %ld", n, vs_now()); }; vs_t a([&] { c(f); }), b([&] { c(f2); }); t.push(0, e1); t.push(1, e2); a.join(); b.join(); vs_assert(t.q.empty() && vs_get(TAKEN0 + e1) && vs_get(TAKEN0 + e2)); } }
SCENARIO(ttwo_steady, vs_opt().bound(1, 2).leak().secs(40, 300)) { ttwo<SC>(); }
SCENARIO(ttwo_sys, vs_opt().bound(1, 2).leak().secs(40, 300)) { ttwo<RC>(); }
// limited waits
template <class C> static void tlimit() { { TQ<C> t; int f = 5 + vs_choose(2), lim = vs_choose(4), e = vs_choose(5), late = vs_choose(2), n; if (e < 4 && !late) t.push(0, e); vs_t p([&] { if (e < 4 && late) t.push(1, e); }); int r = t.pull(f, n, lim); long now = vs_now(); p.join();
    if (!vs_forced_tick()) { if (e < lim) vs_assert_msg(r == OKQ && n == e && now <= e * DL * MS + 1000, "gave %d at %ld", r, now); else if (e > lim) { vs_assert_msg(r == (e == 4 ? TIMEOUT : NOTREADY) || (late && lim == 0 && r == TIMEOUT), "gave %d", r); vs_assert_msg(now >= lim * DL * MS && now <= lim * DL * MS + 1000, "limit %d ms ended at %ld", lim * DL, now); } } if (r != OKQ) vs_assert_msg(now >= lim * DL * MS, "limit %d ms ended at %ld", lim * DL, now); } }
SCENARIO(tlimit_steady, vs_opt().bound(1, 2).leak().secs(40, 300)) { tlimit<SC>(); }
SCENARIO(tlimit_sys, vs_opt().bound(1, 2).leak().secs(40, 300)) { tlimit<RC>(); }
// histories with the clock advanced in between
template <class C> static void thist(int depth) { { TQ<C> t; std::multiset<int> ref; int now = 0, k; bool closed = false; for (k = 0; k < depth; k++) { int op = vs_choose(8), n; if (op < 4) { int e = now + op - 1; if (e < 0 || ref.count(e) || vs_get(TAKEN0 + e)) vs_cut(); if (closed) { int r = OKOF(t.push(k & 1 ? 2 : 6, e)); vs_assert(r == OK && st(t.q.try_push(Pay(1), ms(1))) == CLOSED); } else { int r = t.push((k + op) & 7, e); vs_assert(r == OKQ); ref.insert(e); } } else if (op < 6) { int f = op - 1, r = t.pull(f, n, 0); bool d = !ref.empty() && *ref.begin() <= now; int w = d ? OKQ : closed ? CLOSED : ref.empty() ? EMPTY : NOTREADY; vs_assert_msg(r == w, "pull gave %d, expected %d", r, w); if (d) { vs_assert_msg(n == *ref.begin(), "pulled %d, expected %d", n, *ref.begin()); ref.erase(ref.begin()); } } else if (op == 6) { vs_advance(DL * MS); now++; } else { if (closed) vs_cut(); t.q.close(); closed = true; } vs_assert(t.q.size() == ref.size() && t.q.empty() == ref.empty() && t.q.closed() == closed && !t.q.full()); } } }
SCENARIO(thist_steady, vs_opt().bound(0, 0).leak().secs(40, 300)) { thist<SC>(vs_thorough() ? 7 : 6); }
SCENARIO(thist_sys, vs_opt().bound(0, 0).leak().secs(40, 300)) { thist<RC>(vs_thorough() ? 7 : 6); }
// closing while a consumer sleeps until an element is due
template <class C> static void tclose() { { TQ<C> t; int f = vs_choose(7), n; if (f == 3 || f == 4) vs_cut(); t.push(0, 3); vs_t c([&] { t.q.close(); }); int r; try { r = t.pull(f, n, 5); } catch (boost::sync_queue_is_closed&) { r = CLOSED; } if (!vs_forced_tick()) vs_assert_msg(r == CLOSED && vs_now() < 1000, "gave %d at %ld", r, vs_now()); c.join(); } }
SCENARIO(tclose_steady, vs_opt().bound(2, 3).leak()) { tclose<SC>(); }
SCENARIO(tclose_sys, vs_opt().bound(2, 3).leak()) { tclose<RC>(); }
// spurious wakeups
SCENARIO(tspurious, vs_opt().bound(1, 2).spurious().leak()) { tsleep<SC>(1); }
SCENARIO(tspurious_sys, vs_opt().bound(1, 2).spurious().leak()) { tsleep<RC>(1); }
// the system clock is set while a consumer sleeps
template <int F> static void tjump() { { TQ<RC> t; int dir = vs_choose(2), n, e = vs_choose(2); if (e) t.push(0, 3); vs_t j([&] { vs_jump_realtime(dir ? 2 * DL * MS : -2 * DL * MS); }); int r = t.pull(F, n, F >= 5 ? 5 : 0); j.join(); if (r != OKQ) { vs_assert_msg(!e && r == TIMEOUT, "gave %d", r); } if (!vs_forced_tick()) vs_assert_msg(vs_now() <= 130 * MS, "ended at %ld", vs_now()); } }
SCENARIO(tjump_pull, vs_opt().bound(2, 3).leak()) { TQ<RC> t; int dir = vs_choose(2), n; t.push(0, 3); vs_t j([&] { vs_jump_realtime(dir ? 2 * DL * MS : -2 * DL * MS); }); int r = t.pull(vs_choose(3), n, 0); j.join(); vs_assert(r == OKQ && n == 3); if (!vs_forced_tick()) vs_assert_msg(vs_now() <= 130 * MS, "ended at %ld", vs_now()); }
SCENARIO(tjump_until, vs_opt().bound(2, 3).leak()) { tjump<5>(); }
SCENARIO(tjump_for, vs_opt().bound(2, 3).leak()) { tjump<6>(); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
SCENARIO(tinterrupt, vs_opt().bound(2, 3).leak()) { TQ<SC> t; int f = vs_choose(3); t.push(0, 2); thread a([&] { int n; try { t.pull(f, n, 0); vs_set(9, 1); } catch (boost::thread_interrupted&) {} }); a.interrupt(); a.join(); if (!vs_get(9)) { int n; vs_assert(t.pull(f, n, 0) == OKQ); } vs_assert(t.q.empty()); }
#endif
// both consumers sleep when the elements arrive one by one; whichever of them the first element awoke, the other one gets the second in time
template <class C> static void tboth() { { TQ<C> t; int f = vs_choose(3), f2 = vs_choose(2), e1 = 1 + vs_choose(2), e2 = 1 + vs_choose(3); if (e1 == e2) vs_cut(); auto c = [&](int f) { int n; int r = t.pull(f, n, 0); vs_assert(r == OKQ); if (!vs_forced_tick()) vs_assert_msg(vs_now() <= n * DL * MS + 1000, "element %d came out at %ld", n, vs_now()); }; vs_t a([&] { c(f); }), b([&] { c(f2); }); vs_quiesce(); t.push(0, e1); vs_quiesce(); t.push(1, e2); a.join(); b.join(); vs_assert(t.q.empty() && vs_get(TAKEN0 + e1) && vs_get(TAKEN0 + e2)); } }
SCENARIO(tboth_steady, vs_opt().bound(2, 3).leak().secs(40, 300)) { tboth<SC>(); }
SCENARIO(tboth_sys, vs_opt().bound(1, 2).leak().secs(40, 300)) { tboth<RC>(); }
// elements taken by others, or not yet due, do not prolong a limited wait
SCENARIO(pprolonged, vs_opt().bound(2, 3).spurious(1)) { PQ q; int f = vs_choose(3), k = vs_choose(2); halfway([&] { int x; int r = f == 0 ? st(q.pull_until(in_ms(DL), x)) : f == 1 ? st(q.pull_for(ms(DL), x)) : st(q.pull_until(sys_in_ms(DL), x)); vs_assert(r == OKQ || r == TIMEOUT); return r != OKQ; }, [&] { if (k) { int x; q.push(3); q.try_pull(x); } }); }
template <class C> static void tprolonged() { TQ<C> t; int f = 5 + vs_choose(2), k = vs_choose(3), i = 0; halfway([&] { Pay y(-5); int r = f == 5 ? st(t.q.pull_until(C::now() + ms(DL), y)) : st(t.q.pull_for(ms(DL), y)); vs_assert(r == OKQ || r == TIMEOUT || r == NOTREADY); return r != OKQ; }, [&] { Pay x; if (k == 1) t.push(0, 9 - i++); else if (k == 2) { t.q.push(Pay(3), t.due(0)); t.q.try_pull(x); } }); }
SCENARIO(tprolonged_steady, vs_opt().bound(1, 2).spurious(1)) { tprolonged<SC>(); }
SCENARIO(tprolonged_sys, vs_opt().bound(1, 2).spurious(1)) { tprolonged<RC>(); }
