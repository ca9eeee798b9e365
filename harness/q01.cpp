// Q01: sync_queue, sync_deque, their adaptors and views.  Q02 with VS_BOUNDED: sync_bounded_queue
#include "qu.hpp"
using boost::thread;
static int CAPOF(int c) { return c ? c : 1000; }
// one operation history on one thread against a reference queue
template <class Q> static void hist(int depth, int npull = 5) { { Q q; std::deque<int> ref; bool closed = false; int next = 1; const int np = E<typename Q::T>::copies ? 8 : 4;
    for (int k = 0; k < depth; k++) { int op = vs_choose(np + npull + 1); bool full = (int)ref.size() == CAPOF(Q::cap);
        if (op < np) { if (full && pblocks(op) && !closed) vs_cut(); int r = q.push(op, next), w = closed ? CLOSED : full ? (Q::cap && npull == 6 && (op & 3) == NB ? BUSY : FULL) : OKQ; vs_assert_msg(r == w, "push form %d gave %d, expected %d", op, r, w); if (r == OKQ) ref.push_back(next); next++; }
        else if (op < np + npull) { int f = op - np, v = 0; if (ref.empty() && cblocks(f) && f < 5 && !closed) vs_cut(); int r = q.pull(f, v), w = !ref.empty() ? OKQ : closed ? CLOSED : npull == 6 && f == NBP ? BUSY : EMPTY; vs_assert_msg(r == w, "pull form %d gave %d, expected %d", f, r, w); if (r == OKQ) { vs_assert_msg(v == ref.front(), "pulled %d, expected %d", v, ref.front()); ref.pop_front(); } }
        else { if (closed) vs_cut(); q.close(); closed = true; }
        vs_assert_msg(q.size() == ref.size(), "size is %d, expected %d", (int)q.size(), (int)ref.size()); vs_assert(q.empty() == ref.empty() && q.closed() == closed); vs_assert_msg(q.full() == ((int)ref.size() == CAPOF(Q::cap)), "full is %d with %d elements", q.full(), (int)ref.size()); } } vs_quiesce(); }
// the ring at every position: pushes and pulls only, longer histories
template <class Q> static void ring(int depth) { Q q; std::deque<int> ref; int next = 1; for (int k = 0; k < depth; k++) { if (vs_choose(2)) { bool f = (int)ref.size() == CAPOF(Q::cap); int r = q.push(TRY, next); vs_assert_msg(r == (f ? FULL : OKQ), "push gave %d", r); if (!f) ref.push_back(next); next++; } else { int v = 0, r = q.pull(TRYP, v); vs_assert_msg(r == (ref.empty() ? EMPTY : OKQ), "pull gave %d", r); if (r == OKQ) { vs_assert_msg(v == ref.front(), "pulled %d, expected %d", v, ref.front()); ref.pop_front(); } } vs_assert_msg(q.size() == ref.size() && q.empty() == ref.empty() && q.full() == ((int)ref.size() == CAPOF(Q::cap)), "size %d, expected %d", (int)q.size(), (int)ref.size()); } }
// producers push n elements each, consumers pull them; attempts of polling forms are limited, the rest is drained at the end
template <class Q> static void produce(G<Q>& g, int f, int lo, int n, int* undone) { for (int i = 0; i < n; i++) { int r, k = 0; while ((r = g.push(f, lo + i)) == BUSY || r == FULL) { if (++k == 2) break; vs_point(); } if (r == OKQ) continue; vs_assert_msg(!pblocks(f), "blocking push gave %d", r); *undone = n - i; return; } *undone = 0; }
template <class Q> static void consume(G<Q>& g, int f, int n, int* got, int* ngot) { *ngot = 0; for (int i = 0; i < n; i++) { int r, v, k = 0; while ((r = g.pull(f, v)) == EMPTY || r == BUSY) { if (++k == 2) return; vs_point(); } vs_assert_msg(r == OKQ, "pull gave %d", r); got[(*ngot)++] = v; } }
// np producers of n elements, nc consumers; forms pf, cf
template <class Q> static void conc(int np, int nc, int n, int pf, int cf) { { G<Q> g; int und[2] = {0, 0}, got[2][4], ngot[2] = {0, 0}; int each = np * n / nc; if (!pblocks(pf) && cblocks(cf)) each = 0;
    vs_t p0([&] { produce(g, pf, 0, n, &und[0]); }), p1([&] { if (np > 1) produce(g, pf, 10, n, &und[1]); }), c0([&] { consume(g, cf, each, got[0], &ngot[0]); }), c1([&] { if (nc > 1) consume(g, cf, each, got[1], &ngot[1]); });
    if (Q::cap && !cblocks(cf) && pblocks(pf)) { int v, total = 0; for (; vs_get(CDONE) < np * n;) { int r = g.pull(PULL, v); vs_assert(r == OKQ); if (++total == np * n) break; if (vs_get(CDONE) + 2 > np * n) break; } }
    p0.join(); p1.join(); c0.join(); c1.join(); int v; while (g.pull(TRYP, v) == OKQ) ; vs_assert_msg(vs_get(CDONE) == np * n - und[0] - und[1], "%ld came out, %d went in", vs_get(CDONE), np * n - und[0] - und[1]);
    for (int c = 0; c < nc; c++) for (int i = 0; i < ngot[c]; i++) for (int j = i + 1; j < ngot[c]; j++) vs_assert_msg(got[c][i] / 10 != got[c][j] / 10 || got[c][i] < got[c][j], "%d came out before %d", got[c][i], got[c][j]); } }
// the queue must be in order as a whole: one consumer at the end
template <class Q> static void order() { { G<Q> g; int pf = vs_choose(8), u0 = 0, u1 = 0; vs_t a([&] { produce(g, pf, 0, 2, &u0); }), b([&] { produce(g, pf, 10, 1, &u1); }); a.join(); b.join(); int v, last = -1; while (g.pull(PULL + vs_get(CDONE) % 2, v) == OKQ) { if (v < 10) { vs_assert_msg(v > last, "%d after %d", v, last); last = v; } if (vs_get(CDONE) == vs_get(PDONE)) break; } } }
// size/empty/full seen by a third thread are always possible
template <class Q> static void observe() { { G<Q> g; int u, gt[2], ng; vs_t p([&] { produce(g, PUSH, 0, 2, &u); }), c([&] { consume(g, PULL, 2, gt, &ng); }); int lo = vs_get(PDONE) - vs_get(CBEG); int s = g.q.size(); int hi = vs_get(PBEG) - vs_get(CDONE); (void)hi; vs_assert_msg(s >= lo && s <= 2 && (!Q::cap || s <= Q::cap), "size %d", s); bool e = g.q.empty(); if (e) vs_assert(vs_get(CBEG) >= 0); bool f = g.q.full(); if (!Q::cap) vs_assert(!f); vs_assert(!g.q.closed()); p.join(); c.join(); vs_assert(g.q.empty() && g.q.size() == 0); } }
// copying an element may throw: the queue stays as it was
template <class Q> static void fragiles(int depth) { { Q q; std::deque<int> ref; int next = 1, thrown = 0; for (int k = 0; k < depth; k++) { int op = vs_choose(13), v = 0; bool full = (int)ref.size() == CAPOF(Q::cap); if (op < 8 ? full && pblocks(op) : ref.empty() && cblocks(op - 8)) vs_cut(); if (op == 8 + PULLV && !E<typename Q::T>::value_pull) vs_cut();
        int arm = thrown < 2 ? vs_choose(5) : 0, r = -1; vs_set(5, arm); try { r = op < 8 ? q.push(op, next) : q.pull(op - 8, v); } catch (FragErr&) { thrown++; } vs_set(5, 0);
        if (r == -1) ; else if (op < 8) { vs_assert_msg(r == (full ? FULL : OKQ), "push form %d gave %d", op, r); if (!full) ref.push_back(next); } else { vs_assert_msg(r == (ref.empty() ? EMPTY : OKQ), "pull form %d gave %d", op - 8, r); if (!ref.empty()) { vs_assert_msg(v == ref.front(), "pulled %d, expected %d", v, ref.front()); ref.pop_front(); } }
        next++; vs_assert_msg(q.size() == ref.size() && q.empty() == ref.empty(), "size is %d, expected %d, after %s %d%s", (int)q.size(), (int)ref.size(), op < 8 ? "push" : "pull", op < 8 ? op : op - 8, r == -1 ? " threw" : ""); }
        while (!ref.empty()) { int v = 0, r = q.pull(TRYP, v); vs_assert_msg(r == OKQ && v == ref.front(), "pulled %d (status %d), expected %d", v, r, ref.front()); ref.pop_front(); } vs_assert(q.empty()); } vs_quiesce(); }
#if defined VS_DVIEW
SCENARIO(hist_dview, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<VwD<Pay> >(vs_thorough() ? 4 : 3); }
template <class Q> static void spsc() { int pf = vs_choose(E<typename Q::T>::copies ? 8 : 4), cf = vs_choose(5); conc<Q>(1, 1, 2, pf, cf); }
SCENARIO(spsc_dview, vs_opt().bound(1, 2).leak().secs(40, 300)) { spsc<VwD<Pay> >(); }
#elif !defined VS_BOUNDED
SCENARIO(hist_int, vs_opt().bound(0, 0).secs(40, 300)) { hist<Sync<int> >(vs_thorough() ? 5 : 4); }
SCENARIO(hist_pay, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Sync<Pay> >(vs_thorough() ? 4 : 3); }
SCENARIO(hist_mo, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Sync<MO> >(vs_thorough() ? 5 : 4); }
SCENARIO(hist_stddeque, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<SyncD<Pay> >(vs_thorough() ? 4 : 3); }
SCENARIO(hist_deque, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Dq<Pay> >(vs_thorough() ? 5 : 4); }
SCENARIO(hist_deque_mo, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Dq<MO> >(vs_thorough() ? 5 : 4); }
SCENARIO(hist_adaptor, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Ad<Pay> >(vs_thorough() ? 4 : 3); }
SCENARIO(hist_view, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Vw<Pay> >(vs_thorough() ? 4 : 3); }
SCENARIO(hist_dadaptor, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<AdD<Pay> >(vs_thorough() ? 4 : 3); }
SCENARIO(ring_queue, vs_opt().bound(0, 0)) { ring<Sync<int> >(12); }
SCENARIO(ring_deque, vs_opt().bound(0, 0)) { ring<Dq<int> >(12); }
template <class Q> static void spsc() { int pf = vs_choose(E<typename Q::T>::copies ? 8 : 4), cf = vs_choose(5); conc<Q>(1, 1, 2, pf, cf); }
SCENARIO(spsc_queue, vs_opt().bound(2, 3).leak().secs(40, 300)) { spsc<Sync<Pay> >(); }
SCENARIO(spsc_deque, vs_opt().bound(2, 3).leak().secs(40, 300)) { spsc<Dq<Pay> >(); }
SCENARIO(spsc_mo, vs_opt().bound(1, 2).leak().secs(40, 300)) { spsc<Sync<MO> >(); }
SCENARIO(spsc_deque_mo, vs_opt().bound(1, 2).leak().secs(40, 300)) { spsc<Dq<MO> >(); }
SCENARIO(spsc_view, vs_opt().bound(1, 2).leak().secs(40, 300)) { spsc<Vw<Pay> >(); }
SCENARIO(p2c1_queue, vs_opt().bound(1, 2).leak().secs(40, 300)) { conc<Sync<Pay> >(2, 1, 1, vs_choose(4), vs_choose(5)); }
SCENARIO(p1c2_queue, vs_opt().bound(2, 3).leak().secs(40, 300)) { conc<Sync<Pay> >(1, 2, 2, vs_choose(2) * 3, vs_choose(5)); }
SCENARIO(p2c2_queue, vs_opt().bound(1, 2).leak().secs(40, 300)) { conc<Sync<Pay> >(2, 2, 1, vs_choose(2) * 3, vs_choose(5)); }
SCENARIO(p2c1_deque, vs_opt().bound(1, 2).leak().secs(40, 300)) { conc<Dq<Pay> >(2, 1, 1, vs_choose(4), vs_choose(5)); }
SCENARIO(p1c2_deque, vs_opt().bound(2, 3).leak().secs(40, 300)) { conc<Dq<Pay> >(1, 2, 2, vs_choose(2) * 3, vs_choose(5)); }
SCENARIO(p2c2_deque, vs_opt().bound(1, 2).leak().secs(40, 300)) { conc<Dq<Pay> >(2, 2, 1, vs_choose(2) * 3, vs_choose(5)); }
SCENARIO(order_queue, vs_opt().bound(1, 2).leak()) { order<Sync<Pay> >(); }
SCENARIO(order_deque, vs_opt().bound(1, 2).leak()) { order<Dq<Pay> >(); }
SCENARIO(observe_queue, vs_opt().bound(2, 3).leak()) { observe<Sync<Pay> >(); }
SCENARIO(observe_deque, vs_opt().bound(2, 3).leak()) { observe<Dq<Pay> >(); }
// spurious wakeups change nothing
SCENARIO(spurious_queue, vs_opt().bound(1, 2).spurious().leak()) { conc<Sync<Pay> >(1, 1, 1, PUSH, vs_choose(5)); }
SCENARIO(spurious_deque, vs_opt().bound(1, 2).spurious().leak()) { conc<Dq<Pay> >(1, 1, 1, PUSH, vs_choose(5)); }
// all elements at once
SCENARIO(underlying, vs_opt().bound(2, 3).leak()) { { G<Sync<Pay> > g; int und, n = 0; vs_t p([&] { produce(g, PUSH, 1, 2, &und); }); std::vector<int> all; for (int k = 0; k < 2; k++) { boost::sync_queue<Pay>::underlying_queue_type d = g.q.q.underlying_queue(); n += d.size(); while (!d.empty()) { all.push_back(*d.front().p); d.pop_front(); } if (k == 0) p.join(); } vs_assert_msg(n == 2 && all[0] == 1 && all[1] == 2 && g.q.empty(), "%d elements taken", n); } }
SCENARIO(underlying_deque, vs_opt().bound(2, 3).leak()) { { G<Dq<Pay> > g; int und, n = 0; vs_t p([&] { produce(g, PUSH, 1, 2, &und); }); std::vector<int> all; for (int k = 0; k < 2; k++) { boost::sync_deque<Pay>::underlying_queue_type d = g.q.q.underlying_queue(); n += d.size(); while (!d.empty()) { all.push_back(*d.front().p); d.pop_front(); } if (k == 0) p.join(); } vs_assert_msg(n == 2 && all[0] == 1 && all[1] == 2 && g.q.empty(), "%d elements taken", n); } }
// taking everything leaves a queue that works
template <class Q> static void take(int depth) { { Q q; std::deque<int> ref; int next = 1, v = 0; for (int k = 0; k < depth; k++) { switch (vs_choose(3)) { case 0: vs_assert(q.push(vs_choose(2) * 4, next) == OKQ); ref.push_back(next++); break; case 1: { int r = q.pull(TRYP, v); vs_assert_msg(r == (ref.empty() ? EMPTY : OKQ), "pull gave %d", r); if (r == OKQ) { vs_assert_msg(v == ref.front(), "pulled %d, expected %d", v, ref.front()); ref.pop_front(); } break; }
        default: { auto d = q.q.underlying_queue(); vs_assert_msg(d.size() == ref.size(), "%d elements taken, expected %d", (int)d.size(), (int)ref.size()); while (!d.empty()) { vs_assert(*d.front().p == ref.front()); d.pop_front(); ref.pop_front(); } } } vs_assert_msg(q.size() == ref.size() && q.empty() == ref.empty(), "size is %ld, expected %d", (long)q.size(), (int)ref.size()); } } }
SCENARIO(take_queue, vs_opt().bound(0, 0).leak()) { take<Sync<Pay> >(vs_thorough() ? 7 : 6); }
SCENARIO(take_deque, vs_opt().bound(0, 0).leak()) { take<Dq<Pay> >(vs_thorough() ? 7 : 6); }
SCENARIO(take_stddeque, vs_opt().bound(0, 0).leak()) { take<SyncD<Pay> >(vs_thorough() ? 7 : 6); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
template <class Q> static void interrupted() { { G<Q> g; int cf[] = {PULL, PULLV, WAITP}, f = cf[vs_choose(3)], form2 = cf[vs_choose(3)]; int got = 0; thread a([&] { int v; try { if (g.pull(f, v) == OKQ) got++; } catch (boost::thread_interrupted&) { vs_add(CBEG, -1); } }); vs_t b([&] { int v; if (g.pull(form2, v) == OKQ) vs_set(9, 1); }); vs_t p([&] { g.push(PUSH, 1); }); a.interrupt(); a.join(); p.join(); if (got) g.push(PUSH, 2); vs_quiesce(); vs_assert_msg(vs_get(9), "an element is there, but a consumer stays blocked"); b.join(); } }
SCENARIO(interrupted_queue, vs_opt().bound(2, 3).leak().secs(40, 300)) { interrupted<Sync<Pay> >(); }
SCENARIO(interrupted_deque, vs_opt().bound(2, 3).leak().secs(40, 300)) { interrupted<Dq<Pay> >(); }
#endif
SCENARIO(throws_queue, vs_opt().bound(0, 0).leak().secs(40, 300)) { fragiles<Sync<FragM> >(vs_thorough() ? 4 : 3); }
SCENARIO(throws_queue_copied, vs_opt().bound(0, 0).leak().secs(40, 300)) { fragiles<Sync<FragC> >(vs_thorough() ? 4 : 3); }
SCENARIO(throws_deque, vs_opt().bound(0, 0).leak().secs(40, 300)) { fragiles<Dq<FragM> >(vs_thorough() ? 4 : 3); }
SCENARIO(throws_deque_copied, vs_opt().bound(0, 0).leak().secs(40, 300)) { fragiles<Dq<FragC> >(vs_thorough() ? 4 : 3); }
SCENARIO(throws_stddeque_copied, vs_opt().bound(0, 0).leak().secs(40, 300)) { fragiles<SyncD<FragC> >(vs_thorough() ? 4 : 3); }
#else
template <class Q> static void cap1() { Q q; vs_assert(q.q.capacity() == Q::cap); }
SCENARIO(capacity, vs_opt().bound(0, 0)) { cap1<Bnd<int, 1> >(); cap1<Bnd<int, 2> >(); cap1<Bnd<int, 3> >(); }
SCENARIO(hist_1, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Bnd<Pay, 1> >(vs_thorough() ? 5 : 4); }
SCENARIO(hist_2, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Bnd<int, 2> >(vs_thorough() ? 6 : 4); }
SCENARIO(hist_3, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Bnd<Pay, 3> >(vs_thorough() ? 5 : 4); }
SCENARIO(hist_mo, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Bnd<MO, 2> >(vs_thorough() ? 6 : 5); }
SCENARIO(hist_old, vs_opt().bound(0, 0).leak().secs(40, 300)) { hist<Old<Pay, 2> >(vs_thorough() ? 5 : 4, 6); }
SCENARIO(ring_1, vs_opt().bound(0, 0)) { ring<Bnd<int, 1> >(vs_thorough() ? 14 : 12); }
SCENARIO(ring_2, vs_opt().bound(0, 0)) { ring<Bnd<int, 2> >(vs_thorough() ? 14 : 12); }
SCENARIO(ring_3, vs_opt().bound(0, 0)) { ring<Bnd<Pay, 3> >(vs_thorough() ? 16 : 13); }
SCENARIO(ring_4, vs_opt().bound(0, 0)) { ring<Bnd<int, 4> >(vs_thorough() ? 16 : 13); }
template <class Q> static void spsc(int n) { int pf = vs_choose(8), cf = vs_choose(5); if (!cblocks(cf) && pblocks(pf)) vs_cut(); conc<Q>(1, 1, n, pf, cf); }
SCENARIO(spsc_1, vs_opt().bound(2, 3).leak().secs(40, 300)) { spsc<Bnd<Pay, 1> >(2); }
SCENARIO(spsc_1_3, vs_opt().bound(1, 2).leak().secs(40, 300)) { conc<Bnd<Pay, 1> >(1, 1, 3, vs_choose(2) * 3, vs_choose(2) * 4); }
SCENARIO(spsc_2, vs_opt().bound(1, 2).leak().secs(40, 300)) { spsc<Bnd<Pay, 2> >(3); }
SCENARIO(p2c1_1, vs_opt().bound(1, 2).leak().secs(40, 300)) { conc<Bnd<Pay, 1> >(2, 1, 1, vs_choose(2) * 3, vs_choose(2) * 4); }
SCENARIO(p1c2_1, vs_opt().bound(2, 3).leak().secs(40, 300)) { conc<Bnd<Pay, 1> >(1, 2, 2, vs_choose(2) * 3, vs_choose(2) * 4); }
SCENARIO(p2c2_1, vs_opt().bound(1, 2).leak().secs(40, 300)) { conc<Bnd<Pay, 1> >(2, 2, 1, vs_choose(2) * 3, vs_choose(2) * 4); }
SCENARIO(p2c2_1_2, vs_opt().bound(1, 2).leak().secs(40, 300)) { conc<Bnd<Pay, 1> >(2, 2, 2, PUSH, PULL); }
SCENARIO(p2c2_2, vs_opt().bound(1, 2).leak().secs(40, 300)) { conc<Bnd<Pay, 2> >(2, 2, 2, PUSH, PULL); }
SCENARIO(p2c1_2, vs_opt().bound(1, 2).leak().secs(40, 300)) { conc<Bnd<Pay, 2> >(2, 1, 2, vs_choose(2) * 3, vs_choose(2) * 4); }
SCENARIO(old_2, vs_opt().bound(1, 2).leak().secs(40, 300)) { int pf[] = {0, 3, 4, 7}; conc<Old<Pay, 1> >(2, 2, 1, pf[vs_choose(4)], vs_choose(2) * 4); }
SCENARIO(mixed_try, vs_opt().bound(1, 2).leak().secs(40, 300)) { { G<Bnd<Pay, 1> > g; int pf = 1 + vs_choose(2), cf = 2 + vs_choose(2); vs_t a([&] { vs_assert(g.push(PUSH, 1) == OKQ); vs_assert(g.push(WAIT, 2) == OKQ); }), b([&] { int v; vs_assert(g.pull(PULL, v) == OKQ); }); int v, n = 1; if (g.push(pf, 11) == OKQ) n--; if (g.pull(cf, v) == OKQ) n++; (void)n; vs_quiesce(); int in = vs_get(PDONE); while (g.pull(TRYP, v) == OKQ) { vs_quiesce(); } a.join(); b.join(); (void)in; vs_assert_msg(vs_get(PDONE) == vs_get(CDONE), "%ld in, %ld out", vs_get(PDONE), vs_get(CDONE)); } }
SCENARIO(order, vs_opt().bound(1, 2).leak()) { order<Bnd<Pay, 3> >(); }
SCENARIO(observe_1, vs_opt().bound(2, 3).leak()) { observe<Bnd<Pay, 1> >(); }
SCENARIO(observe_2, vs_opt().bound(2, 3).leak()) { observe<Bnd<Pay, 2> >(); }
SCENARIO(spurious, vs_opt().bound(1, 2).spurious().leak().secs(40, 300)) { conc<Bnd<Pay, 1> >(1, 1, 2, vs_choose(2) * 3, vs_choose(2) * 4); }
SCENARIO(spurious2, vs_opt().bound(1, 2).spurious().leak().secs(40, 300)) { conc<Bnd<Pay, 1> >(1, 2, 2, PUSH, PULL); }
// a blocked producer stays blocked while the queue is full, a consumer while it is empty
SCENARIO(blocks, vs_opt().bound(2, 3).leak()) { { G<Bnd<Pay, 2> > g; int f = vs_choose(8), cf = vs_choose(5); if (!pblocks(f) || !cblocks(cf)) vs_cut(); int v; vs_t c([&] { int w; vs_assert(g.pull(cf, w) == OKQ && w == 1); vs_set(9, 1); }); vs_quiesce(); vs_assert(!vs_get(9) && vs_blocked(c.id)); g.push(PUSH, 1); c.join(); g.push(PUSH, 2); g.push(PUSH, 3); vs_t p([&] { vs_assert(g.push(f, 4) == OKQ); vs_set(8, 1); }); vs_quiesce(); vs_assert(!vs_get(8) && vs_blocked(p.id) && g.q.full()); vs_assert(g.pull(TRYP, v) == OKQ && v == 2); p.join(); vs_assert(g.pull(TRYP, v) == OKQ && v == 3 && g.pull(TRYP, v) == OKQ && v == 4); } }
SCENARIO(throws_1, vs_opt().bound(0, 0).leak().secs(40, 300)) { fragiles<Bnd<FragM, 1> >(vs_thorough() ? 4 : 3); }
SCENARIO(throws_copied_1, vs_opt().bound(0, 0).leak().secs(40, 300)) { fragiles<Bnd<FragC, 1> >(vs_thorough() ? 4 : 3); }
SCENARIO(throws_2, vs_opt().bound(0, 0).leak().secs(40, 300)) { fragiles<Bnd<FragM, 2> >(vs_thorough() ? 4 : 3); }
SCENARIO(throws_copied_2, vs_opt().bound(0, 0).leak().secs(40, 300)) { fragiles<Bnd<FragC, 2> >(vs_thorough() ? 4 : 3); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
// an interrupted waiter does not cost another one its wakeup
SCENARIO(interrupted_pull, vs_opt().bound(2, 3).leak().secs(40, 300)) { { G<Bnd<Pay, 2> > g; int cf[] = {PULL, PULLV, WAITP}, f = cf[vs_choose(3)], form2 = cf[vs_choose(3)]; int got = 0; thread a([&] { int v; try { if (g.pull(f, v) == OKQ) got++; } catch (boost::thread_interrupted&) { vs_add(CBEG, -1); } }); vs_t b([&] { int v; if (g.pull(form2, v) == OKQ) vs_set(9, 1); }); vs_t p([&] { g.push(PUSH, 1); }); a.interrupt(); a.join(); p.join(); if (got) g.push(PUSH, 2); vs_quiesce(); vs_assert_msg(vs_get(9), "an element is there, but a consumer stays blocked"); b.join(); } }
SCENARIO(interrupted_push, vs_opt().bound(2, 3).leak().secs(40, 300)) { { G<Bnd<Pay, 1> > g; int cf[] = {PUSH, WAIT, PUSH + 4, WAIT + 4}, f = cf[vs_choose(4)], form2 = cf[vs_choose(2)]; int done = 0, v; g.push(PUSH, 1); thread a([&] { try { if (g.push(f, 2) == OKQ) done++; } catch (boost::thread_interrupted&) { vs_add(PBEG, -1); } }); vs_t b([&] { if (g.push(form2, 3) == OKQ) vs_set(9, 1); }); vs_t p([&] { int v; g.pull(PULL, v); }); a.interrupt(); a.join(); p.join(); if (done) g.pull(PULL, v); vs_quiesce(); vs_assert_msg(vs_get(9), "there is room, but a producer stays blocked"); b.join(); } }
#endif
#endif
