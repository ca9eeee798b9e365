// F02: waiting on futures
#include "fut.hpp"
using boost::future_status; namespace future_state = boost::future_state; using boost::thread;
enum { RDY = 1, GO = 2, CALLED = 3, DONE = 4 };
enum { W_WAIT, W_GET, W_EXPTR, W_FOR, W_UNTIL, W_SYS,
#if defined BOOST_THREAD_USES_DATETIME && !defined VS_V4
    W_TIMED, W_TIMED_UNTIL,
#endif
    NW };
static bool timed(int w) { return w >= W_FOR; }
// 1 ready, 0 timeout
template <class F> static int wait_form(F& f, int w, int n) {
    switch (w) { case W_WAIT: f.wait(); return 1; case W_GET: OKOF(f.get()); return 1; case W_EXPTR: f.get_exception_ptr(); return 1;
        case W_FOR: { future_status s = f.wait_for(ms(n)); vs_assert(s != future_status::deferred); return s == future_status::ready; } case W_UNTIL: { future_status s = f.wait_until(in_ms(n)); vs_assert(s != future_status::deferred); return s == future_status::ready; } case W_SYS: { future_status s = f.wait_until(sys_in_ms(n)); vs_assert(s != future_status::deferred); return s == future_status::ready; }
#if defined BOOST_THREAD_USES_DATETIME && !defined VS_V4
        case W_TIMED: return f.timed_wait(boost::posix_time::milliseconds(n)); case W_TIMED_UNTIL: return f.timed_wait_until(pt_in_ms(n));
#endif
    } return -1; }
static void satisfy(promise<Obj>& p, int e) { vs_set(RDY, 1); if (e) p.set_exception(Ex(5)); else p.set_value(Obj(5)); vs_set(DONE, 1); }
static int want(int e) { return e ? EXC + 5 : 5; }
// every waiter is woken, whatever handle and form it waits with
template <int W> static void woken(bool tw) {
    { promise<Obj> p; shared_future<Obj> s(p.get_future()); Data d; int e = vs_choose(2), form[W], id[W]; for (int i = 0; i < W; i++) { form[i] = tw ? W_FOR + vs_choose(NW - W_FOR) : vs_choose(W_FOR); if (i && form[i] < form[i - 1]) vs_cut(); }
    for (int i = 0; i < W; i++) id[i] = vs_spawn([&, i] { shared_future<Obj> c(s); int r = wait_form(c, form[i], FAR_); vs_assert_msg(r || vs_forced_tick(), "a timed wait missed the result"); if (r) { vs_assert_msg(vs_get(RDY), "ready before the result was set"); vs_assert_msg(c.is_ready() && c.get_state() == future_state::ready && c.has_exception() == !!e && c.has_value() == !e, "not ready after a wait returned"); vs_assert_msg(fetch<Obj>(c) == want(e), "wrong result"); vs_assert_msg(d.a == 1, "what was done before setting is not visible"); } });
    d.bump(); satisfy(p, e); for (int i = 0; i < W; i++) vs_pthread_join(id[i]); vs_assert(fetch<Obj>(s) == want(e) && fetch<Obj>(s) == want(e)); } vs_assert_msg(vs_get(LIVE) == 0, "the result was not destroyed"); }
SCENARIO(woken_1, vs_opt().bound(4, 6).spurious(1).leak()) { woken<1>(false); }
SCENARIO(woken_1_timed, vs_opt().bound(4, 6).spurious(1).leak()) { woken<1>(true); }
SCENARIO(woken_2, vs_opt().bound(3, 4).leak()) { woken<2>(false); }
SCENARIO(woken_2_timed, vs_opt().bound(2, 3).leak()) { woken<2>(true); }
SCENARIO(woken_3, vs_opt().bound(1, 2).leak().secs(20, 240)) { woken<3>(false); }
// a timed wait reports timeout only at the deadline and with the result absent; ready means ready
static void race(bool shared) { promise<int> p; fut<int> f(p.get_future()); int w = W_FOR + vs_choose(NW - W_FOR), e = vs_choose(2); vs_t a([&] { vs_set(RDY, 1); if (e) p.set_exception(Ex(1)); else p.set_value(1); vs_set(DONE, 1); }); long t0 = vs_now(); int r; if (shared) { shared_future<int> s(f.share()); r = wait_form(s, w, DL); if (r) vs_assert(s.is_ready()); } else { bool was = vs_get(DONE); r = wait_form(f, w, DL); vs_assert_msg(r || !was, "timeout although the result had been there before"); if (r) vs_assert(f.is_ready()); } if (r) vs_assert_msg(vs_get(RDY), "ready before the result was set"); else vs_assert_msg(vs_now() - t0 >= DL * MS, "timeout before the deadline"); a.join(); if (!shared) { vs_assert(wait_form(f, w, 0) == 1 && wait_form(f, w, -5) == 1); vs_assert(fetch<int>(f) == (e ? EXC + 1 : 1)); } }
#if defined BOOST_THREAD_PROVIDES_FUTURE_CONTINUATION
// a ready future's waiters are not held up by its continuations, nor is set_value by an asynchronous one
SCENARIO(waiters_first, vs_opt().bound(2, 3).leak().secs(20, 240)) { { promise<Obj> p; shared_future<Obj> s(p.get_future()); int as = vs_choose(2), e = vs_choose(2), w = vs_choose(NW + 1); fut<int> g(s.then(as ? boost::launch::async : boost::launch::sync, [](shared_future<Obj> x) { vs_add(CALLED, 1); vs_await(DONE, 1); return fetch<Obj>(x); }));
    vs_t a([&] { shared_future<Obj> c(s); int r = 1; if (w == NW) { promise<Obj> q; shared_future<Obj> o(q.get_future()); vs_assert(boost::wait_for_any(o, c) == 1); } else r = wait_form(c, w, FAR_); vs_assert_msg(r || vs_forced_tick(), "a timed wait missed the result"); if (r) vs_assert(fetch<Obj>(c) == want(e)); vs_set(DONE, 1); });
    if (as) { satisfy(p, e); vs_set(GO, 1); a.join(); } else { vs_t b([&] { satisfy(p, e); }); a.join(); b.join(); } vs_assert(fetch<int>(g) == want(e) && vs_get(CALLED) == 1); vs_quiesce(); } vs_assert_msg(vs_get(LIVE) == 0, "%ld results left", vs_get(LIVE)); }
#endif
SCENARIO(timed_race, vs_opt().bound(4, 6).spurious(1)) { race(false); }
SCENARIO(timed_race_shared, vs_opt().bound(4, 6).spurious(1)) { race(true); }
SCENARIO(timed_out, vs_opt().bound(2, 3).spurious(1)) { promise<int> p; fut<int> f(p.get_future()); int w = W_FOR + vs_choose(NW - W_FOR), n = vs_choose(3) * DL - DL; long t0 = vs_now(); vs_assert_msg(!wait_form(f, w, n), "an unsatisfied future was reported ready"); vs_assert_msg(vs_now() - t0 >= n * MS, "timeout before the deadline"); vs_assert_msg(vs_now() - t0 <= (n > 0 ? n * MS : 0) + 2000000 
#ifdef VS_POLL_CFG
    + 100 * MS
#endif
    , "timeout late"); vs_assert(f.valid() && !f.is_ready()); p.set_value(3); vs_assert(wait_form(f, w, n) == 1); vs_assert(fetch<int>(f) == 3); }
// not before the result: waiters stay blocked; then all leave
SCENARIO(blocked, vs_opt().bound(2, 3).spurious(1).blocked_ok()) { promise<int>& p = *new promise<int>; shared_future<int>& s = *new shared_future<int>(p.get_future()); int w = vs_choose(W_FOR); for (int i = 0; i < 2; i++) vs_spawn([&] { shared_future<int> c(s); wait_form(c, w, 0); vs_add(CALLED, 1); }); vs_quiesce(); vs_assert_msg(vs_get(CALLED) == 0, "a wait returned without a result"); p.set_value(1); vs_quiesce(); vs_assert_msg(vs_get(CALLED) == 2, "%ld of 2 waiters were woken", vs_get(CALLED)); }
// observers: once ready, always ready, with the same outcome
SCENARIO(observe, vs_opt().bound(4, 6)) { promise<int> p; shared_future<int> s(p.get_future()); int e = vs_choose(2), o = vs_choose(5); vs_run([&] { vs_set(RDY, 1); if (e) p.set_exception(Ex(2)); else p.set_value(2); }, [&] { shared_future<int> c(s); bool r; switch (o) { case 0: r = c.is_ready(); break; case 1: r = c.get_state() == future_state::ready; break; case 2: r = c.has_value() || c.has_exception(); break; case 3: r = c.wait_for(ms(0)) == future_status::ready; break; default: r = c.wait_until(in_ms(-1)) == future_status::ready; } if (r) { vs_assert_msg(vs_get(RDY), "ready too early"); vs_assert(c.is_ready() && c.get_state() == future_state::ready && c.has_value() == !e && c.has_exception() == !!e && (c.get_exception_ptr() ? 1 : 0) == e && fetch<int>(c) == (e ? EXC + 2 : 2)); } else { vs_assert(c.valid()); vs_assert(fetch<int>(c) == (e ? EXC + 2 : 2)); } }); }
// handles copied, moved, swapped and dropped while the result is set: one state, destroyed once
SCENARIO(handles, vs_opt().bound(3, 4).leak().secs(20, 240)) { { std::unique_ptr<promise<Obj>> p(new promise<Obj>); shared_future<Obj> s(p->get_future()), t(s); int h[2] = {vs_choose(6), vs_choose(6)}; if (h[0] > h[1]) vs_cut();
    auto use = [&](shared_future<Obj>& c, int k) { shared_future<Obj> mine(boost::move(c)); vs_assert(mine.valid() && !c.valid()); switch (k) { case 0: break; case 1: { shared_future<Obj> x(mine); mine = shared_future<Obj>(); vs_assert(!mine.valid() && fetch<Obj>(x) == 5); break; } case 2: { shared_future<Obj> x; x = mine; const Obj& o = x.get(); mine = shared_future<Obj>(); vs_assert(o.v == 5); break; } case 3: { shared_future<Obj> x; x.swap(mine); vs_assert(x.valid() && !mine.valid()); x.wait(); break; } case 4: { shared_future<Obj> x; x = boost::move(mine); vs_assert(!mine.valid()); vs_assert(&x.get() == &x.get()); break; } case 5: { mine = c; break; } } };
    vs_run([&] { use(s, h[0]); }, [&] { use(t, h[1]); }, [&] { p->set_value(Obj(5)); p.reset(); }); } vs_assert_msg(vs_get(LIVE) == 0, "%ld results left", vs_get(LIVE)); }
// every history of one thread over two futures and two shared handles of two results, against a model
struct Mdl {
    enum { N = 2 }; promise<Obj> p[N]; bool done[N], ex[N], inval[N], taken[N]; fut<Obj> f[2]; shared_future<Obj> s[2]; int fm[2], sm[2];
    Mdl() { for (int i = 0; i < N; i++) { f[i] = p[i].get_future(); done[i] = ex[i] = inval[i] = taken[i] = false; fm[i] = i; sm[i] = -1; } }
    bool fv(int h) { return h >= 0 && !inval[h]; }
    template <class F> void inspect(F& x, int h, bool consuming, int k) {
        bool v = fv(h); vs_assert_msg(x.valid() == v, "valid() is wrong");
        switch (k) { case 0: { int r = fetch<Obj>(x); if (!v) vs_assert_msg(r == UNINIT, "get on an invalid future: %d", r); else if (taken[h] && !ex[h]) vs_cut(); else vs_assert_msg(r == (ex[h] ? EXC + h : h), "wrong result %d", r); if (v && consuming) { taken[h] = true;
#if defined BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
            inval[h] = true;
#endif
            } break; }
        case 1: { int r = OKOF(x.wait()); if (h < 0) vs_assert_msg(r == UNINIT, "wait on an invalid future: %d", r); else vs_assert(r == OK); break; }
        case 2: { int r = outcome([&] { return x.wait_for(ms(3)) == future_status::ready ? 1 : 0; }); if (h < 0) vs_assert_msg(r == UNINIT, "wait_for on an invalid future: %d", r); else vs_assert(r == (int)done[h]); break; } }
    }
    void step() { int op = vs_choose(10), i = vs_choose(2);
        switch (op) {
        case 0: if (done[i]) vs_cut(); done[i] = true; ex[i] = vs_choose(2); if (ex[i]) p[i].set_exception(Ex(i)); else p[i].set_value(Obj(i)); break;
        case 1: { int h = fm[i]; int k = vs_choose(3); if (h >= 0 && !done[h] && k != 2) vs_cut(); inspect(f[i], h, true, k); break; }
        case 2: { int h = sm[i]; int k = vs_choose(3); if (h >= 0 && ((!done[h] && k != 2) || inval[h])) vs_cut(); inspect(s[i], h, false, k); break; }
        case 3: { int j = vs_choose(2); s[j] = f[i].share(); sm[j] = fm[i]; fm[i] = -1; break; }
        case 4: f[i] = boost::move(f[1 - i]); fm[i] = fm[1 - i]; fm[1 - i] = -1; break;
        case 5: if (i) vs_cut(); f[0].swap(f[1]); std::swap(fm[0], fm[1]); break;
        case 6: s[i] = s[1 - i]; sm[i] = sm[1 - i]; break;
        case 7: s[i] = boost::move(s[1 - i]); sm[i] = sm[1 - i]; sm[1 - i] = -1; break;
        case 8: { s[i] = boost::move(f[i]); sm[i] = fm[i]; fm[i] = -1; break; }
        case 9: { fut<Obj> x(boost::move(f[i])); shared_future<Obj> y(boost::move(s[i])), z(y); vs_assert(x.valid() == fv(fm[i]) && y.valid() == fv(sm[i]) && z.valid() == y.valid()); if (vs_choose(2)) { f[i] = boost::move(x); s[i].swap(y); } else fm[i] = sm[i] = -1; break; }
        }
        for (int k = 0; k < 2; k++) { vs_assert_msg(f[k].valid() == fv(fm[k]), "op %d: future %d valid() is %d", op, k, f[k].valid()); vs_assert_msg(s[k].valid() == fv(sm[k]), "op %d: shared_future %d valid() is %d", op, k, s[k].valid());
            vs_assert_msg((f[k].get_state() == future_state::ready) == (fm[k] >= 0 && done[fm[k]]) && (f[k].get_state() == future_state::uninitialized) == (fm[k] < 0), "get_state"); vs_assert(s[k].is_ready() == (sm[k] >= 0 && done[sm[k]]) && s[k].has_exception() == (sm[k] >= 0 && done[sm[k]] && ex[sm[k]]) && s[k].has_value() == (sm[k] >= 0 && done[sm[k]] && !ex[sm[k]])); } }
};
SCENARIO(history, vs_opt().bound(0, 0).leak().secs(40, 300)) { { Mdl m; int n = vs_thorough() ? 4 : 3; for (int i = 0; i < n; i++) m.step(); } vs_assert_msg(vs_get(LIVE) == 0, "%ld results left", vs_get(LIVE)); }
// a wait callback is invoked by the waiting thread, without any lock
SCENARIO(callback, vs_opt().bound(2, 3).leak()) { promise<int> p; shared_future<int> s(p.get_future()); int w = vs_choose(NW); auto cb = [](promise<int>& q) { vs_add(CALLED, 1); vs_assert(outcome([&] { q.set_value(8); return 0; }) != OTHER); }; p.set_wait_callback(+cb); vs_assert(!s.is_ready()); int r = wait_form(s, w, FAR_); vs_assert_msg(r == 1 && vs_get(CALLED) >= 1, "the wait callback was not invoked"); vs_assert(fetch<int>(s) == 8 && vs_get(CALLED) == 1); }
// get_or
SCENARIO(get_or, vs_opt().bound(3, 5).spurious(1)) { promise<int> p; int k = vs_choose(3), how = vs_choose(3); fut<int> f(p.get_future()); vs_t a([&] { switch (k) { case 0: p.set_value(4); break; case 1: p.set_exception(Ex(1)); break; case 2: { promise<int> q(boost::move(p)); } } }); int r; if (how == 0) r = f.get_or(9); else if (how == 1) { const int d = 9; r = f.get_or(d); } else { shared_future<int> s(f.share()); r = s.get_or(9); } vs_assert_msg(r == (k == 0 ? 4 : 9), "get_or gave %d", r); a.join(); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
// an interrupted wait leaves the future as it was
SCENARIO(interrupted, vs_opt().bound(3, 5).spurious(1)) { promise<int> p; fut<int> f(p.get_future()); int w = vs_choose(NW), sh = vs_choose(2); thread t([&] { int r; if (sh) { shared_future<int> s(f.share()); r = outcome([&] { return w == W_GET ? s.get(), 1 : wait_form(s, w, FAR_); }); vs_assert(s.valid()); vs_set(GO, 1); if (r == INTR) vs_assert(fetch<int>(s) == 6); } else { r = outcome([&] { return w == W_GET ? (f.get(), 1) : wait_form(f, w, FAR_); }); vs_set(GO, 1); if (r == INTR) { vs_assert_msg(f.valid(), "an interrupted wait invalidated the future"); vs_assert_msg(fetch<int>(f) == 6, "the result was lost by an interrupted wait"); } } vs_assert_msg(r == INTR || r == 1 || vs_forced_tick(), "an interrupted wait gave %d", r); }); t.interrupt(); vs_await(GO, 1); p.set_value(6); t.join(); }
#endif
// a timed wait woken for nothing, or while another one ends
SCENARIO(prolonged, vs_opt().bound(1, 2).spurious(1)) { promise<int> p; shared_future<int> s(p.get_future()); int w = W_FOR + vs_choose(NW - W_FOR), other = vs_choose(2); halfway([&] { shared_future<int> c(s); return !wait_form(c, w, DL); }, [&] { if (other) { shared_future<int> c(s); wait_form(c, W_FOR, 1); } }
#ifdef VS_POLL_CFG
    , 101 * MS
#endif
    ); p.set_value(1); vs_assert(wait_form(s, w, 0) == 1); }
