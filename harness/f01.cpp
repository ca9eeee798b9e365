// F01: promise
#include "fut.hpp"
#if defined BOOST_THREAD_PROVIDES_PROMISE_LAZY
enum { LAZY = 1 };
#else
enum { LAZY = 0 };
#endif
enum { RES = 1, NOK = 2 };
// every history of a single thread over two promises, against a model
template <class T> struct Model {
    struct St { int res; bool ready, stored, got; };     // res valid once stored
    St st[24]; int n; int slot[2]; fut<T> f[24]; std::unique_ptr<promise<T>> p[2];
    Model() : n(0) { fresh(0); fresh(1); }
    int mk() { st[n] = St{0, false, false, false}; return n++; }
    void fresh(int i) { p[i].reset(); p[i].reset(new promise<T>); slot[i] = mk(); }
    void need(int i) { if (slot[i] < 0 && LAZY) slot[i] = mk(); }
    void drop(int s) { if (s < 0) return; if (!st[s].stored) { st[s].stored = st[s].ready = true; st[s].res = BROKEN; } else if (!st[s].ready) vs_cut(); }
    void store(int i, int how, int k) {
        need(i); int s = slot[i], v = val<T>(k), r;
        switch (how) { case 0: r = OKOF(K<T>::set(*p[i], k)); break; case 1: r = OKOF(K<T>::setr(*p[i], k)); break; case 2: r = OKOF(p[i]->set_exception(boost::copy_exception(Ex(k)))); v = EXC + k; break; case 3: r = OKOF(p[i]->set_exception(Ex(k))); v = EXC + k; break;
            case 4: r = OKOF(K<T>::setd(*p[i], k)); break; default: r = OKOF(p[i]->set_exception_deferred(Ex(k))); v = EXC + k; }
        if (s < 0) { vs_assert_msg(r == MOVED, "setting a result through a promise without state: %d", r); return; }
        if (st[s].ready || (st[s].stored && how >= 4)) vs_assert_msg(r == SATISFIED, "a second result was %s", r == OK ? "accepted" : "refused with the wrong error");
        else if (st[s].stored) vs_cut();       // set_value after set_value_deferred: documented for ready results only
        else { vs_assert_msg(r == OK, "setting the result failed: %d", r); st[s].stored = true; st[s].res = v; st[s].ready = how < 4; }
    }
    void step(bool deferred) {
        int i = vs_choose(2), op = vs_choose(deferred ? 9 : 8);
        switch (op) {
        case 0: store(i, vs_choose(2), n); break;
        case 1: store(i, 2 + vs_choose(2), n); break;
        case 2: { need(i); int s = slot[i]; int r = OKOF(fut<T> g(p[i]->get_future()); if (s >= 0) f[s] = boost::move(g)); if (s < 0) vs_assert_msg(r == MOVED, "get_future of a promise without state: %d", r); else if (st[s].got) vs_assert_msg(r == RETRIEVED, "the future was retrieved twice (%d)", r); else { vs_assert_msg(r == OK && f[s].valid(), "get_future failed: %d", r); st[s].got = true; } break; }
        case 3: { int s = slot[i]; fresh(i); drop(s); break; }
        case 4: { int s = slot[i], t = slot[1 - i]; *p[i] = boost::move(*p[1 - i]); slot[i] = t; slot[1 - i] = -1; drop(s); break; }
        case 5: if (i) vs_cut(); p[0]->swap(*p[1]); std::swap(slot[0], slot[1]); break;
        case 6: { std::unique_ptr<promise<T>> q(new promise<T>(boost::move(*p[i]))); p[i] = std::move(q); break; }      // same state, moved into a new object
        case 7: { promise<T> tmp(boost::move(*p[i])); int s = slot[i]; slot[i] = -1; (void)s; if (vs_choose(2)) { promise<T> other; tmp.swap(other); } else if (!vs_choose(2)) tmp = promise<T>(); drop(s); break; }
        case 8: { if (vs_choose(2)) store(i, 4 + vs_choose(2), n); else { int s = slot[i]; if (s < 0 || !st[s].stored || st[s].ready) vs_cut(); p[i]->notify_deferred(); st[s].ready = true; } break; }
        }
        if (op == 7) {} for (int s = 0; s < n; s++) if (st[s].got) { vs_assert_msg(f[s].valid(), "a future lost its state"); vs_assert_msg(f[s].is_ready() == st[s].ready, "op %d: a future is %sready", op, st[s].ready ? "not " : ""); bool e = st[s].ready && (st[s].res >= EXC || st[s].res == BROKEN); vs_assert_msg(f[s].has_exception() == e, "has_exception"); vs_assert_msg(f[s].has_value() == (st[s].ready && !e), "has_value"); }
    }
    void finish() {
        for (int i = 0; i < 2; i++) { int s = slot[i]; p[i].reset(); drop(s); }
        for (int s = 0; s < n; s++) if (st[s].got) { vs_assert_msg(f[s].is_ready(), "the promise is gone and the future is not ready"); int r = fetch<T>(f[s]); vs_assert_msg(r == st[s].res, "the future gave %d instead of %d", r, st[s].res); }
    }
};
template <class T> static void history(int len, bool deferred) { { Model<T> m; for (int i = 0; i < len; i++) m.step(deferred); m.finish(); } vs_assert_msg(vs_get(LIVE) == 0, "%ld results never destroyed", vs_get(LIVE)); }
SCENARIO(history_int, vs_opt().bound(0, 0).leak().secs(60, 300)) { history<int>(vs_thorough() ? 4 : 3, true); }
SCENARIO(history_obj, vs_opt().bound(0, 0).leak().secs(60, 300)) { history<Obj>(vs_thorough() ? 4 : 3, false); }
SCENARIO(history_void, vs_opt().bound(0, 0).leak().secs(60, 300)) { history<void>(vs_thorough() ? 4 : 3, true); }
SCENARIO(history_ref, vs_opt().bound(0, 0).leak().secs(60, 300)) { history<int&>(vs_thorough() ? 4 : 3, true); }
SCENARIO(history_move_only, vs_opt().bound(0, 0).leak().secs(60, 300)) { history<MO>(vs_thorough() ? 4 : 3, false); }
// one thread delivers in some way, another takes the result
enum { D_VALUE, D_RVALUE, D_EXC, D_EXC2, D_DESTROY, D_ASSIGN, D_DEFERRED, D_SWAP, ND };
template <class T> static int deliver(std::unique_ptr<promise<T>>& p, int how, int k) {
    switch (how) { case D_VALUE: K<T>::set(*p, k); return val<T>(k); case D_RVALUE: K<T>::setr(*p, k); return val<T>(k); case D_EXC: p->set_exception(boost::copy_exception(Ex(k))); return EXC + k; case D_EXC2: p->set_exception(Ex(k)); return EXC + k; case D_DESTROY: p.reset(); return BROKEN; case D_ASSIGN: *p = promise<T>(); return BROKEN;
        case D_DEFERRED: K<T>::setd(*p, k); vs_point(); vs_set(RES, 1); p->notify_deferred(); return val<T>(k); default: { promise<T> q; q.swap(*p); } return BROKEN; } }
static int expected(int how, int k, bool hasv) { switch (how) { case D_VALUE: case D_RVALUE: case D_DEFERRED: return hasv ? k : 0; case D_EXC: case D_EXC2: return EXC + k; default: return BROKEN; } }
template <class T> static int take(fut<T>& f, int how) {
    switch (how) { case 0: break; case 1: f.wait(); vs_assert(f.is_ready()); break; case 2: if (!vs_forced_tick()) { boost::future_status s = f.wait_for(ms(FAR_)); vs_assert_msg(s == boost::future_status::ready || vs_forced_tick(), "a timed wait missed the result"); } break; case 3: { shared_future<T> s(f.share()); vs_assert(!f.valid()); shared_future<T> t(s); int a = fetch<T>(s), b = fetch<T>(t); vs_assert_msg(a == b, "two handles differ"); return a; } }
    return fetch<T>(f); }
template <class T> static void deliver_take(bool keep) {
    { int how = vs_choose(ND), t = vs_choose(4); std::unique_ptr<promise<T>> p(new promise<T>); fut<T> f(p->get_future()); Data d; int k = 7;
    vs_t a([&] { d.bump(); deliver<T>(p, how, k); if (!keep) p.reset(); });
    { fut<T> g(boost::move(f)); vs_assert(g.valid() && !f.valid()); int r = take<T>(g, t); vs_assert_msg(r == expected(how, k, K<T>::hasv), "the future gave %d instead of %d", r, expected(how, k, K<T>::hasv)); vs_assert_msg(d.a == 1, "what was done before setting is not visible"); }
    a.join(); } vs_assert_msg(vs_get(LIVE) == 0, "%ld results never destroyed", vs_get(LIVE)); }
SCENARIO(deliver_int, vs_opt().bound(3, 5).spurious(1).leak()) { deliver_take<int>(true); }
SCENARIO(deliver_obj, vs_opt().bound(3, 4).spurious(1).leak()) { deliver_take<Obj>(false); }
SCENARIO(deliver_void, vs_opt().bound(3, 4).leak()) { deliver_take<void>(false); }
SCENARIO(deliver_ref, vs_opt().bound(3, 4).leak()) { deliver_take<int&>(false); }
SCENARIO(deliver_move_only, vs_opt().bound(3, 4).leak()) { deliver_take<MO>(false); }
// two threads set through one promise: exactly one result is accepted
template <class T> static void two_setters() {
    { promise<T> p; fut<T> f(p.get_future()); int h[2] = {vs_choose(6), vs_choose(6)}; int ok = -1, nok = 0; if (h[0] > h[1]) vs_cut();
    auto s = [&](int i) { int r; switch (h[i]) { case 0: r = OKOF(K<T>::set(p, i + 1)); break; case 1: r = OKOF(K<T>::setr(p, i + 1)); break; case 2: r = OKOF(p.set_exception(Ex(i + 1))); break; case 3: r = OKOF(p.set_exception(boost::copy_exception(Ex(i + 1)))); break; case 4: r = OKOF(K<T>::setd(p, i + 1); p.notify_deferred()); break; default: r = OKOF(p.set_exception_deferred(Ex(i + 1)); p.notify_deferred()); }
        vs_assert_msg(r == OK || r == SATISFIED, "setting gave %d", r); if (r == OK) { vs_add(NOK, 1); vs_set(RES, i); } };
    if ((h[0] >= 4) != (h[1] >= 4)) vs_cut();      // set_value against a deferred result is documented for ready results only
    vs_run([&] { s(0); }, [&] { s(1); }); (void)ok; (void)nok; vs_assert_msg(vs_get(NOK) == 1, "%ld of two results were accepted", vs_get(NOK)); int w = vs_get(RES); int want = h[w] == 2 || h[w] == 3 || h[w] == 5 ? EXC + w + 1 : val<T>(w + 1); vs_assert_msg(fetch<T>(f) == want, "the future holds the refused result"); } vs_assert(vs_get(LIVE) == 0); }
SCENARIO(two_setters_int, vs_opt().bound(3, 4).leak()) { two_setters<int>(); }
SCENARIO(two_setters_obj, vs_opt().bound(2, 3).leak()) { two_setters<Obj>(); }
SCENARIO(two_setters_void, vs_opt().bound(2, 3).leak()) { two_setters<void>(); }
// the future is retrieved while the result is set
SCENARIO(retrieve_while_set, vs_opt().bound(4, 6).leak()) { promise<int> p; int e = vs_choose(2), out = 0; Data d; vs_run([&] { d.bump(); if (e) p.set_exception(Ex(3)); else p.set_value(3); }, [&] { fut<int> f(p.get_future()); out = fetch<int>(f); vs_assert(d.a == 1); }); vs_assert(out == (e ? EXC + 3 : 3)); vs_assert(OKOF(p.get_future()) == RETRIEVED); vs_assert(OKOF(p.set_value(4)) == SATISFIED); }
// setter and taker let go of the state at the same time, in every order
SCENARIO(last_handle, vs_opt().bound(5, 7).leak()) { { std::unique_ptr<promise<Obj>> p(new promise<Obj>); std::unique_ptr<fut<Obj>> f(new fut<Obj>(p->get_future())); int k = vs_choose(3); vs_run([&] { if (k) p->set_value(Obj(1)); p.reset(); }, [&] { if (k == 2) f->wait(); f.reset(); }); } vs_assert_msg(vs_get(LIVE) == 0, "the result was destroyed %ld times too few", vs_get(LIVE)); }
// a result whose construction throws leaves the promise usable
struct Thrower { int v; static int arm; Thrower(int x) : v(x) {} Thrower(const Thrower& o) : v(o.v) { if (arm) { arm--; throw Ex(9); } } Thrower(Thrower&& o) : v(o.v) { if (arm) { arm--; throw Ex(9); } } Thrower& operator=(const Thrower& o) { v = o.v; return *this; } };
int Thrower::arm;
SCENARIO(throwing_result, vs_opt().bound(2, 3).leak()) { Thrower::arm = 0; promise<Thrower> p; fut<Thrower> f(p.get_future()); int how = vs_choose(3); vs_t w([&] { int r = outcome([&] { return f.get().v; }); vs_assert_msg(r == 5 || r == EXC + 4, "the future gave %d", r); }); int r; { Thrower t(2); Thrower::arm = 1; switch (how) { case 0: r = OKOF(p.set_value(t)); break; case 1: r = OKOF(p.set_value(Thrower(2))); break; default: r = OKOF(p.set_value_deferred(t)); } } vs_assert_msg(r == EXC + 9, "the exception of the result's constructor was lost: %d", r); Thrower::arm = 0; if (vs_choose(2)) p.set_exception(Ex(4)); else { Thrower t(5); vs_assert(OKOF(p.set_value(t)) == OK); } w.join(); }
// any exception object comes out with its own type
struct Base { virtual ~Base() {} int b; Base() : b(1) {} }; struct Derived : Base { int d; Derived() : d(2) {} };
SCENARIO(exceptions, vs_opt().bound(2, 3).leak()) { int k = vs_choose(6); promise<int> p; fut<int> f(p.get_future()); vs_t a([&] { switch (k) { case 0: p.set_exception(boost::copy_exception(std::runtime_error("x"))); break; case 1: try { throw Derived(); } catch (...) { p.set_exception(boost::current_exception()); } break; case 2: p.set_exception(Derived()); break; case 3: try { throw std::bad_alloc(); } catch (...) { p.set_exception(boost::current_exception()); } break; case 4: p.set_exception(std::logic_error("y")); break; case 5: try { throw 42; } catch (...) { p.set_exception(boost::current_exception()); } break; } });
    int r = 0; try { f.get(); } catch (Derived& e) { r = e.d == 2 && e.b == 1 && (k == 1 || k == 2); } catch (std::bad_alloc&) { r = k == 3; } catch (std::runtime_error& e) { r = k == 0 && e.what()[0] == 'x'; } catch (std::logic_error& e) { r = k == 4 && e.what()[0] == 'y'; } catch (int n) { r = k == 5 && n == 42; } catch (...) { r = -1; } vs_assert_msg(r == 1, "exception %d did not arrive as itself (%d)", k, r); a.join(); }
#if defined BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
// states from an allocator
template <class T> static void allocated() { { int fail = vs_choose(2); vs_set(AFAIL, fail); std::unique_ptr<promise<T>> p; int r = OKOF(p.reset(new promise<T>(boost::allocator_arg, CA<char>()))); vs_set(AFAIL, 0); vs_assert(fail ? r == OTHER && !vs_get(ALLOCD) : r == OK && vs_get(ALLOCD) == 1); if (!fail) { fut<T> f(p->get_future()); vs_assert(OKOF(p->get_future()) == RETRIEVED); int how = vs_choose(ND); vs_t a([&] { deliver<T>(p, how, 7); p.reset(); }); { fut<T> g(boost::move(f)); int x = fetch<T>(g); vs_assert_msg(x == expected(how, 7, K<T>::hasv), "the future gave %d", x); } a.join(); } } vs_assert_msg(!vs_get(LIVE) && !vs_get(ALLOCD), "%ld states never freed", vs_get(ALLOCD)); }
SCENARIO(allocated_obj, vs_opt().bound(3, 4).leak()) { allocated<Obj>(); }
SCENARIO(allocated_void, vs_opt().bound(2, 3).leak()) { allocated<void>(); }
SCENARIO(allocated_ref, vs_opt().bound(2, 3).leak()) { allocated<int&>(); }
#endif
// results constructed in place
struct Two { Obj o; int b; Two(const Two&) = delete; Two(Two&& t) : o(std::move(t.o)), b(t.b) {} Two(int a, MO c) : o(a), b(*c) { if (a == 9) throw Ex(9); } };
SCENARIO(emplaced, vs_opt().bound(3, 4).leak()) { { promise<Two> p; fut<Two> f(p.get_future()); int k = vs_choose(4); vs_t a([&] { if (k == 2) { int r = OKOF(p.emplace(9, MO(new int(1)))); vs_assert_msg(r == EXC + 9 && !f.is_ready(), "a result that was not constructed gave %d", r); } if (k == 3) p.set_exception(Ex(3)); int r = OKOF(p.emplace(4, MO(new int(5)))); vs_assert_msg(r == (k == 3 ? (int)SATISFIED : (int)OK), "emplace gave %d", r); vs_assert_msg(OKOF(p.emplace(6, MO(new int(7)))) == SATISFIED, "a second result was accepted"); vs_assert(OKOF(p.set_exception(Ex(1))) == SATISFIED); });
    if (k == 1) f.wait(); int r = outcome([&] { Two t(f.get()); vs_assert(t.o.self == &t.o); return t.o.v * 10 + t.b; }); vs_assert_msg(r == (k == 3 ? EXC + 3 : 45), "the future gave %d", r); a.join(); } vs_assert_msg(!vs_get(LIVE), "%ld results never destroyed", vs_get(LIVE)); }
