// O01: call_once
#include "vsh.hpp"
#include <boost/thread/once.hpp>
#include <boost/thread/thread_only.hpp>
#include <new>
using namespace boost;
struct Boom { int who; Boom(int w) : who(w) {} };
enum { RUNNING = 0, DONE = 1, ATT = 2, COMPL = 3, CAUGHT = 4 };
struct Flag { once_flag f; Flag() : f() {} };
struct Obj { int a, b; Obj() : a(0), b(0) {} };
// the body: never two at once, never after a completion
static void enter(int base = 0) { vs_assert_msg(vs_add(base + RUNNING, 1) == 1, "the function runs twice at the same time"); vs_assert_msg(!vs_get(base + DONE), "the function runs again after it completed"); vs_add(base + ATT, 1); }
static void leave(bool ok, int base = 0) { vs_add(base + RUNNING, -1); if (ok) { vs_set(base + DONE, 1); vs_add(base + COMPL, 1); } }
// one caller; the function throws while `fail` > 0
static void caller(Flag& f, Obj& o, int& fail, int me) {
    try { call_once(f.f, [&] { enter(); vs_point(); o.a++; if (fail > 0) { fail--; leave(false); throw Boom(me); } o.b = 7; leave(true); }); 
          vs_assert_msg(vs_get(DONE) == 1, "call_once returned before a completion"); vs_assert_msg(o.b == 7, "the effect of the function is not visible"); }
    catch (Boom& b) { vs_assert_msg(b.who == me, "the exception reached another caller"); vs_add(CAUGHT, 1); }
}
template <int N> void many() {
    Flag f; Obj o; int fail = vs_choose(N + 1), f0 = fail; int id[N];
    for (int i = 0; i < N; i++) id[i] = vs_spawn([&, i] { caller(f, o, fail, i); }); for (int i = 0; i < N; i++) vs_pthread_join(id[i]);
    vs_assert_msg(vs_get(CAUGHT) == f0 && vs_get(ATT) == (f0 < N ? f0 + 1 : N), "%d callers, %d failures: %ld attempts, %ld exceptions", N, f0, vs_get(ATT), vs_get(CAUGHT));
    vs_assert(vs_get(COMPL) == (f0 < N)); int none = 0; caller(f, o, none, 9); vs_assert(vs_get(COMPL) == 1 && o.b == 7);
}
SCENARIO(two, vs_opt().bound(6, 12).spurious(1)) { many<2>(); }
SCENARIO(three, vs_opt().bound(3, 4).spurious(1)) { many<3>(); }
SCENARIO(four, vs_opt().bound(2, 3)) { many<4>(); }
// threads that have used other flags before (the fast path must not confuse flags)
SCENARIO(several_flags, vs_opt().bound(4, 6)) {
    Flag f[3]; Obj o[3]; auto use = [&](int k) { call_once(f[k].f, [&] { enter(8 * k); o[k].a = 1; vs_point(); o[k].b = 2; leave(true, 8 * k); }); vs_assert_msg(vs_get(8 * k + DONE) && o[k].a == 1 && o[k].b == 2, "flag %d: returned before the completion", k); };
    vs_run([&] { use(0); use(1); use(2); }, [&] { use(2); use(1); use(0); }); for (int k = 0; k < 3; k++) vs_assert(vs_get(8 * k + COMPL) == 1);
}
SCENARIO(several_flags_three, vs_opt().bound(2, 4)) {
    Flag f[2]; Obj o[2]; int fail = vs_choose(2); auto use = [&](int k) { try { call_once(f[k].f, [&] { enter(8 * k); o[k].a = 1; if (k == 0 && fail) { fail = 0; leave(false, 0); throw Boom(1); } o[k].b = 2; leave(true, 8 * k); }); vs_assert_msg(vs_get(8 * k + DONE) && o[k].b == 2, "flag %d: returned before the completion", k); } catch (Boom&) {} };
    vs_run([&] { use(0); use(1); }, [&] { use(1); use(0); }, [&] { use(0); }); use(0); for (int k = 0; k < 2; k++) vs_assert(vs_get(8 * k + COMPL) == 1);
}
// a function that itself uses another flag, and failing inside
SCENARIO(nested, vs_opt().bound(4, 6)) {
    Flag f, g; Obj o; int fail = vs_choose(2); auto inner = [&] { call_once(g.f, [&] { enter(8); o.a = 5; if (fail) { fail = 0; leave(false, 8); throw Boom(0); } leave(true, 8); }); vs_assert(o.a == 5); };
    auto outer = [&] { try { call_once(f.f, [&] { enter(0); try { inner(); } catch (Boom&) { leave(false, 0); throw; } o.b = o.a; leave(true, 0); }); vs_assert_msg(vs_get(DONE) && o.b == 5, "returned before the completion"); } catch (Boom&) { vs_add(CAUGHT, 1); } };
    vs_run(outer, outer, [&] { try { inner(); } catch (Boom&) { vs_add(CAUGHT, 1); } }); outer(); vs_assert(vs_get(COMPL) == 1 && vs_get(8 + COMPL) == 1);
}
// single thread: every sequence of success and failure; arguments are passed on
struct Rec { int sum; void add(int x, int y) { sum += x * 10 + y; } Rec() : sum(0) {} };
static void fn(Rec* r, int a) { r->sum += a; }
struct Cnt { int* n; Cnt(int* n) : n(n) {} void operator()() { ++*n; } void operator()(int a, int b, int c) { *n += a + b * 10 + c * 100; } };
SCENARIO(sequence, vs_opt().bound(0, 0)) {
    Flag f[2]; int runs[2] = {0, 0}; bool done[2] = {false, false}; for (int i = 0; i < 5; i++) { int k = vs_choose(2); bool th = vs_choose(2), got = false, ran = false; try { call_once(f[k].f, [&] { ran = true; if (th) throw Boom(i); }); } catch (Boom& b) { got = true; vs_assert(b.who == i); } vs_assert(ran == !done[k] && got == (ran && th)); if (ran && !th) done[k] = true; }
}
SCENARIO(arguments, vs_opt().bound(0, 0)) { Rec r; int n = 0; { Flag f; call_once(f.f, &fn, &r, 3); call_once(f.f, &fn, &r, 4); vs_assert(r.sum == 3); } { Flag f; Cnt c(&n); call_once(f.f, c); call_once(f.f, c); vs_assert(n == 1); } { Flag f; call_once(f.f, Cnt(&n), 1, 2, 3); vs_assert(n == 322); } { Flag f; call_once(f.f, &Rec::add, &r, 1, 2); vs_assert(r.sum == 15); } }
// statically initialised flags
SCENARIO(static_flag, vs_opt().bound(5, 8)) {
    alignas(once_flag) static char mem[sizeof(once_flag)]; once_flag& f = *new (mem) once_flag(); Obj o;
    auto t = [&] { call_once(f, [&] { enter(); o.a = 1; vs_point(); o.b = 2; leave(true); }); vs_assert(o.a == 1 && o.b == 2); }; vs_run(t, t); vs_assert(vs_get(COMPL) == 1); }
// in library threads; an interruption of the function is a failure like any other
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
SCENARIO(interrupted_function, vs_opt().bound(3, 4)) {
    Flag f; Obj o; auto run = [&] { call_once(f.f, [&] { enter(); try { this_thread::interruption_point(); } catch (...) { leave(false); throw; } o.a = 1; o.b = 2; leave(true); }); vs_assert(o.b == 2); };
    thread a(run), b(run); a.interrupt(); a.join(); b.join(); vs_assert(vs_get(COMPL) == 1);
}
#endif
