// F03: packaged_task
#include "fut.hpp"
using boost::packaged_task; using boost::future_status; using boost::thread;
#if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
template <class R> struct PT_ { typedef packaged_task<R()> t; };
#else
template <class R> struct PT_ { typedef packaged_task<R> t; };
#endif
template <class R> using PT = typename PT_<R>::t;
enum { RUNS = 1, BEGUN = 2, ENDED = 3, DONE = 4, FLIVE = 61, THROWS = 5 };
// the function: counts its runs, moves only, knows whether it is alive
template <class T> struct Fn { int v; Fn* self; Data* d; explicit Fn(int x, Data* dd = 0) : v(x), self(this), d(dd) { vs_add(FLIVE, 1); } Fn(Fn&& o) : v(o.v), self(this), d(o.d) { vs_assert(o.self == &o); o.v = -1; vs_add(FLIVE, 1); } ~Fn() { vs_assert_msg(self == this, "function destroyed twice"); self = 0; vs_add(FLIVE, -1); }
    T operator()() { vs_assert_msg(self == this && v >= 0, "the function called is not alive"); vs_add(RUNS, 1); vs_set(BEGUN, 1); if (d) d->bump(); vs_point(); int k = vs_get(THROWS); vs_set(ENDED, 1); if (k) throw Ex(v); return K<T>::mk(v); } };
template <class T> static int want(int v) { return vs_get(THROWS) ? EXC + v : K<T>::hasv ? v : 0; }
// one of several threads that invoke a task runs it; a waiter gets the outcome
template <class T, int N> static void invoke() { { Data d; PT<T> p(Fn<T>(7, &d)); fut<T> f(p.get_future()); vs_set(THROWS, vs_choose(2)); int r[N], id[N]; vs_assert(OKOF(p.get_future()) == RETRIEVED); vs_assert(p.valid() && f.valid() && !f.is_ready());
    int w = vs_spawn([&] { fut<T> g(boost::move(f)); int x = fetch<T>(g); vs_assert_msg(vs_get(ENDED), "ready before the function ended"); vs_assert_msg(x == want<T>(7), "the future gave %d", x); vs_assert_msg(d.a == 1, "the effects of the function are not visible"); });
    for (int i = 0; i < N; i++) id[i] = vs_spawn([&, i] { r[i] = OKOF(p()); }); for (int i = 0; i < N; i++) vs_pthread_join(id[i]); vs_pthread_join(w); int ok = 0; for (int i = 0; i < N; i++) { vs_assert_msg(r[i] == OK || r[i] == STARTED, "invocation gave %d", r[i]); ok += r[i] == OK; } vs_assert_msg(ok == 1 && vs_get(RUNS) == 1, "%d invocations accepted, %ld runs", ok, vs_get(RUNS)); vs_assert(OKOF(p()) == STARTED && vs_get(RUNS) == 1); } vs_assert_msg(!vs_get(LIVE) && !vs_get(FLIVE), "results or functions left alive"); }
SCENARIO(invoke_1_obj, vs_opt().bound(4, 6).spurious(1).leak()) { invoke<Obj, 1>(); }
SCENARIO(invoke_1_mo, vs_opt().bound(3, 5).leak()) { invoke<MO, 1>(); }
SCENARIO(invoke_1_ref, vs_opt().bound(3, 5).leak()) { invoke<int&, 1>(); }
SCENARIO(invoke_1_void, vs_opt().bound(3, 5).leak()) { invoke<void, 1>(); }
SCENARIO(invoke_2_obj, vs_opt().bound(3, 4).leak()) { invoke<Obj, 2>(); }
SCENARIO(invoke_2_void, vs_opt().bound(3, 4).leak()) { invoke<void, 2>(); }
SCENARIO(invoke_2_ref, vs_opt().bound(2, 3).leak()) { invoke<int&, 2>(); }
SCENARIO(invoke_3, vs_opt().bound(1, 2).leak()) { invoke<int, 3>(); }
// a task that is never invoked breaks its promise, however it goes; waiters leave
template <class T> static void dropped() { { vs_set(THROWS, 0); int how = vs_choose(6), wf = vs_choose(3); std::unique_ptr<PT<T>> p(new PT<T>(Fn<T>(1))), q; fut<T> f(p->get_future()); if (how == 3) { q.reset(new PT<T>(boost::move(*p))); vs_assert(!p->valid() && q->valid() && OKOF((*p)()) == MOVED && OKOF(p->get_future()) == MOVED && OKOF(p->reset()) == MOVED); }
    int w = vs_spawn([&] { fut<T> g(boost::move(f)); if (wf == 1) g.wait(); if (wf == 2) { bool r = g.wait_for(ms(FAR_)) == future_status::ready; vs_assert(r || vs_forced_tick()); } int r = fetch<T>(g); vs_assert_msg(vs_get(BEGUN) == 0 && r == BROKEN, "an abandoned task: the future gave %d", r); });
    switch (how) { case 0: p.reset(); break; case 1: *p = PT<T>(Fn<T>(2)); break; case 2: p->reset(); break; case 3: q.reset(); break; case 4: { PT<T> x; x.swap(*p); vs_assert(!p->valid() && x.valid()); break; } case 5: *p = PT<T>(); vs_assert(!p->valid()); break; } vs_pthread_join(w);
    if (how == 1 || how == 2) { fut<T> g(p->get_future()); (*p)(); vs_assert(vs_get(RUNS) == 1 && fetch<T>(g) == want<T>(how == 1 ? 2 : 1)); } } vs_assert(!vs_get(LIVE) && !vs_get(FLIVE)); }
SCENARIO(dropped_obj, vs_opt().bound(3, 5).spurious(1).leak()) { dropped<Obj>(); }
SCENARIO(dropped_void, vs_opt().bound(3, 5).spurious(1).leak()) { dropped<void>(); }
SCENARIO(dropped_ref, vs_opt().bound(3, 4).leak()) { dropped<int&>(); }
SCENARIO(dropped_mo, vs_opt().bound(3, 4).leak()) { dropped<MO>(); }
// reset while somebody still uses the previous result
template <class T> static void reuse() { { vs_set(THROWS, vs_choose(2)); int thr0 = vs_get(THROWS); PT<T> p(Fn<T>(3)); shared_future<T> f(p.get_future()); p(); vs_t a([&] { shared_future<T> g(f); vs_assert_msg(g.is_ready(), "reset made a ready future not ready"); int r = fetch<T>(g); vs_assert_msg(r == (thr0 ? EXC + 3 : val<T>(3)), "the result of the first run changed: %d", r); });
    vs_t b([&] { p.reset(); vs_set(THROWS, !thr0); fut<T> g(p.get_future()); vs_assert_msg(!g.is_ready(), "the future of a reset task is ready"); vs_assert(g.wait_for(ms(1)) == future_status::timeout); vs_assert(OKOF(p.get_future()) == RETRIEVED); p(); vs_assert(g.is_ready()); int r = fetch<T>(g); vs_assert_msg(r == (thr0 ? val<T>(3) : EXC + 3), "the second run gave %d", r); }); a.join(); b.join(); vs_assert(fetch<T>(f) == (thr0 ? EXC + 3 : val<T>(3)) && vs_get(RUNS) == 2); } vs_assert(!vs_get(LIVE) && !vs_get(FLIVE)); }
SCENARIO(reuse_obj, vs_opt().bound(3, 5).leak()) { reuse<Obj>(); }
SCENARIO(reuse_int, vs_opt().bound(3, 5).leak()) { reuse<int>(); }
SCENARIO(reuse_ref, vs_opt().bound(2, 4).leak()) { reuse<int&>(); }
SCENARIO(reuse_void, vs_opt().bound(2, 4).leak()) { reuse<void>(); }
// a wait callback may run the task; competing waiters
SCENARIO(callback, vs_opt().bound(3, 4).leak()) { { PT<Obj> p(Fn<Obj>(4)); shared_future<Obj> s(p.get_future()); int wf = vs_choose(2); auto cb = [](PT<Obj>& q) { int r = OKOF(q()); vs_assert(r == OK || r == STARTED); }; p.set_wait_callback(+cb); vs_assert(!s.is_ready()); auto w = [&] { shared_future<Obj> c(s); if (wf) { c.wait_for(ms(FAR_)); vs_assert(c.is_ready() || vs_forced_tick()); } vs_assert(fetch<Obj>(c) == 4); }; vs_run(w, w); vs_assert(vs_get(RUNS) == 1); p.reset(); fut<Obj> g(p.get_future()); vs_assert(fetch<Obj>(g) == 4); } vs_assert(!vs_get(LIVE) && !vs_get(FLIVE)); }
// in a thread of its own
SCENARIO(in_thread, vs_opt().bound(3, 5).leak()) { { vs_set(THROWS, vs_choose(2)); PT<Obj> p(Fn<Obj>(6)); fut<Obj> f(p.get_future()); int det = vs_choose(2); { thread t(boost::move(p)); vs_assert(!p.valid()); if (det) t.detach(); else { t.join(); vs_assert(f.is_ready()); } } vs_assert(fetch<Obj>(f) == want<Obj>(6)); vs_assert(vs_get(RUNS) == 1); vs_quiesce(); } vs_assert(!vs_get(LIVE) && !vs_get(FLIVE)); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
SCENARIO(interrupted, vs_opt().bound(3, 5)) { PT<int> p([] { boost::this_thread::sleep_for(ms(FAR_)); vs_assert(vs_forced_tick()); return 1; }); fut<int> f(p.get_future()); thread t(boost::move(p)); t.interrupt(); t.join(); vs_assert_msg(fetch<int>(f) == INTR || vs_forced_tick(), "an interrupted task must make its future ready"); }
#endif
// results that cannot be stored
struct Bomb { int v; Bomb(int x) : v(x) {} Bomb& operator=(const Bomb&) = default; Bomb(const Bomb& o) : v(o.v) { if (vs_get(10) > 0) { vs_add(10, -1); throw Ex(90); } } Bomb(Bomb&& o) : v(o.v) { if (vs_get(10) > 0) { vs_add(10, -1); throw Ex(90); } } };
SCENARIO(bad_result, vs_opt().bound(1, 2).leak()) { PT<Bomb> p([] { return Bomb(1); }); fut<Bomb> f(p.get_future()); vs_t w([&] { f.wait(); }); vs_set(10, 1 + vs_choose(2)); int r = OKOF(p()); vs_set(10, 0); vs_assert(r == OK); w.join(); r = outcome([&] { return f.get().v; }); vs_assert_msg(r == EXC + 90 || r == 1, "a result that could not be stored: %d", r); }
static int fp_int() { vs_add(RUNS, 1); if (vs_get(THROWS)) throw Ex(7); return 7; } static void fp_void() { vs_add(RUNS, 1); if (vs_get(THROWS)) throw Ex(7); } static int& fp_ref() { vs_add(RUNS, 1); if (vs_get(THROWS)) throw Ex(7); return cells[7]; }
template <class T> static void fptr(T (*fp)()) { vs_set(THROWS, vs_choose(2)); PT<T> p(fp), q; fut<T> f(p.get_future()); q = boost::move(p); q(); vs_assert(OKOF(q()) == STARTED && vs_get(RUNS) == 1); vs_assert(fetch<T>(f) == want<T>(7)); q.reset(); f = q.get_future(); vs_assert(!f.is_ready()); q(); vs_assert(fetch<T>(f) == want<T>(7) && vs_get(RUNS) == 2); }
SCENARIO(pointer_int, vs_opt().bound(0, 0).leak()) { fptr<int>(fp_int); }
SCENARIO(pointer_void, vs_opt().bound(0, 0).leak()) { fptr<void>(fp_void); }
SCENARIO(pointer_ref, vs_opt().bound(0, 0).leak()) { fptr<int&>(fp_ref); }
// every history of one thread over two tasks, against a model
struct Mdl { enum { NST = 24, NONE = -100 }; PT<Obj> p[2]; int st[2]; int fnv[2]; int out[NST]; bool started[NST], got[NST]; int n; shared_future<Obj> f[NST]; int runs;
    Mdl() : n(0), runs(0) { for (int i = 0; i < 2; i++) { p[i] = PT<Obj>(Fn<Obj>(i)); st[i] = fresh(); fnv[i] = i; } }
    int fresh() { out[n] = NONE; started[n] = got[n] = false; return n++; }
    void die(int s) { if (s >= 0 && !started[s]) { started[s] = true; out[s] = BROKEN; } }
    void step() { int op = vs_choose(8), i = vs_choose(2), s = st[i];
        switch (op) {
        case 0: { int th = vs_choose(2); vs_set(THROWS, th); int r = OKOF(p[i]()); if (s < 0) vs_assert(r == MOVED); else if (started[s]) vs_assert_msg(r == STARTED, "second invocation gave %d", r); else { vs_assert(r == OK); started[s] = true; out[s] = th ? EXC + fnv[i] : fnv[i]; runs++; } break; }
        case 1: { fut<Obj> g; int r = OKOF(g = p[i].get_future()); if (s < 0) vs_assert(r == MOVED); else if (got[s]) vs_assert(r == RETRIEVED); else { vs_assert_msg(r == OK, "get_future gave %d", r); got[s] = true; f[s] = shared_future<Obj>(boost::move(g)); } break; }
        case 2: { int r = OKOF(p[i].reset()); if (s < 0) vs_assert(r == MOVED); else { vs_assert(r == OK); die(s); st[i] = fresh(); } break; }
        case 3: p[i] = boost::move(p[1 - i]); die(s); st[i] = st[1 - i]; fnv[i] = fnv[1 - i]; st[1 - i] = -1; break;
        case 4: if (i) vs_cut(); if (vs_choose(2)) p[0].swap(p[1]); else { using boost::swap; swap(p[0], p[1]); } std::swap(st[0], st[1]); std::swap(fnv[0], fnv[1]); break;
        case 5: { PT<Obj> x(boost::move(p[i])); vs_assert(!p[i].valid() && x.valid() == (s >= 0)); die(s); st[i] = -1; break; }
        case 6: p[i] = PT<Obj>(Fn<Obj>(10 + runs)); die(s); st[i] = fresh(); fnv[i] = 10 + runs; break;
        case 7: { PT<Obj> x; vs_assert(!x.valid()); p[i].swap(x); p[i] = boost::move(x); break; }
        }
        vs_assert_msg(vs_get(RUNS) == runs, "op %d: %ld runs, expected %d", op, vs_get(RUNS), runs); for (int k = 0; k < 2; k++) vs_assert(p[k].valid() == (st[k] >= 0));
        for (int k = 0; k < n; k++) if (got[k]) { vs_assert_msg(f[k].is_ready() == (out[k] != NONE), "op %d: future %d is_ready() is %d", op, k, f[k].is_ready()); if (out[k] != NONE) { int r = fetch<Obj>(f[k]); vs_assert_msg(r == out[k], "op %d: future %d gave %d, expected %d", op, k, r, out[k]); } } } };
SCENARIO(history, vs_opt().bound(0, 0).leak().secs(40, 300)) { { Mdl m; int n = vs_thorough() ? 5 : 4; for (int i = 0; i < n; i++) m.step(); } vs_assert_msg(!vs_get(LIVE) && !vs_get(FLIVE), "%ld results, %ld functions left", vs_get(LIVE), vs_get(FLIVE)); }
#ifdef VS_V4
// arguments reach the function unchanged
static int sum3(int a, const Obj& b, MO c) { vs_add(RUNS, 1); return a + b.v + *c; }
SCENARIO(arguments, vs_opt().bound(0, 0).leak()) { { packaged_task<int(int, Obj, MO)> p([](int a, Obj b, MO c) { vs_assert(b.self == &b); return sum3(a, b, std::move(c)); }); fut<int> f(p.get_future()); Obj o(20); p(1, o, MO(new int(300))); vs_assert(o.v == 20 && fetch<int>(f) == 321 && OKOF(p(1, o, MO(new int(1)))) == STARTED && vs_get(RUNS) == 1); p.reset(); f = p.get_future(); p(2, o, MO(new int(5))); vs_assert(fetch<int>(f) == 27); } vs_assert(!vs_get(LIVE)); }
#endif
#if defined BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
// states from an allocator
template <class T> static void allocated() { { vs_set(THROWS, vs_choose(2)); int fail = vs_choose(2), how = vs_choose(4); vs_set(AFAIL, fail); std::unique_ptr<PT<T>> p; int r = OKOF(p.reset(new PT<T>(boost::allocator_arg, CA<int>(), Fn<T>(7)))); vs_set(AFAIL, 0); vs_assert(fail ? r == OTHER && !vs_get(ALLOCD) && !vs_get(FLIVE) : r == OK && vs_get(ALLOCD) == 1); if (!fail) { fut<T> f(p->get_future()); vs_assert(OKOF(p->get_future()) == RETRIEVED); vs_t a([&] { if (how == 1) { PT<T> q(boost::move(*p)); q(); } else if (how != 2) (*p)(); if (how == 3) { p->reset(); fut<T> g(p->get_future()); vs_assert(!g.is_ready()); (*p)(); vs_assert(fetch<T>(g) == want<T>(7)); } p.reset(); }); { fut<T> g(boost::move(f)); int x = fetch<T>(g); vs_assert_msg(x == (how == 2 ? (int)BROKEN : want<T>(7)), "the future gave %d", x); } a.join(); } } vs_assert_msg(!vs_get(LIVE) && !vs_get(ALLOCD) && !vs_get(FLIVE), "%ld states never freed", vs_get(ALLOCD)); }
SCENARIO(allocated_obj, vs_opt().bound(3, 4).leak()) { allocated<Obj>(); }
SCENARIO(allocated_void, vs_opt().bound(2, 3).leak()) { allocated<void>(); }
static int fp_alloc() { return 3; }
SCENARIO(allocated_pointer, vs_opt().bound(1, 2).leak()) { { PT<int> p(boost::allocator_arg, CA<int>(), fp_alloc); fut<int> f(p.get_future()); p(); vs_assert(fetch<int>(f) == 3 && vs_get(ALLOCD) == 1); } vs_assert(!vs_get(ALLOCD)); }
#endif
