// E02: serial executors
#include "ex.hpp"
using boost::executors::serial_executor; using boost::executors::serial_executor_cont;
// order of the tasks: task i of a submitter after its predecessor, none overlapping, each seeing the last one's plain writes
struct Log { int n, who[8]; Log() : n(0) {} };
static Log* LG;
struct STask { Log* l; int i; Obj o; STask(Log* l, int i) : l(l), i(i), o(i) {} void operator()() { vs_assert_msg(vs_add(BUSYX, 1) == 1, "two tasks at once"); vs_assert(o.v == i); int k = l->n; vs_point(); l->who[k] = i; l->n = k + 1; ran(i); vs_add(BUSYX, -1); } };
template <class X> static bool put(X& x, Log& l, int i) { bool ok = true; try { x.submit(STask(&l, i)); } catch (boost::sync_queue_is_closed&) { ok = false; } vs_set(ACC0 + i, ok); return ok; }
static void order(Log& l, int first, int last) { int at = -1; for (int i = first; i <= last; i++) { if (!vs_get(ACC0 + i)) continue; int p = -1; for (int k = 0; k < l.n; k++) if (l.who[k] == i) p = k; vs_assert_msg(p > at, "task %d ran out of order", i); at = p; } }
static void total(Log& l, int n) { int c = 0; for (int i = 0; i < n; i++) c += vs_get(ACC0 + i); vs_assert_msg(l.n == c, "%d tasks recorded of %d", l.n, c); all_ran(n); }
#ifndef VS_CONT
typedef serial_executor SX;
#else
typedef serial_executor_cont SX;
#endif
SCENARIO(pool1, vs_opt().bound(2, 3).leak().secs(40, 300)) { { Log l; { basic_thread_pool p(1); { SX s(p); put(s, l, 0); put(s, l, 1); }  total(l, 2); } total(l, 2); order(l, 0, 1); } clean(); }
SCENARIO(pool2, vs_opt().bound(2, 3).leak().secs(40, 300)) { { Log l; { basic_thread_pool p(2); { SX s(p); put(s, l, 0); put(s, l, 1); } } total(l, 2); order(l, 0, 1); } clean(); }
SCENARIO(pool2_three, vs_opt().bound(1, 2).leak().secs(40, 300)) { { Log l; { basic_thread_pool p(2); { SX s(p); for (int i = 0; i < 3; i++) put(s, l, i); } } total(l, 3); order(l, 0, 2); } clean(); }
SCENARIO(submitters, vs_opt().bound(1, 2).leak().secs(40, 300)) { { Log l; { basic_thread_pool p(2); { SX s(p); vs_run([&] { put(s, l, 0); put(s, l, 1); }, [&] { put(s, l, 2); }); } } total(l, 3); order(l, 0, 1); } clean(); }
SCENARIO(submitters1, vs_opt().bound(2, 3).leak().secs(40, 300)) { { Log l; { basic_thread_pool p(1); { SX s(p); vs_t t([&] { put(s, l, 0); put(s, l, 1); }); put(s, l, 2); t.join(); } } total(l, 3); order(l, 0, 1); } clean(); }
SCENARIO(close_race, vs_opt().bound(2, 3).leak().secs(40, 300)) { { Log l; { basic_thread_pool p(1); { SX s(p); vs_t t([&] { put(s, l, 0); put(s, l, 1); }); s.close(); vs_assert(s.closed() && !put(s, l, 2)); t.join(); } } total(l, 3); order(l, 0, 1); } clean(); }
SCENARIO(forms, vs_opt().bound(1, 2).leak().secs(40, 300)) { { { basic_thread_pool p(1 + vs_choose(2)); { SX s(p); vs_assert(!s.closed()); sub(s, vs_choose(NSUB), 0); sub(s, vs_choose(NSUB), 1); s.close(); vs_assert(s.closed() && !sub(s, vs_choose(NSUB), 2)); } } all_ran(3); } clean(); }
SCENARIO(visible, vs_opt().bound(2, 3).leak().secs(40, 300)) { Data d; { basic_thread_pool p(2); { SX s(p); s.submit([&] { d.bump(); }); s.submit([&] { d.bump(); }); } } vs_assert(d.a == 2); d.check(); }
// two serial executors over the same pool do not disturb each other
SCENARIO(two_serial, vs_opt().bound(1, 2).leak().secs(40, 300)) { Data a, b; { basic_thread_pool p(1); { SX s(p), t(p); s.submit([&] { a.bump(); }); t.submit([&] { b.bump(); }); s.submit([&] { a.bump(); }); } } vs_assert(a.a == 2 && b.a == 1); }
// other underlying executors, and the polymorphic one
SCENARIO(on_threads, vs_opt().bound(1, 2).leak().secs(40, 300)) { { Log l; { boost::executors::thread_executor p; { SX s(p); put(s, l, 0); put(s, l, 1); } } total(l, 2); order(l, 0, 1); } clean(); }
SCENARIO(on_inline, vs_opt().bound(1, 2).leak().secs(40, 300)) { { Log l; { boost::executors::inline_executor p; { SX s(p); put(s, l, 0); put(s, l, 1); } } total(l, 2); order(l, 0, 1); } clean(); }
SCENARIO(on_loop, vs_opt().bound(2, 3).leak().secs(40, 300)) { { Log l; { boost::executors::loop_executor p; vs_t t([&] { p.loop(); }); { SX s(p); put(s, l, 0); put(s, l, 1);} p.close(); t.join(); } total(l, 2); order(l, 0, 1); } clean(); }
SCENARIO(on_serial, vs_opt().bound(1, 1).leak().secs(40, 300)) { { Log l; { basic_thread_pool p(1); { serial_executor o(p); { SX s(o); put(s, l, 0); put(s, l, 1);} } } total(l, 2); order(l, 0, 1); } clean(); }
SCENARIO(faces, vs_opt().bound(1, 2).leak().secs(40, 300)) { { Log l; { basic_thread_pool p(2); int k = vs_choose(2); if (k == 0) { SX s(p); boost::executors::generic_executor_ref r(s); put(r, l, 0); put(r, l, 1); r.close(); vs_assert(r.closed() && !put(r, l, 2)); } else { boost::executors::generic_executor_ref g(p); SX s(g); put(s, l, 0); put(s, l, 1); vs_assert(!s.underlying_executor().closed()); } } all_ran(2); order(l, 0, 1); } clean(); }
SCENARIO(idle, vs_opt().bound(2, 3).leak()) { { basic_thread_pool p(1); { SX s(p); } } vs_quiesce(); vs_assert(vs_nthreads_alive() == 1); }
// a task that submits to its own serial executor
SCENARIO(nested, vs_opt().bound(1, 2).leak().secs(40, 300)) { { Log l; { basic_thread_pool p(1 + vs_choose(2)); { SX s(p); s.submit([&] { put(s, l, 1); ran(0); }); vs_await(RAN0 + 1, 1); } } order(l, 0, 1); vs_assert(l.n == 1); } clean(); }
