// T03: at_thread_exit functions
#include "vsh.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/condition_variable.hpp>
using namespace boost;
enum { BODY = 1, JOINED = 2, OUT = 3, COPIES = 4, NREG = 5, TSS = 6, GO = 7, RUNS = 10 };   // RUNS+k: runs of function k
static long tid_of[2];
// an exit function; it may register others
struct X { int k, kids, how; long tid; X(int k, int kids, int how) : k(k), kids(kids), how(how), tid(vs_self()) { vs_add(COPIES, 1); } X(X const& o) : k(o.k), kids(o.kids), how(o.how), tid(o.tid) { vs_add(COPIES, 1); } ~X() { vs_add(COPIES, -1); }
    void operator()() const {
        vs_assert_msg(vs_self() == tid, "exit function %d ran in another thread", k); vs_assert_msg(vs_get(BODY + 20 + (int)tid) == 1, "exit function %d ran before the thread function ended", k); vs_assert_msg(!vs_get(JOINED), "exit function %d ran after join returned", k);
        vs_assert_msg(vs_add(RUNS + k, 1) == 1, "exit function %d ran twice", k); vs_point();
        for (int i = 0; i < kids; i++) this_thread::at_thread_exit(X(vs_add(NREG, 1) - 1, 0, 0)); } };
static void cleanup(int* p) { vs_add(TSS, 1); if (*p) this_thread::at_thread_exit(X(vs_add(NREG, 1) - 1, 0, 0)); delete p; }
static void check() { for (int k = 0; k < vs_get(NREG); k++) vs_assert_msg(vs_get(RUNS + k) == 1, "exit function %d ran %ld times", k, vs_get(RUNS + k)); vs_assert_msg(vs_get(COPIES) == 0, "%ld copies of exit functions are left", vs_get(COPIES)); }
static void reg(int kids) { this_thread::at_thread_exit(X(vs_add(NREG, 1) - 1, kids, 0)); }
// every program of up to `len` steps: register, register with children, set a tss value whose cleanup registers or not
static void program(int len, thread_specific_ptr<int>* p, int np) {
    for (int i = 0; i < len; i++) switch (int c = vs_choose(4 + 2 * np)) {
        case 0: i = len; break; case 1: reg(0); break; case 2: reg(1); break; case 3: reg(2); break;
        default: c -= 4; p[c / 2].reset(new int(c % 2)); }
    vs_assert_msg(!vs_get(RUNS) && !vs_get(RUNS + 1), "an exit function ran at its registration"); vs_set(BODY + 20 + vs_self(), 1); }
struct Ptr { thread_specific_ptr<int> p; Ptr() : p(&cleanup) {} };
template <bool LIB> static void single(int len) {
    alignas(16) char mem[2 * sizeof(thread_specific_ptr<int>)]; thread_specific_ptr<int>* p = (thread_specific_ptr<int>*)mem; for (int i = 0; i < 2; i++) new (p + i) thread_specific_ptr<int>(&cleanup);
    if (LIB) { thread t([&] { program(len, p, 2); }); t.join(); } else { vs_t t([&] { program(len, p, 2); }); t.join(); }
    vs_set(JOINED, 1); check(); for (int i = 0; i < 2; i++) p[i].~thread_specific_ptr<int>();
}
SCENARIO(programs, vs_opt().bound(0, 0).leak().secs(30, 300)) { single<true>(vs_thorough() ? 5 : 4); }
SCENARIO(programs_foreign, vs_opt().bound(0, 0).leak().secs(30, 300)) { single<false>(vs_thorough() ? 5 : 4); }
// with the joiner and another thread racing; ways to end: 0 normal, 1 interrupted at a point, 2 interrupted, ending in a wait
template <bool LIB> static void race() {
    Ptr P; Data d; int how = LIB ? vs_choose(3) : 0; auto body = [&] { reg(1); P.p.reset(new int(1)); struct W { Data* d; void operator()() const { d->bump(); } }; this_thread::at_thread_exit(W{&d}); vs_set(BODY + 20 + vs_self(), 1);
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
        if (how == 1) { vs_await(GO, 1); this_thread::interruption_point(); vs_fail("not interrupted"); } if (how == 2) { mutex m; unique_lock<mutex> l(m); condition_variable c; for (;;) c.wait(l); }
#endif
        };
    auto other = [&] { vs_assert(P.p.get() == 0); reg(0); P.p.reset(new int(0)); vs_set(BODY + 20 + vs_self(), 1); };
    if (LIB) { thread t(body), u(other); 
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
        if (how) { t.interrupt(); vs_set(GO, 1); }
#endif
        t.join(); vs_assert_msg(d.a == 1, "join returned before the exit functions ran"); d.check(); u.join(); }
    else { vs_t t(body), u(other); t.join(); u.join(); }
    d.check(); vs_assert(d.a == 1); vs_set(JOINED, 1); check(); vs_assert_msg(vs_get(TSS) == 2, "%ld of 2 thread-specific values cleaned up", vs_get(TSS));
}
SCENARIO(racing, vs_opt().bound(2, 4).leak()) { race<true>(); }
SCENARIO(racing_foreign, vs_opt().bound(3, 4).leak()) { race<false>(); }
// timed joins and detached threads
SCENARIO(detached, vs_opt().bound(3, 5).leak()) { thread t([] { reg(1); vs_set(BODY + 20 + vs_self(), 1); }); int k = vs_choose(2); bool done = false; if (k) { done = t.try_join_for(ms(DL)); if (done) { vs_set(JOINED, 1); check(); } } if (!done) t.detach(); vs_quiesce(); check(); }
// exit functions may use the library: join a thread, use tss, wait
SCENARIO(exit_function_uses_threads, vs_opt().bound(2, 3).leak()) {
    Data d; Ptr P; thread t([&] { this_thread::at_thread_exit([&] { vs_assert_msg(!vs_get(OUT), "ran twice"); P.p.reset(new int(0)); thread u([&] { d.bump(); }); u.join(); d.bump(); vs_add(OUT, 1); }); }); t.join(); vs_assert_msg(vs_get(OUT) == 1, "the exit function did not run before join returned"); d.check(); vs_assert(d.a == 2); vs_assert_msg(vs_get(TSS) == 1, "a value stored by an exit function was not cleaned up"); }
// long chains: every exit function (or cleanup) registers the next one
enum { DEPTH = 7, CHAIN = 60 };
static thread_specific_ptr<int>* chq;
static void link(int n, int mode);
struct Link { int n, mode; void operator()() const { link(n, mode); } };
static void chain_clean(int* p) { int c = *p; delete p; link(c >> 2, c & 3); }
static void link(int n, int mode) { vs_add(CHAIN, 1); vs_point(); if (!n) return; bool tss = mode == 1 || (mode == 2 && (n & 1)); if (tss) chq->reset(new int((n - 1) << 2 | mode)); else this_thread::at_thread_exit(Link{n - 1, mode}); }
SCENARIO(long_chain, vs_opt().bound(1, 2).leak()) {
    thread_specific_ptr<int> q(&chain_clean); chq = &q; int mode = vs_choose(3), lib = vs_choose(2); auto body = [&] { link(DEPTH, mode); };
    if (lib) { thread t(body); t.join(); } else { vs_t t(body); t.join(); } vs_assert_msg(vs_get(CHAIN) == DEPTH + 1, "%ld of %d exit functions and cleanups ran before join returned", vs_get(CHAIN), DEPTH + 1); }
