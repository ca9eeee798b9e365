// T04: thread_specific_ptr
#include "vsh.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
using namespace boost;
enum { GO = 1, LIVE = 2, N = 3, DONE = 4, ACT = 5, PHASE = 6, EXP = 10, ST = 30 };  // ST+id: 0 unused 1 stored 2 cleaned 3 released
struct Obj { int id; long owner; };
static Obj* make() { Obj* o = new Obj; o->id = vs_add(N, 1) - 1; o->owner = vs_self(); vs_set(ST + o->id, 1); return o; }
typedef thread_specific_ptr<Obj> P;
static P* P0; static P* P1;
// what a cleanup does besides: 0 nothing, 1 stores into the same pointer, 2 stores into the other, 3 releases its own pointer, 4 resets its own pointer, 5 reads both, 6 releases the other
static void act(int a, P* own, P* other) {
    vs_set(ACT, 0);            // once
    switch (a) { case 1: own->reset(make()); break; case 2: other->reset(make()); break; case 3: { Obj* o = own->release(); if (o && vs_get(ST + o->id) == 1) { vs_set(ST + o->id, 3); delete o; } break; } case 4: own->reset(); break; case 5: own->get(); other->get(); break; case 6: { Obj* o = other->release(); if (o) { vs_assert(vs_get(ST + o->id) == 1); vs_set(ST + o->id, 3); delete o; } break; } } }
static void clean(Obj* o, P* own, P* other) {
    vs_assert_msg(o != 0, "the cleanup was called with a null pointer"); vs_assert_msg(vs_get(ST + o->id) == 1, "the cleanup was called for a value already %s", vs_get(ST + o->id) == 2 ? "cleaned up" : "released"); vs_assert_msg(o->owner == vs_self(), "cleaned up in another thread"); vs_set(ST + o->id, 2);
    act(vs_get(ACT), own, other); delete o; }
static void clean0(Obj* o) { clean(o, P0, P1); } static void clean1(Obj* o) { clean(o, P1, P0); }
struct Env { P a, b; Env() : a(&clean0), b(&clean1) { P0 = &a; P1 = &b; } };
static void check() { for (int i = 0; i < vs_get(N); i++) { vs_assert_msg(vs_get(ST + i) == 2 || vs_get(ST + i) == 3, "value %d was never cleaned up", i); } }
// every program over two pointers, against a model (m: ids or -1)
static void program(int len, bool acts) {
    P* p[2] = {P0, P1}; int m[2] = {-1, -1};
    for (int i = 0; i < len; i++) {
        int k = vs_choose(2), op = vs_choose(5); Obj* c = p[k]->get(); vs_assert_msg((c ? c->id : -1) == m[k], "get returned another value than the one stored");
        switch (op) {
        case 0: { Obj* n = make(); p[k]->reset(n); if (m[k] >= 0) vs_assert_msg(vs_get(ST + m[k]) == 2, "reset did not clean up the old value"); m[k] = n->id; break; }
        case 1: p[k]->reset(c); if (c) vs_assert_msg(vs_get(ST + c->id) == 1, "reset to the value already stored cleaned it up"); break;
        case 2: p[k]->reset(); if (m[k] >= 0) vs_assert_msg(vs_get(ST + m[k]) == 2, "reset did not clean up the old value"); m[k] = -1; break;
        case 3: { Obj* r = p[k]->release(); vs_assert(r == c); if (r) { vs_assert_msg(vs_get(ST + r->id) == 1, "release cleaned up the value"); vs_set(ST + r->id, 3); delete r; } m[k] = -1; break; }
        case 4: if (c) vs_assert((*p[k])->id == m[k] && (**p[k]).id == m[k]); break;
        }
        for (int j = 0; j < 2; j++) { Obj* g = p[j]->get(); vs_assert_msg((g ? g->id : -1) == m[j], "op %d: pointer %d holds %d instead of %d", op, j, g ? g->id : -1, m[j]); }
    }
    if (acts) vs_set(ACT, vs_choose(7));
}
template <bool LIB> static void single(int len) { Env e; if (LIB) { thread t([&] { program(len, true); }); t.join(); } else { vs_t t([&] { program(len, true); }); t.join(); } check(); }
SCENARIO(programs, vs_opt().bound(0, 0).leak().secs(30, 300)) { single<true>(vs_thorough() ? 5 : 4); }
SCENARIO(programs_foreign, vs_opt().bound(0, 0).leak().secs(30, 300)) { single<false>(vs_thorough() ? 4 : 3); }
// a cleanup called by reset does something with the pointer
SCENARIO(cleanup_in_reset, vs_opt().bound(0, 0).leak()) {
    Env e; thread t([&] { int a = vs_choose(7), other = vs_choose(2), how = vs_choose(2); e.a.reset(make()); if (other) e.b.reset(make()); vs_set(ACT, a); Obj* n = how ? make() : 0; e.a.reset(n);
        Obj* c = e.a.get(); vs_assert_msg(!c || vs_get(ST + c->id) == 1, "the pointer holds a value already cleaned up"); Obj* d = e.b.get(); vs_assert_msg(!d || vs_get(ST + d->id) == 1, "the other pointer holds a value already cleaned up");
        if (a == 0 || a == 2 || a == 5 || a == 6) vs_assert(c == n); }); t.join(); check(); }
// each thread has its own
SCENARIO(threads, vs_opt().bound(3, 4).leak()) {
    Env e; auto w = [&] { vs_assert_msg(e.a.get() == 0, "the initial value is not null"); Obj* o = make(); e.a.reset(o); vs_point(); vs_assert_msg(e.a.get() == o && e.b.get() == 0, "a thread sees a value of another"); if (vs_choose(2)) { e.b.reset(make()); } vs_assert(e.a.get() == o); };
    thread t(w), u(w); vs_assert(e.a.get() == 0); t.join(); u.join(); vs_assert(e.a.get() == 0); check(); }
SCENARIO(foreign_threads, vs_opt().bound(3, 4).leak()) { Env e; auto w = [&] { vs_assert(e.a.get() == 0); Obj* o = make(); e.a.reset(o); vs_point(); vs_assert_msg(e.a.get() == o && e.b.get() == 0, "a thread sees a value of another"); }; vs_run(w, w, w); check(); }
// cleaned up before join returns, also when interrupted or detached
SCENARIO(before_join, vs_opt().bound(3, 5).leak()) { Env e; int k = vs_choose(3); thread t([&] { e.a.reset(make()); 
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
        if (k == 1) { vs_await(GO, 1); this_thread::interruption_point(); }
#endif
        });
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
    if (k == 1) { t.interrupt(); vs_set(GO, 1); }
#endif
    if (k == 2) { t.detach(); vs_quiesce(); } else t.join(); vs_assert_msg(vs_get(N) == 1 && vs_get(ST) == 2, "not cleaned up before join returned"); }
// destroying the pointer object cleans up the destroying thread's value, and another pointer (often at the same address) starts empty
SCENARIO(recreated, vs_opt().bound(0, 0).leak()) {
    thread t([] { alignas(P) char mem[sizeof(P)]; for (int i = 0; i < 3; i++) { P* p = new (mem) P(&clean0); P0 = P1 = p; vs_assert_msg(p->get() == 0, "a new pointer shows the value of a destroyed one"); int k = vs_choose(4), id = 0; Obj* o = 0; if (k) { p->reset(o = make()); id = o->id; } if (k == 2) { p->release(); vs_set(ST + id, 3); } if (k == 3) p->reset(); p->~P(); if (o) { vs_assert_msg(vs_get(ST + id) == (k == 2 ? 3 : 2), "destroying the pointer did not clean up"); if (k == 2) delete o; } } }); t.join(); check(); }
// default deleter, no cleanup function, incomplete use
struct Del { ~Del() { vs_add(LIVE, 1); } };
SCENARIO(deleters, vs_opt().bound(1, 2).leak()) {
    { thread_specific_ptr<Del> p; thread t([&] { p.reset(new Del); p.reset(new Del); vs_assert(vs_get(LIVE) == 1); }); t.join(); vs_assert_msg(vs_get(LIVE) == 2, "the default deleter ran %ld times", vs_get(LIVE)); }
    static int x; { thread_specific_ptr<int> p((void (*)(int*))0); thread t([&] { p.reset(&x); vs_assert(p.get() == &x); p.reset(); vs_assert(p.get() == 0); p.reset(&x); vs_assert(p.release() == &x); p.reset(&x); }); t.join(); }
    { thread_specific_ptr<Del> p; p.reset(new Del); } vs_assert_msg(vs_get(LIVE) == 3, "destroying the pointer did not delete the object of this thread");
    { thread_specific_ptr<void> p((void (*)(void*))0); thread t([&] { p.reset(&x); vs_assert(p.get() == &x); }); t.join(); }
}
// many pointers
SCENARIO(many, vs_opt().bound(1, 1).leak()) { const int K = 6; alignas(P) static char mem[K * sizeof(P)]; P* p = (P*)mem; for (int i = 0; i < K; i++) new (p + i) P(&clean0); P0 = P1 = p; Obj* o[K]; thread t([&] { for (int i = 0; i < K; i++) p[(i * 5) % K].reset(o[(i * 5) % K] = make()); for (int i = 0; i < K; i++) vs_assert_msg(p[i].get() == o[i], "a value of another pointer"); p[3].reset(); for (int i = 0; i < K; i++) vs_assert(p[i].get() == (i == 3 ? 0 : o[i])); }); t.join(); check(); for (int i = 0; i < K; i++) p[i].~P(); }
// exit functions still see, change and release what the thread stored
SCENARIO(in_exit_function, vs_opt().bound(1, 2).leak()) {
    Env e; int lib = vs_choose(2), what = vs_choose(5), n = 1 + vs_choose(2); bool late = vs_choose(2); Obj* o = 0; 
    auto x = [&] { Obj* c = e.a.get(); vs_assert_msg(c == o, "an exit function does not see the value its thread stored"); vs_assert(!o || vs_get(ST + o->id) == 1);
        switch (what) { case 0: break; case 1: e.a.reset(o = make()); break; case 2: e.a.reset(); o = 0; break; case 3: if (o) { e.a.release(); vs_set(ST + o->id, 3); delete o; o = 0; } break; case 4: e.b.reset(make()); break; } };
    auto body = [&] { if (!late) e.a.reset(o = make()); for (int i = 0; i < n; i++) this_thread::at_thread_exit(x); if (late) e.a.reset(o = make()); };
    if (lib) { thread t(body); t.join(); } else { vs_t t(body); t.join(); } check(); }
// a cleanup that stores again time and again
static int AGAIN; static P* AP; static void clean_again(Obj* o) { vs_assert_msg(vs_get(ST + o->id) == 1 && o->owner == vs_self(), "cleaned up twice or in another thread"); vs_set(ST + o->id, 2); delete o; if (AGAIN-- > 0) AP->reset(make()); }
SCENARIO(stores_again, vs_opt().bound(1, 2).leak()) { P a(&clean_again); AP = &a; int lib = vs_choose(2), n = AGAIN = vs_choose(8); auto body = [&] { a.reset(make()); }; if (lib) { thread t(body); t.join(); } else { vs_t t(body); t.join(); } vs_assert_msg(vs_get(N) == n + 1, "%ld of %d values were stored", vs_get(N), n + 1); check(); }
// a cleanup finds what its thread still has in the other pointers, and may change or release it
static P* SP[3]; static Obj* CUR[3]; static int SACT;
static void sees() { for (int j = 0; j < 3; j++) vs_assert_msg(SP[j]->get() == CUR[j], "a cleanup sees %s in pointer %d", SP[j]->get() ? "a stale value" : "nothing any more", j); }
template <int I> static void clean_sees(Obj* o) { vs_assert_msg(o == CUR[I] && vs_get(ST + o->id) == 1 && o->owner == vs_self(), "cleaned up twice or in another thread"); vs_set(ST + o->id, 2); CUR[I] = 0; delete o; sees(); int a = SACT; SACT = 0; const int J = (I + 1) % 3;
    switch (a) { case 1: SP[J]->reset(); break; case 2: { Obj* c = SP[J]->release(); vs_assert_msg(c == CUR[J], "released something else"); if (c) { vs_set(ST + c->id, 3); delete c; } CUR[J] = 0; break; } case 3: { Obj* n = make(); if (!CUR[J]) { CUR[J] = n; SP[J]->reset(n); } else { SP[J]->reset(); CUR[J] = n; SP[J]->reset(n); } break; } case 4: SP[I]->reset(CUR[I] = make()); break; } sees(); }
SCENARIO(sees_others, vs_opt().bound(1, 2).leak()) { P a(&clean_sees<0>), b(&clean_sees<1>), c(&clean_sees<2>); SP[0] = &a; SP[1] = &b; SP[2] = &c; for (int i = 0; i < 3; i++) CUR[i] = 0; SACT = vs_choose(5); int lib = vs_choose(2), which = 1 + vs_choose(7); auto body = [&] { for (int i = 0; i < 3; i++) if (which >> i & 1) SP[i]->reset(CUR[i] = make()); sees(); }; if (lib) { thread t(body); t.join(); } else { vs_t t(body); t.join(); } check(); for (int i = 0; i < 3; i++) vs_assert(!CUR[i] && !SP[i]->get()); }
