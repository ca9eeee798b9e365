// T02: thread handles
#include "vsh.hpp"
#include <boost/thread/thread.hpp>
#include <boost/functional/hash.hpp>
#include <exception>
#include <sstream>
#include <string>
#include <vector>
using namespace boost;
enum { GO = 1, FIN = 2, DEST = 3, ID = 8 };
struct Boom {};
// counts its copies; all must be gone at the end, and none is left before the function ended
struct Fn { int gate, no; Fn(int g, int n) : gate(g), no(n) { vs_add(DEST, 1); } Fn(Fn const& o) : gate(o.gate), no(o.no) { vs_add(DEST, 1); } ~Fn() { vs_add(DEST, -1); } void operator()() const { if (gate) vs_await(GO, 1); vs_add(FIN, 1); } };
template <class E, class F> bool throws(F f, int code) { try { f(); } catch (E& e) { return code < 0 || e.code().value() == code; } catch (...) {} return false; }
// every sequence of handle operations against a reference model; threads wait at a gate unless `open`
enum { OP_START, OP_MOVE, OP_SWAP, OP_JOIN, OP_DETACH, OP_TRY, OP_SELFMOVE_TMP, OP_IDS, NOPS };
static void history(int H, int len, bool open) {
    std::vector<thread> h(H); std::vector<int> m(H, 0); std::vector<thread::id> ids(1); int started = 0; if (open) vs_set(GO, 1);
    thread::id main_id = this_thread::get_id(); vs_assert(main_id != thread::id());
    for (int i = 0; i < len; i++) {
        int a = vs_choose(H), b = vs_choose(H), op = vs_choose(NOPS); if (a != b && op != OP_MOVE && op != OP_SWAP && b) vs_cut();
        switch (op) {
        case OP_START: if (m[a] && started > 1) vs_cut();
#if defined BOOST_THREAD_PROVIDES_THREAD_MOVE_ASSIGN_CALLS_TERMINATE_IF_JOINABLE
            if (m[a]) h[a].detach();
#endif
            h[a] = thread(Fn(1, ++started)); m[a] = started; ids.push_back(h[a].get_id()); break;
        case OP_MOVE: if (a == b) vs_cut();
#if defined BOOST_THREAD_PROVIDES_THREAD_MOVE_ASSIGN_CALLS_TERMINATE_IF_JOINABLE
            if (m[a]) vs_cut();
#endif
            h[a] = boost::move(h[b]); m[a] = m[b]; m[b] = 0; break;
        case OP_SWAP: if (a == b) h[a].swap(h[b]); else swap(h[a], h[b]); std::swap(m[a], m[b]); break;
        case OP_JOIN: if (m[a]) { if (!open) vs_set(GO, 1); long f = vs_get(FIN); (void)f; h[a].join(); m[a] = 0; } else vs_assert_msg(throws<thread_resource_error>([&] { h[a].join(); }, system::errc::invalid_argument), "join of a non-joinable handle"); break;
        case OP_DETACH: h[a].detach(); m[a] = 0; break;
        case OP_TRY: if (m[a]) { bool r = h[a].try_join_for(ms(0)); if (r) m[a] = 0; else vs_assert(h[a].joinable()); } else { bool r = throws<thread_resource_error>([&] { vs_assert(!h[a].try_join_for(ms(0))); }, system::errc::invalid_argument); vs_assert_msg(r, "timed join of a non-joinable handle"); } break;
        case OP_SELFMOVE_TMP: { thread t(boost::move(h[a])); vs_assert(t.joinable() == (m[a] != 0) && !h[a].joinable()); h[a].swap(t); break; }
        case OP_IDS: vs_assert(this_thread::get_id() == main_id); break;
        }
        for (int k = 0; k < H; k++) {
            vs_assert_msg(h[k].joinable() == (m[k] != 0), "step %d op %d: joinable is %d", i, op, (int)h[k].joinable());
            vs_assert_msg(h[k].get_id() == ids[m[k]], "step %d op %d: the id of a handle changed", i, op); vs_assert((h[k].get_id() == thread::id()) == (m[k] == 0)); vs_assert(h[k].get_id() != main_id);
            for (int l = 0; l < k; l++) { bool eq = h[k].get_id() == h[l].get_id(); vs_assert_msg(eq == (m[k] == m[l]), "ids of live threads"); vs_assert((h[k].get_id() < h[l].get_id()) + (h[l].get_id() < h[k].get_id()) == !eq); }
        }
    }
    vs_set(GO, 1); for (int k = 0; k < H; k++) if (m[k]) h[k].join(); else h[k].detach();
    vs_quiesce(); vs_assert_msg(vs_get(FIN) == started, "%d threads started, %ld functions ended", started, vs_get(FIN)); vs_assert_msg(vs_get(DEST) == 0, "%ld copies of the functions are left", vs_get(DEST));
}
SCENARIO(history2, vs_opt().bound(0, 0).leak().secs(30, 200)) { history(2, 3, false); }
SCENARIO(history3, vs_opt().bound(0, 0).leak().secs(30, 400)) { history(2, 4, false); }
SCENARIO(history_racing, vs_opt().bound(2, 3).leak().secs(40, 300)) { history(1, 3, true); }
// handles that die in every way, at every moment of the thread
SCENARIO(lifetime, vs_opt().bound(4, 6).leak()) {
    int end = vs_choose(5); { thread* t = new thread(Fn(0, 1));
    switch (end) {
    case 0: t->join(); vs_assert_msg(vs_get(DEST) == 0, "the function object outlives join"); break; case 1: t->detach(); vs_assert(!t->joinable()); t->detach(); break; case 2: { thread u(boost::move(*t)); u.detach(); break; } case 3: if (!t->try_join_for(ms(1))) t->detach(); break;
#if defined BOOST_THREAD_PROVIDES_THREAD_DESTRUCTOR_CALLS_TERMINATE_IF_JOINABLE
    case 4: vs_expect_terminate(1); delete t; vs_fail("a joinable handle was destroyed without terminating");
#else
    case 4: break;                      // the destructor detaches
#endif
    } delete t; }
    vs_quiesce(); vs_assert(vs_get(FIN) == 1); vs_assert_msg(vs_get(DEST) == 0, "%ld copies of the function are left", vs_get(DEST));
}
SCENARIO(assign_over_running, vs_opt().bound(2, 4).leak()) {
    thread t(Fn(1, 1));
#if defined BOOST_THREAD_PROVIDES_THREAD_MOVE_ASSIGN_CALLS_TERMINATE_IF_JOINABLE
    thread u; vs_expect_terminate(1); t = boost::move(u); vs_fail("assignment to a joinable handle did not terminate");
#else
    thread::id a = t.get_id(); t = thread(Fn(1, 2)); vs_assert(t.get_id() != a); vs_set(GO, 1); t.join(); vs_quiesce(); vs_assert(vs_get(FIN) == 2 && vs_get(DEST) == 0);
#endif
}
// self-join in every form
SCENARIO(self_join, vs_opt().bound(2, 4).leak()) {
    int f = vs_choose(3); thread t; bool ok = false; thread* p = &t; t = thread([&ok, p, f] { vs_await(GO, 1); ok = throws<thread_resource_error>([&] { if (f == 0) p->join(); else if (f == 1) p->try_join_for(ms(5)); else p->try_join_until(sys_in_ms(5)); }, system::errc::resource_deadlock_would_occur); vs_assert(p->joinable()); vs_add(FIN, 1); });
    vs_set(GO, 1); vs_await(FIN, 1); t.join(); vs_assert_msg(ok, "joining itself was not refused");
}
// ids: stable, distinct among live threads, the same from inside and outside
SCENARIO(ids, vs_opt().bound(2, 4).leak()) {
    thread::id in[2], out[2]; thread t[2]; for (int i = 0; i < 2; i++) { thread::id* p = &in[i]; t[i] = thread([p] { *p = this_thread::get_id(); vs_point(); vs_assert(*p == this_thread::get_id()); vs_await(GO, 1); }); out[i] = t[i].get_id(); }
    thread::id me = this_thread::get_id(); vs_assert(out[0] != out[1] && out[0] != me && out[1] != me && out[0] != thread::id()); vs_assert(out[0] == t[0].get_id());
    swap(t[0], t[1]); vs_assert(out[0] == t[1].get_id() && out[1] == t[0].get_id()); vs_set(GO, 1); t[0].join(); t[1].join(); vs_assert(in[0] == out[0] && in[1] == out[1] && t[0].get_id() == thread::id()); vs_assert(me == this_thread::get_id());
}
// ids order totally and hash and print alike exactly when they are equal
static std::string text(thread::id const& i) { std::ostringstream o; o << i; return o.str(); }
SCENARIO(id_order, vs_opt().bound(1, 2).leak()) {
    thread t[2]; for (int i = 0; i < 2; i++) t[i] = thread([] { vs_await(GO, 1); }); thread::id v[5] = {thread::id(), this_thread::get_id(), t[0].get_id(), t[1].get_id(), thread::id(t[vs_choose(2)].get_id())};
    for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) { bool e = v[a] == v[b], l = v[a] < v[b], g = v[a] > v[b]; vs_assert_msg(e == (a == b || (a > 1 && b > 1 && text(v[a]) == text(v[b]))) && (v[a] != v[b]) == !e, "equality of ids %d, %d", a, b); vs_assert_msg(e + l + g == 1 && (v[a] <= v[b]) == (l || e) && (v[a] >= v[b]) == (g || e) && (v[b] < v[a]) == g, "order of ids %d, %d", a, b); vs_assert_msg((text(v[a]) == text(v[b])) == e && (!e || boost::hash<thread::id>()(v[a]) == boost::hash<thread::id>()(v[b])), "text or hash of ids %d, %d", a, b); for (int c = 0; c < 5; c++) vs_assert_msg(!(l && v[b] < v[c]) || v[a] < v[c], "the order of ids is not transitive"); }
    vs_assert(text(v[0]) == "{Not-any-thread}"); vs_set(GO, 1); t[0].join(); t[1].join(); vs_assert(v[2] != t[0].get_id() && v[0] == t[0].get_id());
}
SCENARIO(foreign_id, vs_opt().bound(2, 4)) { thread::id a, b; vs_t x([&] { a = this_thread::get_id(); vs_assert(a == this_thread::get_id()); vs_add(GO, 1); vs_await(GO, 2); }), y([&] { b = this_thread::get_id(); vs_add(GO, 1); vs_await(GO, 2); }); x.join(); y.join(); vs_assert(a != b && a != thread::id()); }
// a failed start: an error, a handle that is not joinable, nothing run and nothing leaked
SCENARIO(start_fails, vs_opt().bound(3, 4).faults(VSF_CREATE).leak()) {
    bool failed = false; int at = vs_choose(2); { thread t; vs_fault_window(VSF_CREATE);
    try { if (at) { thread::attributes a; a.set_stack_size(1 << 16); thread::attributes const& ca = a; t = thread(ca, Fn(0, 1)); } else t = thread(Fn(0, 1)); } catch (thread_resource_error& e) { failed = true; vs_assert_msg(e.code().value() == system::errc::resource_unavailable_try_again, "error code %d", e.code().value()); }
    vs_fault_window(0); vs_assert_msg(t.joinable() == !failed, "joinable after a failed start"); if (t.joinable()) t.join(); }
    vs_assert_msg(vs_get(FIN) == !failed, "a thread whose start failed ran"); vs_assert_msg(vs_get(DEST) == 0, "%ld copies of the function are left", vs_get(DEST));
}
// copying the function object throws
struct Thrower { int* n; Thrower(int* n) : n(n) { vs_add(DEST, 1); } Thrower(Thrower const& o) : n(o.n) { if (--*n < 0) throw Boom(); vs_add(DEST, 1); } ~Thrower() { vs_add(DEST, -1); } void operator()() const { vs_add(FIN, 1); } };
SCENARIO(copy_throws, vs_opt().bound(1, 2).leak()) { int n = vs_choose(6); bool thrown = false; { thread t; try { Thrower f(&n); t = thread(f); } catch (Boom&) { thrown = true; } vs_assert(t.joinable() == !thrown); if (t.joinable()) t.join(); } vs_assert(vs_get(FIN) == !thrown); vs_assert_msg(vs_get(DEST) == 0, "%ld copies are left", vs_get(DEST)); }
// attributes: a detached thread
SCENARIO(attributes, vs_opt().bound(2, 4).leak()) {
    thread::attributes a; int det = vs_choose(2); a.set_stack_size(1 << 17); vs_assert(a.get_stack_size() >= (1u << 17)); if (det) pthread_attr_setdetachstate(a.native_handle(), PTHREAD_CREATE_DETACHED);
    { thread::attributes const& ca = a; thread t(ca, Fn(0, 1)); vs_assert_msg(t.joinable() == !det, "joinable"); if (!det) t.join(); } vs_quiesce(); vs_assert(vs_get(FIN) == 1 && vs_get(DEST) == 0);
}
// an exception other than an interruption ends the program
SCENARIO(uncaught, vs_opt().bound(1, 2)) { thread t([] { vs_expect_terminate(1); throw Boom(); }); t.join(); vs_fail("an exception left a thread function unnoticed"); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
SCENARIO(interrupt_dead, vs_opt().bound(2, 3).leak()) { thread e; e.interrupt(); vs_assert(!e.interruption_requested()); thread t(Fn(0, 1)); vs_quiesce(); t.interrupt(); t.join(); t.interrupt(); vs_assert(!t.interruption_requested() && vs_get(DEST) == 0); }
#endif
