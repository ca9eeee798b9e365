// T05: thread_group, scoped_thread, thread_guard
#include "vsh.hpp"
#include <boost/thread/thread.hpp>
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/thread_guard.hpp>
#include <boost/thread/condition_variable.hpp>
#include <exception>
using namespace boost;
enum { GO = 1, FIN = 2, INT = 3, ACT = 4, LIVE = 5 };
struct Fn { int gate; Fn(int g) : gate(g) { vs_add(LIVE, 1); } Fn(Fn const& o) : gate(o.gate) { vs_add(LIVE, 1); } ~Fn() { vs_add(LIVE, -1); } void operator()() const {
    if (gate == 1) vs_await(GO, 1);
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
    if (gate == 2) { mutex m; unique_lock<mutex> l(m); condition_variable c; try { for (;;) c.wait(l); } catch (thread_interrupted&) { vs_add(INT, 1); vs_add(FIN, 1); throw; } }
#endif
    vs_point(); vs_add(FIN, 1); } };
// ---- thread_group
SCENARIO(group_join, vs_opt().bound(3, 5).leak()) {
    Data d; { thread_group g; int n = 1 + vs_choose(2); mutex m; for (int i = 0; i < n; i++) g.create_thread([&] { { lock_guard<mutex> l(m); d.bump(); } vs_add(FIN, 1); }); vs_assert((int)g.size() == n); g.join_all(); vs_assert_msg(vs_get(FIN) == n, "join_all returned when %ld of %d threads had finished", vs_get(FIN), n); d.check(); vs_assert(d.a == n && (int)g.size() == n); g.join_all(); }
}
// every sequence of membership operations against a model
SCENARIO(group_history, vs_opt().bound(0, 0).leak().secs(30, 200)) {
    thread_group g; thread* t[3] = {new thread(Fn(1)), new thread(Fn(1)), 0}; bool in[3] = {false, false, false}; int len = vs_thorough() ? 5 : 4;
    for (int i = 0; i < len; i++) {
        int op = vs_choose(3), k = op == 2 ? 2 : vs_choose(3); if (!t[k] && op != 2) vs_cut();
        if (op == 0) { bool refused = false; try { g.add_thread(t[k]); } catch (thread_resource_error& e) { refused = e.code().value() == system::errc::resource_deadlock_would_occur; } vs_assert_msg(refused == in[k], "add_thread of a %s", in[k] ? "member" : "stranger"); in[k] = true; }
        else if (op == 1) { g.remove_thread(t[k]); in[k] = false; }
        else { if (t[2]) vs_cut(); t[2] = g.create_thread(Fn(1)); in[2] = true; }
        int n = 0; for (int j = 0; j < 3; j++) { n += in[j]; if (t[j]) vs_assert_msg(g.is_thread_in(t[j]) == in[j], "is_thread_in"); } vs_assert_msg((int)g.size() == n, "size is %d instead of %d", (int)g.size(), n); vs_assert(!g.is_this_thread_in() && !g.is_thread_in(0)); g.add_thread(0); g.remove_thread(0);
    }
    vs_set(GO, 1); g.join_all(); for (int j = 0; j < 3; j++) if (t[j]) { vs_assert_msg(t[j]->joinable() == !in[j], "join_all joined a stranger or missed a member"); if (!in[j]) { t[j]->join(); delete t[j]; } }
    vs_assert(vs_get(FIN) == 2 + (t[2] != 0));
}
// threads that create, add and remove concurrently; all that are members at the end are joined
SCENARIO(group_concurrent_add, vs_opt().bound(2, 4).secs(30, 200)) {
    thread_group g; thread* mine = new thread(Fn(1)); auto a = [&] { g.create_thread(Fn(1)); }; auto b = [&] { g.add_thread(mine); vs_assert(g.is_thread_in(mine)); size_t n = g.size(); vs_assert(n >= 1 && n <= 2); }; vs_run(a, b);
    vs_assert_msg(g.size() == 2, "the group has %d members instead of 2", (int)g.size()); vs_set(GO, 1); g.join_all(); vs_assert(vs_get(FIN) == 2); }
SCENARIO(group_concurrent_remove, vs_opt().bound(2, 4).secs(30, 200)) {
    thread_group g; thread* tmp = new thread(Fn(1)); thread* mine = new thread(Fn(1)); g.add_thread(tmp); auto a = [&] { g.add_thread(mine); }; auto b = [&] { g.remove_thread(tmp); vs_assert(!g.is_thread_in(tmp)); }; vs_run(a, b);
    vs_assert_msg(g.size() == 1 && g.is_thread_in(mine), "the group has %d members instead of 1", (int)g.size()); vs_set(GO, 1); g.join_all(); vs_assert(!mine->joinable()); tmp->join(); delete tmp; vs_assert(vs_get(FIN) == 2); }
SCENARIO(group_creates, vs_opt().bound(2, 3)) { thread_group g; auto a = [&] { thread* t = g.create_thread(Fn(0)); vs_assert(g.is_thread_in(t)); }; vs_run(a, a); vs_assert(g.size() == 2); g.join_all(); vs_assert_msg(vs_get(FIN) == 2, "join_all returned early"); }
// a member asks about itself
SCENARIO(group_member, vs_opt().bound(3, 4)) { thread_group g; g.create_thread([&] { vs_await(GO, 1); vs_assert_msg(g.is_this_thread_in(), "a member does not find itself"); bool refused = false; try { g.join_all(); } catch (thread_resource_error& e) { refused = e.code().value() == system::errc::resource_deadlock_would_occur; } vs_assert_msg(refused, "a member joined its own group"); vs_set(FIN, 1); }); vs_t x([&] { vs_assert(!g.is_this_thread_in()); }); vs_set(GO, 1); vs_await(FIN, 1); x.join(); g.join_all(); }
// the group's destructor deletes the handles, the threads go on (default) 
#if ! defined BOOST_THREAD_PROVIDES_THREAD_DESTRUCTOR_CALLS_TERMINATE_IF_JOINABLE
SCENARIO(group_destroyed, vs_opt().bound(3, 4).leak()) { { thread_group g; g.create_thread(Fn(0)); g.create_thread(Fn(1)); } vs_set(GO, 1); vs_quiesce(); vs_assert(vs_get(FIN) == 2 && vs_get(LIVE) == 0); }
#endif
// creating a member fails: the group is unchanged and usable
SCENARIO(group_create_fails, vs_opt().bound(3, 4).faults(VSF_CREATE).leak()) { vs_fault_window(0); { thread_group g; g.create_thread(Fn(0)); bool failed = false; vs_fault_window(VSF_CREATE); try { g.create_thread(Fn(0)); } catch (thread_resource_error&) { failed = true; } vs_fault_window(0); vs_assert_msg((int)g.size() == 2 - failed, "size after a failed creation"); g.create_thread(Fn(0)); g.join_all(); vs_assert(vs_get(FIN) == 3 - failed); } vs_assert(vs_get(LIVE) == 0); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
SCENARIO(group_interrupt, vs_opt().bound(2, 3).leak()) { thread_group g; g.create_thread(Fn(2)); g.create_thread(Fn(2)); thread* r = new thread(Fn(2)); g.add_thread(r); g.interrupt_all(); g.join_all(); vs_assert_msg(vs_get(INT) == 3, "interrupt_all reached %ld of 3 members", vs_get(INT)); }
// interrupting from another thread a group that is being joined
SCENARIO(group_interrupt_while_joined, vs_opt().bound(2, 3)) { thread_group g; g.create_thread(Fn(2)); g.create_thread(Fn(0)); vs_t i([&] { g.interrupt_all(); }); g.join_all(); i.join(); vs_assert(vs_get(FIN) == 2 && vs_get(INT) == 1); }
#endif
// ---- scoped_thread and thread_guard with every action
struct Rec { void operator()(thread& t) const { vs_add(ACT, 1); if (t.joinable()) t.join(); } };
struct Boom {};
// leaves its scope normally or by an exception
template <class F> void scope(bool th, F f) { try { f(); if (th) throw Boom(); } catch (Boom&) {} }
SCENARIO(scoped_join, vs_opt().bound(3, 5).leak()) { int form = vs_choose(5), th = vs_choose(2); try {
    switch (form) {
    case 0: { scoped_thread<> s((thread(Fn(0)))); if (th) throw Boom(); break; } case 1: { scoped_thread<> s(Fn(0)); if (th) throw Boom(); break; } case 2: { strict_scoped_thread<> s((thread(Fn(0)))); if (th) throw Boom(); break; } case 3: { strict_scoped_thread<> s(Fn(0)); if (th) throw Boom(); break; }
    case 4: { thread t(Fn(0)); thread_guard<> g(t); if (th) throw Boom(); break; } } } catch (Boom&) {} vs_assert_msg(vs_get(FIN) == 1, "the scope ended before the thread"); vs_assert(vs_get(LIVE) == 0); }
SCENARIO(scoped_detach, vs_opt().bound(3, 4).leak()) { int form = vs_choose(4), th = vs_choose(2); thread t; if (form > 1) t = thread(Fn(1)); try {
    switch (form) { case 0: { scoped_thread<detach> s(Fn(1)); if (th) throw Boom(); break; } case 1: { strict_scoped_thread<detach_if_joinable> s(Fn(1)); if (th) throw Boom(); break; } case 2: { thread_guard<detach> g(t); if (th) throw Boom(); break; } case 3: { scoped_thread<detach_if_joinable> s(boost::move(t)); if (th) throw Boom(); break; } } } catch (Boom&) {}
    vs_assert(!t.joinable() && vs_get(FIN) == 0); vs_set(GO, 1); vs_quiesce(); vs_assert(vs_get(FIN) == 1 && vs_get(LIVE) == 0); }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
SCENARIO(scoped_interrupt, vs_opt().bound(3, 4).leak()) { int form = vs_choose(3), th = vs_choose(2); thread t; if (form == 2) t = thread(Fn(2)); try { switch (form) { case 0: { scoped_thread<interrupt_and_join_if_joinable> s(Fn(2)); if (th) throw Boom(); break; } case 1: { strict_scoped_thread<interrupt_and_join_if_joinable> s(Fn(2)); if (th) throw Boom(); break; } case 2: { thread_guard<interrupt_and_join_if_joinable> g(t); if (th) throw Boom(); break; } } } catch (Boom&) {} vs_assert_msg(vs_get(FIN) == 1 && vs_get(INT) == 1, "not interrupted and joined"); }
// the owner itself is interrupted while its scope ends: still joins, and the request stays pending
SCENARIO(owner_interrupted, vs_opt().bound(3, 4).leak()) { int form = vs_choose(3); thread o([&] { bool got = false; { thread t; if (form == 2) t = thread(Fn(1)); if (form == 0) { scoped_thread<> s(Fn(1)); vs_set(8, 1); } else if (form == 1) { strict_scoped_thread<> s(Fn(1)); vs_set(8, 1); } else { thread_guard<> g(t); vs_set(8, 1); } } vs_assert_msg(vs_get(FIN) == 1, "the scope ended before the thread"); try { this_thread::interruption_point(); } catch (thread_interrupted&) { got = true; } vs_assert_msg(got, "the owner's interruption was lost"); vs_set(9, 1); });
    vs_await(8, 1); o.interrupt(); vs_set(GO, 1); o.join(); vs_assert(vs_get(9) == 1); }
#endif
// the action is applied exactly once per owner, not for what was moved away; every sequence of moves, swaps, joins, detaches
SCENARIO(scoped_history, vs_opt().bound(0, 0).leak().secs(30, 200)) {
    int started = 0, acts = 0, len = vs_thorough() ? 4 : 3; vs_set(GO, 1); {
        typedef scoped_thread<Rec> S; S a, b; int m[2] = {0, 0}; S* s[2] = {&a, &b};
        for (int i = 0; i < len; i++) { int k = vs_choose(2), o = 1 - k, op = vs_choose(7); switch (op) {
            case 0: { *s[k] = S(Fn(0)); started++; acts++; acts++; m[k] = started; break; }      // assignment: the old thread, then the temporary's (nothing left)
            case 1: *s[k] = boost::move(*s[o]); acts++; m[k] = m[o]; m[o] = 0; break;
            case 2: s[k]->swap(*s[o]); std::swap(m[k], m[o]); break; case 3: swap(a, b); std::swap(m[0], m[1]); break;
            case 4: if (!m[k]) vs_cut(); s[k]->join(); m[k] = 0; break; case 5: s[k]->detach(); m[k] = 0; break;
            case 6: { S t(boost::move(*s[k])); vs_assert(!s[k]->joinable() && t.joinable() == (m[k] != 0)); m[k] = 0; acts++; break; } }
            for (int j = 0; j < 2; j++) { vs_assert_msg(s[j]->joinable() == (m[j] != 0), "op %d: joinable", op); vs_assert((s[j]->get_id() != thread::id()) == (m[j] != 0)); }
            vs_assert_msg(vs_get(ACT) == acts, "op %d: the action was applied %ld times instead of %d", op, vs_get(ACT), acts);
        } }
    vs_assert_msg(vs_get(ACT) == acts + 2, "the action was applied %ld times at the end", vs_get(ACT) - acts); vs_quiesce(); vs_assert(vs_get(FIN) == started && vs_get(LIVE) == 0);
}
SCENARIO(scoped_timed, vs_opt().bound(2, 3).leak()) { scoped_thread<> s(Fn(1)); vs_assert(!s.try_join_for(ms(DL)) && s.joinable()); vs_assert(!s.try_join_until(in_ms(DL)) && s.joinable()); vs_set(GO, 1); bool r = s.try_join_for(ms(FAR_)); if (!vs_forced_tick()) vs_assert(r && !s.joinable()); }
SCENARIO(guard_action_once, vs_opt().bound(2, 3).leak()) { int th = vs_choose(2), pre = vs_choose(3); thread t(Fn(0)); try { thread_guard<Rec> g(t); if (pre == 1) t.join(); if (pre == 2) t.detach(); if (th) throw Boom(); } catch (Boom&) {} vs_assert_msg(vs_get(ACT) == 1 && !t.joinable(), "the action was applied %ld times", vs_get(ACT)); if (pre != 2) vs_assert(vs_get(FIN) == 1); vs_quiesce(); }
#if defined BOOST_THREAD_PROVIDES_THREAD_DESTRUCTOR_CALLS_TERMINATE_IF_JOINABLE
struct Nothing { template <class T> void operator()(T&) {} };
SCENARIO(scoped_terminate, vs_opt().bound(2, 3)) { int form = vs_choose(2); vs_set(GO, 1); vs_expect_terminate(1); if (form) { scoped_thread<Nothing> s(Fn(0)); } else { thread t(Fn(0)); thread_guard<Nothing> g(t); } vs_fail("a joinable thread was destroyed without terminating"); }
#endif
