// L03: a testable mutex says who owns it, wraps any lockable without changing it, and composes with the lock types; a null mutex never blocks.
#include "vsh.hpp"
#include <boost/atomic.hpp>
#include <boost/thread/testable_mutex.hpp>
#include <boost/thread/null_mutex.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/reverse_lock.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/condition_variable.hpp>
using namespace boost;
enum { HOLD = 1, N = 2 };
typedef timed_lockable_adapter<timed_mutex> AdaptedTimed;
typedef testable_mutex<mutex> TM; typedef testable_mutex<timed_mutex> TT; typedef testable_mutex<AdaptedTimed> TA; typedef testable_mutex<null_mutex> TN;
typedef shared_lockable_adapter<shared_mutex> AS;
struct TS : timed_lockable_adapter<testable_mutex<timed_mutex> > { bool is_locked() const { return this->lockable().is_locked(); } bool is_locked_by_this_thread() const { return this->lockable().is_locked_by_this_thread(); } thread::id get_id() const { return this->lockable().get_id(); } };

template <class M> bool go(M& m, int h) { if (h == 0) { m.lock(); return true; } return m.try_lock(); }
template <class M> bool goT(M& m, int h) { switch (h) { case 2: return m.try_lock_for(ms(DL)); case 3: return m.try_lock_until(in_ms(DL)); case 4: return m.try_lock_until(sys_in_ms(DL)); case 5: return m.try_lock_for(ms(-1)); default: return go(m, h); } }
template <class M> struct A { enum { N = 6 }; static bool f(M& m, int h) { return goT(m, h); } };
template <> struct A<TM> { enum { N = 2 }; static bool f(TM& m, int h) { return go(m, h); } };
template <class M> void mine(M const& m) { vs_assert_msg(m.is_locked_by_this_thread(), "the owner is told it does not own the mutex"); vs_assert_msg(m.is_locked(), "is_locked() is false while the mutex is held"); vs_assert_msg(m.get_id() == this_thread::get_id(), "get_id() is not the owner"); }
template <class M> void not_mine(M const& m) { vs_assert_msg(!m.is_locked_by_this_thread(), "a thread that does not own the mutex is told it does"); vs_assert(m.get_id() != this_thread::get_id()); }
template <class M> void use(M& m, int h, Data& d) {
    not_mine(m); if (!A<M>::f(m, h)) { not_mine(m); return; }
    vs_assert_msg(vs_add(HOLD, 1) == 1, "two owners"); mine(m); d.bump(); mine(m); vs_add(HOLD, -1); vs_add(N, 1); m.unlock(); not_mine(m); }
template <class M> void truth() {
    M m; Data d; int h1 = vs_choose(A<M>::N), h2 = vs_choose(A<M>::N); vs_assert(!m.is_locked() && m.get_id() == thread::id());
    vs_run([&] { use(m, h1, d); }, [&] { use(m, h2, d); }, [&] { not_mine(m); });
    vs_assert(d.a == vs_get(N)); if (!h1 || !h2) vs_assert(d.a); vs_assert_msg(!m.is_locked() && m.get_id() == thread::id(), "reports an owner after everyone released"); vs_outcome("%d%d:%d", h1, h2, d.a);
}
// repeated hand-over between two owners and a witness, the owner's view stays right all along
template <class M> void handover() { M m; Data d; auto f = [&] { for (int i = 0; i < 2; i++) use(m, 0, d); }; vs_run(f, f); vs_assert(d.a == 4 && !m.is_locked()); }
// a witness never sees it unlocked between the moment the owner has it and the moment it gives it up
template <class M> void witness() {
    M m; m.lock(); thread::id me = this_thread::get_id(); int k = vs_choose(3);
    vs_t a([&] { vs_assert_msg(m.is_locked(), "a held mutex is reported unlocked"); vs_assert_msg(m.get_id() == me, "another owner is reported");
        not_mine(m); if (k == 0) { vs_assert(!m.try_lock()); } else if (k == 1) { vs_assert(!m.try_lock()); vs_set(3, 1); m.lock(); mine(m); m.unlock(); return; } vs_assert_msg(m.is_locked() && m.get_id() == me, "a failed try_lock changed the reported owner"); vs_set(3, 1); });
    vs_await(3, 1); mine(m); m.unlock(); a.join(); vs_assert(!m.is_locked());
}
// timed forms: true means owned, false not before the deadline and never when it was free
template <class M> void timed() {
    M m; int h = 2 + vs_choose(4); bool held = vs_choose(2); if (held) m.lock(); bool got = false; vs_set(4, -1);
    vs_t a([&] { long t0 = vs_now(); got = goT(m, h); if (got) { mine(m); m.unlock(); return; } not_mine(m); vs_assert_msg(held, "failed on a free mutex"); long t = vs_now(), r = vs_get(4);
        if (h != 5) { vs_assert(t >= t0 + DL * MS); vs_assert_msg(r < 0 || r >= t0 + DL * MS || vs_forced_tick(), "it was free before the deadline"); } else if (!vs_forced_tick()) vs_assert(t == t0); });
    if (held) { int w = vs_choose(3); if (w) this_thread::sleep_for(ms(w == 1 ? DL - 1 : 2 * DL)); mine(m); vs_set(4, vs_now()); m.unlock(); }
    a.join(); vs_assert(!m.is_locked()); m.lock(); mine(m); m.unlock(); vs_outcome("%d%d%d", held, h, got);
}
// lock types over it, with an exception leaving the scope
template <class M> void locks() {
    M m; Data d; int k = vs_choose(5);
    auto f = [&](int k) { return [&, k] { try { switch (k) {
        case 0: { lock_guard<M> l(m); mine(m); d.bump(); throw 1; }
        case 1: { unique_lock<M> l(m); mine(m); d.bump(); { reverse_lock<unique_lock<M> > r(l); not_mine(m); } mine(m); unique_lock<M> o(boost::move(l)); mine(m); throw 1; }
        case 2: { unique_lock<M> l(m, defer_lock); not_mine(m); if (!l.try_lock()) { not_mine(m); break; } mine(m); d.bump(); l.unlock(); not_mine(m); break; }
        case 3: { strict_lock<M> l(m); mine(m); d.bump(); break; }
        case 4: { M o; boost::lock(m, o); mine(m); mine(o); d.bump(); m.unlock(); o.unlock(); not_mine(m); not_mine(o); break; }
        } } catch (int) { not_mine(m); } }; };
    vs_run(f(k), f(0)); d.check(); vs_assert(!m.is_locked());
}
// a waiting thread does not own the mutex; a woken one does
template <class M> void waiting() {
    M m; condition_variable_any c; bool go = false;
    vs_run([&] { unique_lock<M> l(m); while (!go) { c.wait(l); mine(m); } mine(m); }, [&] { unique_lock<M> l(m); mine(m); go = true; c.notify_one(); mine(m); });
    vs_assert(!m.is_locked());
}
#define REG(M) SCENARIO(truth_##M, vs_opt().bound(2, 4)) { truth<M>(); } SCENARIO(handover_##M, vs_opt().bound(3, 6)) { handover<M>(); } SCENARIO(witness_##M, vs_opt().bound(3, 6)) { witness<M>(); } \
    SCENARIO(locks_##M, vs_opt().bound(3, 5)) { locks<M>(); } SCENARIO(waiting_##M, vs_opt().bound(3, 5).spurious(1)) { waiting<M>(); }
#define REGT(M) SCENARIO(timed_##M, vs_opt().bound(3, 6).spurious(1)) { timed<M>(); }
REG(TM) REG(TT) REG(TA) REG(TS) REGT(TT) REGT(TA) REGT(TS)
// every sequence of operations on one thread
template <class M> void history() {
    M m; bool o = false;
    for (int i = 0; i < (vs_thorough() ? 7 : 5); i++) {
        switch (vs_choose(3)) {
        case 0: if (o) vs_cut(); { int h = vs_choose(A<M>::N); vs_assert(A<M>::f(m, h)); o = true; } break;
        case 1: if (!o) vs_cut(); m.unlock(); o = false; break;
        case 2: { bool r = false, mineToo = true; vs_t a([&] { mineToo = m.is_locked_by_this_thread(); r = m.try_lock(); if (r) { mine(m); m.unlock(); } }); a.join(); vs_assert(r == !o && !mineToo); break; }
        }
        vs_assert(m.is_locked() == o && m.is_locked_by_this_thread() == o && m.get_id() == (o ? this_thread::get_id() : thread::id()));
    }
    if (o) m.unlock();
}
SCENARIO(history_TM, vs_opt().bound(0, 0)) { history<TM>(); }
SCENARIO(history_TT, vs_opt().bound(0, 0)) { history<TT>(); }
SCENARIO(history_TS, vs_opt().bound(0, 0)) { history<TS>(); }
// adapters around the real shared mutex
SCENARIO(adapted_shared, vs_opt().bound(3, 5)) {
    AS m; Data d; int h = vs_choose(4);
    auto w = [&] { m.lock(); vs_assert(vs_add(HOLD, 1) == 1); d.bump(); vs_add(HOLD, -1); m.unlock(); };
    auto r = [&] { bool g = h == 0 ? (m.lock_shared(), true) : h == 1 ? m.try_lock_shared() : h == 2 ? m.try_lock_shared_for(ms(DL)) : m.try_lock_shared_until(in_ms(DL)); if (g) { vs_assert(vs_get(HOLD) == 0); d.check(); vs_assert(vs_get(HOLD) == 0); m.unlock_shared(); } };
    vs_run(w, r, r); vs_assert(d.a == 1); vs_assert(m.try_lock()); m.unlock();
}
// a null mutex grants everything at once, in any number, from any thread
SCENARIO(null, vs_opt().bound(1, 2)) {
    null_mutex m;
    auto f = [&] { m.lock(); vs_assert(m.try_lock() && m.try_lock_for(ms(DL)) && m.try_lock_until(in_ms(DL))); m.unlock();
        m.lock_shared(); vs_assert(m.try_lock_shared() && m.try_lock_shared_for(ms(DL)) && m.try_lock_shared_until(in_ms(DL))); m.unlock_shared();
        m.lock_upgrade(); vs_assert(m.try_lock_upgrade() && m.try_lock_upgrade_for(ms(DL)) && m.try_lock_upgrade_until(in_ms(DL))); m.unlock_upgrade();
        vs_assert(m.try_unlock_shared_and_lock() && m.try_unlock_shared_and_lock_for(ms(DL)) && m.try_unlock_shared_and_lock_until(in_ms(DL))); m.unlock_and_lock_shared();
        vs_assert(m.try_unlock_shared_and_lock_upgrade() && m.try_unlock_shared_and_lock_upgrade_for(ms(DL)) && m.try_unlock_shared_and_lock_upgrade_until(in_ms(DL))); m.unlock_and_lock_upgrade(); m.unlock_upgrade_and_lock();
        vs_assert(m.try_unlock_upgrade_and_lock() && m.try_unlock_upgrade_and_lock_for(ms(DL)) && m.try_unlock_upgrade_and_lock_until(in_ms(DL))); m.unlock_upgrade_and_lock_shared(); vs_assert(vs_now() == 0); };
    vs_run(f, f);
    // in a testable wrapper it still knows its owner
    TN t; t.lock(); mine(t); t.unlock(); not_mine(t); unique_lock<null_mutex> l(m); vs_assert(l.owns_lock());
}
