// M03: recursive mutexes belong to one thread until it has unlocked as often as it locked.
#include "vsh.hpp"
using namespace boost;
// every sequence of acquire/release operations of depth 6 by one thread, an observer probing with try_lock after each
template <class M> bool acq(M& m, int h, long) { return h ? m.try_lock() : (m.lock(), true); }
inline bool acq(recursive_timed_mutex& m, int h, int) {
    switch (h) { case 0: m.lock(); return true; case 1: return m.try_lock(); case 2: return m.try_lock_for(ms(DL));
    case 3: return m.try_lock_until(sys_in_ms(DL)); default: return m.timed_lock(posix_time::milliseconds(DL)); }
}
template <class M> struct N { enum { n = 2 }; }; template <> struct N<recursive_timed_mutex> { enum { n = 5 }; };
template <class M> void seq() {
    M m; int n = 0; int depth = vs_thorough() ? 6 : 5;
    enum { OP = 1, ANS = 2, STEP = 3, DONE = 4 };
    vs_t obs([&] { for (int i = 1;; i++) { vs_await(STEP, i); if (vs_get(STEP) > 1000) break; bool r = m.try_lock(); if (r) m.unlock(); vs_set(ANS, r); vs_set(DONE, i); } });
    for (int i = 1; i <= depth; i++) {
        int k = vs_choose(n ? 2 : 1);
        if (k) { m.unlock(); n--; } else { int h = vs_choose(N<M>::n); vs_assert_msg(acq(m, h, 0), "owner could not acquire again"); n++; }
        vs_set(STEP, i); vs_await(DONE, i);
        vs_assert_msg(vs_get(ANS) == (n == 0), "after %d unmatched locks another thread's try_lock returned %ld", n, vs_get(ANS));
    }
    while (n) { m.unlock(); n--; }
    vs_set(STEP, 5000); obs.join(); vs_assert(m.try_lock()); m.unlock();
}
// two threads each locking twice, concurrently
template <class M> void nested() {
    M m; Data d;
    auto f = [&] { m.lock(); d.bump(); m.lock(); d.bump(); m.unlock(); vs_point(); d.bump(); m.unlock(); };
    vs_run(f, f); vs_assert(d.a == 6);
}
template <class M> void nested3() {
    M m; Data d;
    auto f = [&] { m.lock(); m.lock(); d.bump(); m.unlock(); d.bump(); m.unlock(); };
    vs_run(f, f, f); vs_assert(d.a == 6);
}
template <class M> void nestedtry() {
    M m; Data d; int ok = 0;
    vs_run([&] { m.lock(); m.lock(); d.bump(); m.unlock(); vs_point(); d.bump(); m.unlock(); },
           [&] { if (m.try_lock()) { vs_assert(m.try_lock()); d.bump(); m.unlock(); d.bump(); m.unlock(); ok = 2; } });
    vs_assert(d.a == 2 + ok); vs_outcome("%d", ok);
}
template <class M> void cvlike() {   // partial release by the owner never lets a waiter in
    M m; Data d; m.lock(); m.lock();
    vs_t a([&] { m.lock(); vs_assert(vs_get(5) == 1); d.bump(); m.unlock(); });
    m.unlock(); vs_point(); d.bump(); vs_set(5, 1); m.unlock(); a.join();
}
#define REG(M) \
    SCENARIO(seq_##M, vs_opt().bound(0, 1)) { seq<M>(); } \
    SCENARIO(nested_##M, vs_opt().bound(9, 11)) { nested<M>(); } \
    SCENARIO(nested3_##M, vs_opt().bound(5, 7)) { nested3<M>(); } \
    SCENARIO(nestedtry_##M, vs_opt().bound(9, 11)) { nestedtry<M>(); } \
    SCENARIO(cvlike_##M, vs_opt().bound(9, 11).spurious(1)) { cvlike<M>(); }
REG(recursive_mutex) REG(recursive_timed_mutex)
SCENARIO(timed_expiry_keeps_owner, vs_opt().bound(6, 8).spurious(1)) {
    recursive_timed_mutex m; m.lock(); bool g;
    vs_t a([&] { g = m.try_lock_for(ms(DL)); if (g) { vs_assert(vs_get(5)); vs_assert(m.try_lock()); m.unlock(); m.unlock(); } });
    vs_assert(m.try_lock_for(ms(DL))); m.unlock(); vs_point(); vs_set(5, 1); m.unlock(); a.join(); vs_assert(m.try_lock()); m.unlock();
}
