// M01: mutexes exclude each other and publish what was written under them.
#include "vsh.hpp"
using namespace boost;
static int HOLD = 1;

// one way of acquiring and releasing; returns false when not acquired
template <class M> bool acq(M& m, int how) {
    switch (how) {
    case 0: m.lock(); return true;
    case 1: return m.try_lock();
    default: return false;
    }
}
template <class M> bool acq_timed(M& m, int how) {
    switch (how) {
    case 0: m.lock(); return true;
    case 1: return m.try_lock();
    case 2: return m.try_lock_for(ms(DL));
    case 3: return m.try_lock_until(in_ms(DL));
    case 4: return m.try_lock_until(sys_in_ms(DL));
    case 5: return m.timed_lock(posix_time::milliseconds(DL));
    case 6: return m.timed_lock(pt_in_ms(DL));
    case 7: return m.try_lock_for(ms(-1));
    }
    return false;
}
template <class M, bool Timed> struct A { static bool go(M& m, int h) { return acq(m, h); } enum { N = 2 }; };
template <class M> struct A<M, true> { static bool go(M& m, int h) { return acq_timed(m, h); } enum { N = 8 }; };

// three threads, everything by lock()
template <class M> void lock3() {
    M m; Data d; int n = 0;
    auto f = [&] { for (int i = 0; i < 2; i++) { m.lock(); d.bump(); n++; m.unlock(); } };
    vs_run(f, f, f); vs_assert(n == 6 && d.a == 6);
}
// two threads acquire each in any way; each records what it did; data agrees with the number of acquisitions
template <class M, bool T> void mixed() {
    M m; Data d; int h1 = vs_choose(A<M, T>::N), h2 = vs_choose(A<M, T>::N);
    auto f = [&](int h) { return [&, h] { if (A<M, T>::go(m, h)) { vs_assert(vs_add(HOLD, 1) == 1); d.bump(); vs_add(HOLD, -1); m.unlock(); vs_add(2, 1); } }; };
    vs_run(f(h1), f(h2)); vs_assert(d.a == vs_get(2)); vs_outcome("%d%d:%d", h1, h2, d.a);
}
// three threads: one holds, two acquire in any way
template <class M, bool T> void mixed3() {
    M m; Data d; int h = vs_choose(A<M, T>::N);
    auto l = [&] { m.lock(); vs_assert(vs_add(HOLD, 1) == 1); d.bump(); vs_add(HOLD, -1); m.unlock(); vs_add(2, 1); };
    vs_run(l, [&] { if (A<M, T>::go(m, h)) { vs_assert(vs_add(HOLD, 1) == 1); d.bump(); vs_add(HOLD, -1); m.unlock(); vs_add(2, 1); } }, l);
    vs_assert(d.a == vs_get(2)); vs_outcome("%d:%d", h, d.a);
}
// the last unlocker may be followed at once by destruction
template <class M> void destroy() {
    M* m = new M; int n = 0;
    auto f = [&] { bool last; { unique_lock<M> l(*m); last = ++n == 2; } if (last) delete m; };
    vs_run(f, f);
}
#define REG(M, T) \
    SCENARIO(lock3_##M, vs_opt().bound(8, 10)) { lock3<M>(); } \
    SCENARIO(mixed_##M, vs_opt().bound(6, 8).spurious(1)) { mixed<M, T>(); } \
    SCENARIO(mixed3_##M, vs_opt().bound(4, 6)) { mixed3<M, T>(); } \
    SCENARIO(destroy_##M, vs_opt().bound(8, 10)) { destroy<M>(); }
#ifndef VS_NOREC
REG(mutex, false) REG(timed_mutex, true)
#endif
REG(recursive_mutex, false) REG(recursive_timed_mutex, true)
