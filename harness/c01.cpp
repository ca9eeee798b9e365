// C01 (condition_variable), C03 (condition_variable_any, -DVS_ANY): no notification is lost, waits are atomic, locks are held on return
#include "cv.hpp"
enum { PRES = 0, RET = 1, OWED = 2, RDY = 3, STOP = 4, A1 = 8 };
template <class K> struct W { typename K::M m; typename K::CV cv; Data d; };
template <class K> void touch(W<K>& w, typename K::L& l) { vs_assert_msg(l.owns_lock(), "wait returned without the lock"); if (K::excl) w.d.bump(); }
// every notification wakes as many of the waiters present as it promises
template <class K> void accounts(int nw, int nn) {
    typedef typename K::L L; W<K> w; int left = nw;
    auto waiter = [&] { { L l(w.m); touch(w, l); vs_add(PRES, 1); w.cv.wait(K::arg(l)); vs_add(RET, 1); touch(w, l); } };
    int id[3]; for (int i = 0; i < nw; i++) id[i] = vs_spawn(waiter);
    for (int i = 0; i < nn; i++) {
        bool all = vs_choose(2), under = vs_choose(2); long p;
        { unique_lock<typename K::M> l(w.m); if (K::excl) w.d.bump(); p = vs_get(PRES); if (under) { all ? w.cv.notify_all() : w.cv.notify_one(); } }
        if (!under) { all ? w.cv.notify_all() : w.cv.notify_one(); }
        long o = vs_get(OWED); if (all) o = p; else if (o < p) o++; vs_set(OWED, o);
    }
    vs_quiesce(); long o = vs_get(OWED), r = vs_get(RET); vs_assert_msg(r >= o, "%ld waiters must have been woken, %ld were", o, r); vs_outcome("%ld/%ld", r, o);
    w.cv.notify_all(); for (int i = 0; i < nw; i++) vs_pthread_join(id[i]); vs_assert(vs_get(RET) == left);
    unique_lock<typename K::M> l(w.m); if (K::excl) vs_assert(w.d.a == nw * 2 + nn);
}
// a notification is not taken by somebody who starts waiting after it
template <class K> void latecomer() {
    typedef typename K::L L; W<K> w; 
    vs_t a([&] { L l(w.m); vs_set(PRES, 1); w.cv.wait(K::arg(l)); vs_set(A1, 1); });
    vs_t b([&] { vs_await(RDY, 1); L l(w.m); vs_set(PRES, 2); w.cv.wait(K::arg(l)); });
    bool under = vs_choose(2);
    vs_await(PRES, 1); { unique_lock<typename K::M> l(w.m); if (under) w.cv.notify_one(); }
    if (!under) w.cv.notify_one();
    vs_set(RDY, 1); vs_quiesce(); vs_assert_msg(vs_get(A1), "a waiter present when notify_one was called sleeps on");
    w.cv.notify_all(); a.join(); b.join();
}
// predicate waits: no lost wakeup, the predicate holds on return, and it is called with the lock held
template <class K> void predicate(int nw) {
    typedef typename K::L L; W<K> w; int go = 0, all = vs_choose(2), under = vs_choose(2);
    auto waiter = [&] { L l(w.m); w.cv.wait(K::arg(l), [&] { vs_assert_msg(l.owns_lock(), "predicate called without the lock"); return go != 0; }); vs_assert_msg(go != 0, "predicate wait returned although the predicate is false"); touch(w, l); go += K::excl ? 1 : 0; };
    int id[3]; for (int i = 0; i < nw; i++) id[i] = vs_spawn(waiter);
    { unique_lock<typename K::M> l(w.m); go = 1; if (under) { if (all) w.cv.notify_all(); else for (int i = 0; i < nw; i++) w.cv.notify_one(); } }
    if (!under) { if (all) w.cv.notify_all(); else for (int i = 0; i < nw; i++) w.cv.notify_one(); }
    for (int i = 0; i < nw; i++) vs_pthread_join(id[i]); if (K::excl) vs_assert(go == nw + 1);
}

// tokens: as many notify_one as tokens, no more wakeups needed; consumers with every kind of wait
template <class K> bool consume(W<K>& w, int& tok, int kind) {
    typename K::L l(w.m); auto p = [&] { return tok > 0; }; bool r = true;
    switch (kind) {
    case 0: while (!tok) w.cv.wait(K::arg(l)); break;
    case 1: w.cv.wait(K::arg(l), p); break;
    case 2: r = w.cv.wait_for(K::arg(l), ms(FAR_), p); break;
    case 3: r = w.cv.wait_until(K::arg(l), in_ms(FAR_), p); break;
    case 4: r = w.cv.wait_until(K::arg(l), sys_in_ms(FAR_), p); break;
    case 5: while (!tok && r) r = w.cv.wait_for(K::arg(l), ms(FAR_)) == cv_status::no_timeout; r = tok > 0; break;
#ifdef BOOST_THREAD_USES_DATETIME
    case 6: r = w.cv.timed_wait(K::arg(l), posix_time::milliseconds(FAR_), p); break;
    case 7: r = w.cv.timed_wait(K::arg(l), pt_in_ms(FAR_), p); break;
    case 8: r = w.cv.timed_wait(K::arg(l), posix_time::time_duration(date_time::pos_infin), p); break;
    case 9: while (!tok && r) r = w.cv.timed_wait(K::arg(l), posix_time::milliseconds(FAR_)); r = tok > 0; break;
#else
    default: vs_cut();
#endif
    }
    vs_assert(r == (tok > 0)); if (!r) return false; vs_assert_msg(vs_forced_tick() || vs_now() < FAR_ * MS, "woken by the timeout only"); tok--; vs_assert(l.owns_lock()); return true;
}
template <class K> void tokens() {
    if (!K::excl) vs_cut(); W<K> w; int tok = 0, k = vs_choose(10); 
    vs_t a([&] { consume(w, tok, k); }), b([&] { consume(w, tok, k ? 0 : 1); });
    for (int i = 0; i < 2; i++) { { unique_lock<typename K::M> l(w.m); tok++; } w.cv.notify_one(); }
    a.join(); b.join(); if (!vs_forced_tick()) vs_assert_msg(tok == 0, "%d tokens left", tok);
}
template <class K> void pingpong() {
    W<K> w; int turn = 0; auto side = [&](int me) { return [&, me] { for (int i = 0; i < 2; i++) { typename K::L l(w.m); while (turn != me) w.cv.wait(K::arg(l)); turn = 1 - me; w.d.bump(); w.cv.notify_one(); } }; };
    vs_run(side(0), side(1)); vs_assert(w.d.a == 4);
}
// the condition may be destroyed as soon as all its waiters have been notified
template <class K> void destroy() {
    typename K::M m; typename K::CV* cv = new typename K::CV; int go = 0;
    vs_t a([&] { typename K::L l(m); while (!go) cv->wait(K::arg(l)); });
    { unique_lock<typename K::M> l(m); go = 1; cv->notify_all(); }
    delete cv; a.join();
}
// waiting without holding the lock is refused
template <class K> void unowned() {
    mutex m; condition_variable cv; unique_lock<mutex> l(m, defer_lock); int k = vs_choose(2), n = 0;
    try { if (k) cv.wait_for(l, ms(1)); else cv.wait(l); } catch (condition_error&) { n = 1; } vs_assert_msg(n, "wait without the lock not refused"); vs_assert(!l.owns_lock()); vs_assert(m.try_lock()); m.unlock();
    { unique_lock<mutex> l2(m); cv.notify_all(); vs_assert(cv.wait_for(l2, ms(1)) == cv_status::timeout); }
}
#define REG(K) \
    SCENARIO(accounts2_##K, vs_opt().bound(3, 5)) { accounts<K>(2, 2); } \
    SCENARIO(accounts3_##K, vs_opt().bound(2, 3)) { accounts<K>(3, 2); } \
    SCENARIO(latecomer_##K, vs_opt().bound(4, 6)) { latecomer<K>(); } \
    SCENARIO(predicate1_##K, vs_opt().bound(6, 9).spurious(2)) { predicate<K>(1); } \
    SCENARIO(predicate2_##K, vs_opt().bound(3, 4).spurious(1)) { predicate<K>(2); } \
    SCENARIO(tokens_##K, vs_opt().bound(2, 4)) { tokens<K>(); }
REG(K0)
SCENARIO(pingpong_K0, vs_opt().bound(4, 6)) { pingpong<K0>(); }
SCENARIO(destroy_K0, vs_opt().bound(3, 5)) { destroy<K0>(); }
#ifdef VS_ANY
REG(AnyRec) REG(AnyUser) REG(AnyShared) REG(AnyX) REG(AnySelf)
// a lock whose unlock or re-lock throws: the condition stays usable, the exception gets out
struct Bad {};
struct ThrowingLock { mutex& m; int on; bool h; ThrowingLock(mutex& m) : m(m), on(0), h(true) { m.lock(); } ~ThrowingLock() { if (h) m.unlock(); }
    void lock() { if (on == 2) { on = 0; m.lock(); h = true; throw Bad(); } m.lock(); h = true; } void unlock() { if (on == 1) { on = 0; throw Bad(); } h = false; m.unlock(); } };
SCENARIO(throwing_unlock, vs_opt().bound(4, 6)) {
    mutex m; condition_variable_any cv; int go = 0, n = 0, k = vs_choose(2);
    vs_t a([&] { ThrowingLock l(m); l.on = 1; try { k ? (void)cv.wait_for(l, ms(FAR_)) : cv.wait(l); } catch (Bad&) { n = 1; } vs_assert_msg(n, "the exception of unlock was swallowed"); vs_assert(l.h); });
    vs_t b([&] { unique_lock<mutex> l(m); while (!go) cv.wait(l); });
    { unique_lock<mutex> l(m); go = 1; } cv.notify_all(); a.join(); b.join();
}
#else
SCENARIO(unowned_K0, vs_opt().bound(0, 0)) { unowned<K0>(); }
#endif
