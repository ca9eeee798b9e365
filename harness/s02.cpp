// S02: whoever can proceed is woken. Whenever every thread is blocked, no waiting request may be admissible.
#include "sm.hpp"
// what a thread holds and wants, ghost cells
enum { HOLD = 0, WANT = 8, FIN = 16 };   // + thread index (0 is the main thread)
enum Want { NONE = 0, WX, WS, WU, CUX, CSX, CSU };
static int nt;
static void hold(int i, int m) { vs_set(HOLD + i, m); } 
static void want(int i, int w) { vs_set(WANT + i, w); }
static int mainS;   // shared ownerships of the main thread besides its mode (set via ghost 30)
static void check(const char* at) {
    vs_quiesce();
    int nS = (int)vs_get(30), nU = 0, nX = 0, writers = 0;
    for (int i = 0; i < nt; i++) { int h = (int)vs_get(HOLD + i); nS += h == Sh; nU += h == Up; nX += h == Ex; int w = (int)vs_get(WANT + i); writers += w == WX || w == CUX || w == CSX; }
    for (int i = 1; i < nt; i++) {
        int w = (int)vs_get(WANT + i), h = (int)vs_get(HOLD + i); bool ok = false;
        int s = nS - (h == Sh), u = nU - (h == Up), x = nX;
        switch (w) {
        case WX: ok = !s && !u && !x && writers == 1; break;
        case WS: ok = !x && !writers; break;
        case WU: ok = !x && !u && !writers; break;
        case CUX: ok = !s && !x; break;
        case CSX: ok = !s && !u && !x && writers == 1; break;
        case CSU: ok = !u && !x && !writers; break;
        }
        static const char* nm[] = {"", "exclusive", "shared", "upgrade", "upgrade-to-exclusive", "shared-to-exclusive", "shared-to-upgrade"};
        vs_assert_msg(!ok, "a thread waiting for %s access is stranded %s although it is admissible (%d shared, %d upgrade owners)", nm[w], at, s, u);
        // several writers: at least one must have got through
        if (w == WX && !s && !u && !x && writers > 1) {
            int others = 0; for (int j = 1; j < nt; j++) if (j != i && vs_get(HOLD + j) != N) others++;
            vs_assert_msg(others, "several writers wait on a free mutex");
        }
    }
}
static const int NW = 16;
template <class M> void waiter_sx(M& m, int i, int k) {
    bool r = true;
    switch (k) {
    case 0: want(i, WX); m.lock(); want(i, 0); hold(i, Ex); hold(i, N); m.unlock(); break;
    case 1: want(i, WS); m.lock_shared(); want(i, 0); m.unlock_shared(); break;
    case 2: want(i, WX); r = tX(m, 0, DL); want(i, 0); if (r) m.unlock(); break;
    case 3: want(i, WX); r = tX(m, 0, FAR_); want(i, 0); if (r) m.unlock(); break;
    case 4: want(i, WS); r = tS(m, 0, FAR_); want(i, 0); if (r) m.unlock_shared(); break;
    case 5: want(i, WX); r = tX(m, 3, DL); want(i, 0); if (r) m.unlock(); break;
    case 6: want(i, WX); r = tX(m, 4, DL); want(i, 0); if (r) m.unlock(); break;
    }
    vs_set(FIN + i, 1);
}
template <class M> void waiter(M& m, int i, int k) {
    bool r;
    switch (k) {
    default: waiter_sx(m, i, k); break;
    case 7: want(i, WU); m.lock_upgrade(); want(i, 0); hold(i, N); m.unlock_upgrade(); break;
    case 8: want(i, WU); r = tU(m, 0, FAR_); want(i, 0); if (r) m.unlock_upgrade(); break;
    case 9: want(i, WU); m.lock_upgrade(); hold(i, Up); want(i, CUX); m.unlock_upgrade_and_lock(); hold(i, N); want(i, 0); m.unlock(); break;
    case 10: case 11: want(i, WU); m.lock_upgrade(); hold(i, Up); want(i, CUX); r = tUX(m, 0, k == 10 ? FAR_ : DL); want(i, 0); hold(i, N); if (r) m.unlock(); else m.unlock_upgrade(); break;
    case 12: case 13: want(i, WS); m.lock_shared(); hold(i, Sh); want(i, CSX); r = tSX(m, 0, k == 12 ? FAR_ : DL); want(i, 0); hold(i, N); if (r) m.unlock(); else m.unlock_shared(); break;
    case 14: case 15: want(i, WS); m.lock_shared(); hold(i, Sh); want(i, CSU); r = tSU(m, 0, k == 14 ? FAR_ : DL); want(i, 0); hold(i, N); if (r) m.unlock_upgrade(); else m.unlock_shared(); break;
    }
    vs_set(FIN + i, 1);
}
// the main thread's script: it holds, the waiters queue up, it lets go step by step
template <class M> void step_sx(M& m, int sc, int st, bool& more) {
    more = false;
    switch (sc) {
    case 0: if (st == 0) { m.lock(); hold(0, Ex); more = true; } else { hold(0, N); m.unlock(); } break;
    case 1: if (st == 0) { m.lock_shared(); hold(0, Sh); more = true; } else { hold(0, N); m.unlock_shared(); } break;
    case 2: if (st == 0) { m.lock_shared(); m.lock_shared(); vs_set(30, 2); more = true; } else if (st == 1) { vs_set(30, 1); m.unlock_shared(); more = true; } else { vs_set(30, 0); m.unlock_shared(); } break;
    }
}
static const int NSCRIPT = 10;
template <class M> void step(M& m, int sc, int st, bool& more) {
    more = false;
    switch (sc) {
    default: step_sx(m, sc, st, more); break;
    case 3: if (st == 0) { m.lock(); hold(0, Ex); more = true; } else if (st == 1) { hold(0, Sh); m.unlock_and_lock_shared(); more = true; } else { hold(0, N); m.unlock_shared(); } break;
    case 4: if (st == 0) { m.lock(); hold(0, Ex); more = true; } else if (st == 1) { hold(0, Up); m.unlock_and_lock_upgrade(); more = true; } else { hold(0, N); m.unlock_upgrade(); } break;
    case 5: if (st == 0) { m.lock_upgrade(); hold(0, Up); more = true; } else { hold(0, N); m.unlock_upgrade(); } break;
    case 6: if (st == 0) { m.lock_upgrade(); hold(0, Up); more = true; } else if (st == 1) { hold(0, Sh); m.unlock_upgrade_and_lock_shared(); more = true; } else { hold(0, N); m.unlock_shared(); } break;
    case 7: if (st == 0) { m.lock_upgrade(); m.lock_shared(); hold(0, Up); vs_set(30, 1); more = true; } else if (st == 1) { hold(0, N); m.unlock_upgrade(); more = true; } else { vs_set(30, 0); m.unlock_shared(); } break;
    case 8: if (st == 0) { m.lock_upgrade(); m.lock_shared(); hold(0, Up); vs_set(30, 1); more = true; } else if (st == 1) { vs_set(30, 0); m.unlock_shared(); more = true; } else { hold(0, N); m.unlock_upgrade(); } break;
    case 9: if (st == 0) { m.lock_upgrade(); hold(0, Up); more = true; } else if (st == 1) { m.try_unlock_upgrade_and_lock() ? hold(0, Ex) : hold(0, Up); more = true; } else { int h = (int)vs_get(HOLD); hold(0, N); if (h == Ex) m.unlock(); else m.unlock_upgrade(); } break;
    }
}
template <class M, class W, class St> void run(int sc, int n, int nw, W waiter, St step) {
    M m; bool more; nt = n + 1; step(m, sc, 0, more);
    int k1 = vs_choose(nw), k2 = n > 1 ? vs_choose(k1 + 1) : 0, k3 = n > 2 ? vs_choose(k2 + 1) : 0; bool settle = n > 2 || vs_choose(2), late = settle && vs_choose(2); int tids[3];
    for (int i = 1; i <= n; i++) { int k = i == 1 ? k1 : i == 2 ? k2 : k3; tids[i - 1] = vs_spawn([&, i, k] { waiter(m, i, k); }); }
    if (settle) check("while the first owner holds it");
    if (late) { vs_advance(2 * DL * MS); check("after some attempts timed out"); }
    for (int st = 1; more; st++) { step(m, sc, st, more); check(more ? "after a partial release" : "after the release"); }
    for (int i = 0; i < n; i++) vs_pthread_join(tids[i]);
}
#ifdef VS_POLL_CFG
#define R2(s) SCENARIO(two_waiters_##s, vs_opt().bound(1, 2).secs(100, 600)) { run<UM>(s, 2, NW, waiter<UM>, step<UM>); }
R2(0) R2(1) R2(2) R2(3) R2(4) R2(5) R2(6) R2(7) R2(8) R2(9)
#else
#define R2(s) SCENARIO(two_waiters_##s, vs_opt().bound(2, 4).secs(100, 600)) { run<UM>(s, 2, NW, waiter<UM>, step<UM>); }
#define R3(s) SCENARIO(three_waiters_##s, vs_opt().bound(0, 1).secs(100, 600)) { run<UM>(s, 3, NW, waiter<UM>, step<UM>); }
R2(0) R2(1) R2(2) R2(3) R2(4) R2(5) R2(6) R2(7) R2(8) R2(9)
R3(0) R3(1) R3(2) R3(3) R3(4) R3(5) R3(6) R3(7) R3(8) R3(9)
#endif
#ifdef VS_TWO
#define V2(s) SCENARIO(v2shared_##s, vs_opt().bound(3, 5).secs(60, 400)) { run<SMX>(s, 2, NSHARED_ONLY, waiter_sx<SMX>, step_sx<SMX>); } \
              SCENARIO(v2shared3_##s, vs_opt().bound(1, 3).secs(60, 400)) { run<SMX>(s, 3, NSHARED_ONLY, waiter_sx<SMX>, step_sx<SMX>); }
V2(0) V2(1) V2(2)
#endif
// a writer that waits for readers is not starved: readers who come later are kept out until those it waits for have left, however often others were faster
template <class M> void unstarved() {
    M m; int k = vs_choose(3), f = vs_choose(4), n = 1 + vs_choose(2); for (int i = 0; i < n; i++) m.lock_shared();
    auto over = [] { return vs_forced_tick() || vs_now() >= FAR_ * MS; };
    vs_t w([&] { bool r = k == 0 ? (m.lock(), true) : tX(m, k == 1 ? 0 : 3, FAR_); vs_assert(r || over()); vs_set(31, 1); if (r) m.unlock(); });
    vs_quiesce();
    vs_t b([&] { switch (f) { case 0: m.lock_shared(); break; case 1: if (!m.try_lock_shared()) return; break; case 2: if (!tS(m, 0, FAR_)) { vs_assert(over()); return; } break; default: if (!tS(m, 0, -1)) return; }
        vs_set(32, 1); vs_assert_msg(vs_get(33) || (k && over()), "a reader got in although a writer was waiting for earlier readers: overlapping readers could starve it"); vs_await(34, 1); m.unlock_shared(); });
    vs_quiesce(); vs_assert(!vs_get(31) || (k && over()));
    for (int i = 0; i < n; i++) { if (i == n - 1) vs_set(33, 1); m.unlock_shared(); }
    vs_quiesce();
    if (vs_get(32) && !vs_get(31)) { bool g = m.try_lock_shared(); vs_assert_msg(!g || (k && over()), "a reader got in although a writer was waiting for an earlier reader that had been faster"); if (g) m.unlock_shared(); vs_set(35, 1); }
    vs_set(34, 1); w.join(); b.join(); usable_sx(m); vs_outcome("%d%d%d%d", k, f, (int)vs_get(32), (int)vs_get(35));
}
SCENARIO(unstarved, vs_opt().bound(3, 5)) { unstarved<UM>(); }
#ifdef VS_TWO
SCENARIO(unstarved_shared, vs_opt().bound(3, 5)) { unstarved<SMX>(); }
#endif
// whatever others give up or release meanwhile, the waiting writer goes on keeping new readers out
template <class M, bool UPG> void still_first() {
    M m; int first = vs_choose(2), ev = vs_choose(UPG ? 14 : 8), how = ev < 4 ? ev : 0; m.lock_shared(); bool extra = false; if (ev == 4) { m.lock_shared(); extra = true; }
#ifdef VS_V2
    if (ev == 10 || ev >= 12) return;     // a writer that waits for an upgrade owner does not keep readers out there
#endif
    bool upg = UPG && ev >= 8 && ev != 11; if constexpr (UPG) if (upg) m.lock_upgrade();
    auto writer = [&] { m.lock(); vs_set(31, 1); m.unlock(); };
    auto other = [&] { switch (ev) { case 0: case 1: case 2: case 3: vs_assert(!tX(m, how, DL) || vs_get(31)); break; case 4: m.unlock_shared(); break; case 5: vs_assert(!m.try_lock()); break; case 6: vs_assert(!tS(m, 0, DL) || vs_get(31)); break; case 7: vs_assert(!m.try_lock_shared()); break;
        default: if constexpr (UPG) switch (ev) { case 8: m.unlock_upgrade(); break; case 9: m.unlock_upgrade_and_lock_shared(); break; case 10: vs_assert(!m.try_unlock_upgrade_and_lock()); break; case 11: vs_assert(!tU(m, 0, DL)); break; case 12: vs_assert(!tUX(m, 0, DL)); break; case 13: vs_assert(!tUX(m, 2, DL)); break; } } };
    auto o = [&] { if (ev < 4 && !first) vs_set(33, 1); other(); };
    vs_t w([&] { if (!first) vs_await(33, 1); writer(); }); if (first) vs_quiesce(); else if (ev >= 4) vs_set(33, 1), vs_quiesce();
    vs_t b(o); b.join(); vs_quiesce(); vs_assert_msg(!vs_get(31), "a writer got in beside a reader");
    bool g = m.try_lock_shared(); vs_assert_msg(!g, "a reader got in although a writer was waiting for an earlier reader (event %d): overlapping readers could starve it", ev);
    bool s = tS(m, 0, -1); vs_assert_msg(!s, "a reader got in although a writer was waiting for an earlier reader (event %d)", ev);
    if constexpr (UPG) { bool u = m.try_lock_upgrade(); vs_assert_msg(!u, "an upgrade lock was admitted although a writer was waiting (event %d)", ev); if (ev == 10 || ev == 12 || ev == 13) m.unlock_upgrade(); else if (ev == 9) m.unlock_shared(); }
    m.unlock_shared(); w.join(); vs_assert(vs_get(31)); usable_sx(m); vs_outcome("%d%d", first, ev);
}
SCENARIO(still_first, vs_opt().bound(2, 3)) { still_first<UM, true>(); }
#ifdef VS_TWO
SCENARIO(still_first_shared, vs_opt().bound(2, 3)) { still_first<SMX, false>(); }
#endif
