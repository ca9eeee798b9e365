// S04: every sequence of operations against the ownership rules. shared_mutex ownership is not bound to threads, so one thread
// plays all owners: the state is (number of shared owners, an upgrade owner, an exclusive owner).
#include "sm.hpp"
struct Ref { int s; bool u, x; Ref() : s(0), u(false), x(false) {} };
static bool okX(const Ref& r) { return !r.s && !r.u && !r.x; }
static bool okS(const Ref& r) { return !r.x; }
static bool okU(const Ref& r) { return !r.x && !r.u; }
static void expect(const Ref& r, bool got, bool want, const char* op) { vs_assert_msg(got == want, "%s %s with %d shared, %d upgrade, %d exclusive owners", op, got ? "succeeded" : "failed", r.s, r.u, r.x); }
template <class F> bool timed(F f, int how) { long t = vs_now(); if (how == 4) t = t / 1000 * 1000; bool r = f(); if (!r) vs_assert_msg(vs_now() >= t + DL * MS, "gave up %ld ns before the deadline", t + DL * MS - vs_now()); return r; }
template <class M> void acquire_sx(M& m, Ref& r, int k) {
    switch (k) {
    case 0: { bool g = m.try_lock(); expect(r, g, okX(r), "try_lock"); r.x |= g; break; }
    case 1: { bool g = m.try_lock_shared(); expect(r, g, okS(r), "try_lock_shared"); r.s += g; break; }
    case 2: if (!okX(r)) vs_cut(); m.lock(); r.x = true; break;
    case 3: if (!okS(r)) vs_cut(); m.lock_shared(); r.s++; break;
    case 4: { int h = vs_choose(5); bool g = timed([&] { return tX(m, h, DL); }, h); expect(r, g, okX(r), "timed exclusive"); r.x |= g; break; }
    case 5: { int h = vs_choose(5); bool g = timed([&] { return tS(m, h, DL); }, h); expect(r, g, okS(r), "timed shared"); r.s += g; break; }
    case 6: if (!r.x) vs_cut(); m.unlock(); r.x = false; break;
    case 7: if (!r.s) vs_cut(); m.unlock_shared(); r.s--; break;
    case 8: { bool g = tX(m, 0, -1); expect(r, g, okX(r), "exclusive with a past deadline"); r.x |= g; break; }
    }
}
template <class M> void acquire(M& m, Ref& r, int k) {
    switch (k) {
    default: acquire_sx(m, r, k); break;
    case 9: { bool g = m.try_lock_upgrade(); expect(r, g, okU(r), "try_lock_upgrade"); r.u |= g; break; }
    case 10: if (!okU(r)) vs_cut(); m.lock_upgrade(); r.u = true; break;
    case 11: { int h = vs_choose(5); bool g = timed([&] { return tU(m, h, DL); }, h); expect(r, g, okU(r), "timed upgrade"); r.u |= g; break; }
    case 12: if (!r.u) vs_cut(); m.unlock_upgrade(); r.u = false; break;
    case 13: if (!r.u || r.s) vs_cut(); m.unlock_upgrade_and_lock(); r.u = false; r.x = true; break;
    case 14: if (!r.x) vs_cut(); m.unlock_and_lock_upgrade(); r.x = false; r.u = true; break;
    case 15: if (!r.x) vs_cut(); m.unlock_and_lock_shared(); r.x = false; r.s = 1; break;
    case 16: if (!r.u) vs_cut(); m.unlock_upgrade_and_lock_shared(); r.u = false; r.s++; break;
    case 17: { if (!r.u) vs_cut(); bool g = m.try_unlock_upgrade_and_lock(); expect(r, g, !r.s, "try upgrade to exclusive"); if (g) { r.u = false; r.x = true; } break; }
    case 18: { if (!r.u) vs_cut(); int h = vs_choose(3); bool g = timed([&] { return tUX(m, h, DL); }, h); expect(r, g, !r.s, "timed upgrade to exclusive"); if (g) { r.u = false; r.x = true; } break; }
    case 19: { if (!r.s) vs_cut(); bool g = m.try_unlock_shared_and_lock(); expect(r, g, r.s == 1 && !r.u, "try shared to exclusive"); if (g) { r.s = 0; r.x = true; } break; }
    case 20: { if (!r.s) vs_cut(); int h = vs_choose(3); bool g = timed([&] { return tSX(m, h, DL); }, h); expect(r, g, r.s == 1 && !r.u, "timed shared to exclusive"); if (g) { r.s = 0; r.x = true; } break; }
    case 21: { if (!r.s) vs_cut(); bool g = m.try_unlock_shared_and_lock_upgrade(); expect(r, g, !r.u, "try shared to upgrade"); if (g) { r.s--; r.u = true; } break; }
    case 22: { if (!r.s) vs_cut(); int h = vs_choose(3); bool g = timed([&] { return tSU(m, h, DL); }, h); expect(r, g, !r.u, "timed shared to upgrade"); if (g) { r.s--; r.u = true; } break; }
    }
}
// after the sequence, the availability in every mode matches the rules
template <class M> void probe_sx(M& m, Ref& r) {
    bool g = m.try_lock(); expect(r, g, okX(r), "try_lock"); if (g) m.unlock();
    g = m.try_lock_shared(); expect(r, g, okS(r), "try_lock_shared"); if (g) m.unlock_shared(); }
template <class M> void probe(M& m, Ref& r) { probe_sx(m, r); bool g = m.try_lock_upgrade(); expect(r, g, okU(r), "try_lock_upgrade"); if (g) m.unlock_upgrade(); }
template <class M> void history(int lo, int hi, int depth) {
    M m; Ref r; acquire(m, r, lo + vs_choose(hi - lo)); for (int i = 1; i < depth; i++) acquire(m, r, vs_choose(23)); probe(m, r);
}
#define H(n, lo, hi) SCENARIO(history_##n, vs_opt().bound(1, 1).secs(100, 800)) { history<UM>(lo, hi, vs_thorough() ? 6 : 5); }
H(0, 0, 1) H(1, 1, 2) H(2, 2, 3) H(3, 3, 4) H(4, 4, 5) H(5, 5, 6) H(6, 8, 10) H(7, 10, 11) H(8, 11, 12)
#ifdef VS_TWO
SCENARIO(v2shared_history, vs_opt().bound(1, 1).secs(60, 600)) { SMX m; Ref r; for (int i = 0; i < (vs_thorough() ? 6 : 5); i++) acquire_sx(m, r, vs_choose(9)); probe_sx(m, r); }
#endif
// a timed request against owners that let go at some moment: failure only after the deadline and only if it was never admissible before
static const int NT = 6;
template <class M> void deadline(int k) {
    M m; int own = vs_choose(4);   // 0 X, 1 S, 2 U, 3 S and U
    bool conv = k >= 3; if (conv && own == 0) vs_cut();
    if (own == 0) m.lock(); if (own & 1) m.lock_shared(); if (own & 2) m.lock_upgrade();
    if (k == 4 && own == 2) vs_cut();
    bool got = false; vs_set(1, -1); long done = 0; int h = vs_choose(conv ? 3 : 5);
    if (k == 3) { if (own & 2) vs_cut(); m.lock_upgrade(); } else if (conv) m.lock_shared();
    vs_t a([&] { long t0 = vs_now(); if (h == 4) t0 = t0 / 1000 * 1000;
        switch (k) { case 0: got = tX(m, h, DL); break; case 1: got = tS(m, h, DL); break; case 2: got = tU(m, h, DL); break; case 3: got = tUX(m, h, DL); break; case 4: got = tSX(m, h, DL); break; case 5: got = tSU(m, h, DL); break; }
        done = vs_now(); long r = vs_get(1);
        if (!got) { vs_assert_msg(done >= t0 + DL * MS, "gave up early"); vs_assert_msg(r < 0 || r >= t0 + DL * MS || vs_forced_tick(), "it was available before the deadline but the acquisition failed"); }
        switch (k) { case 0: if (got) m.unlock(); break; case 1: if (got) m.unlock_shared(); break; case 2: if (got) m.unlock_upgrade(); break;
            case 3: got ? m.unlock() : m.unlock_upgrade(); break; case 4: got ? m.unlock() : m.unlock_shared(); break; case 5: got ? m.unlock_upgrade() : m.unlock_shared(); break; } });
    vs_tick_at(DL * MS / 2); vs_tick_at(DL * MS + 1);
    int w = vs_choose(3); if (w) this_thread::sleep_for(ms(w == 1 ? DL - 1 : 2 * DL));
    if (own == 0) m.unlock(); if (own & 2) m.unlock_upgrade(); if (own & 1) m.unlock_shared();
    vs_set(1, vs_now());   // free from here on at the latest
    a.join(); usable(m); vs_outcome("%d%d%d", own, w, got);
}
#define D(k) SCENARIO(deadline_##k, vs_opt().bound(3, 5).spurious(1)) { deadline<UM>(k); }
D(0) D(1) D(2) D(3) D(4) D(5)
// the ownership changes hands while a timed request waits
template <class M> void prolonged(int k) {
    M m; int own = vs_choose(3), h = vs_choose(k >= 3 ? 3 : 5); bool tog = vs_choose(2);   // 0: held exclusively, 1: two shared, 2: upgrade
    if (k == 1 ? own != 0 : k == 2 ? own == 1 : k >= 3 && own == 0) vs_cut(); if (k == 3 && own == 2) vs_cut(); if (k == 5 && own != 2) vs_cut();
    if (k == 3) m.lock_upgrade(); else if (k >= 4) m.lock_shared();
    if (own == 0) m.lock(); else if (own == 1) { m.lock_shared(); m.lock_shared(); } else m.lock_upgrade();
    bool second = own == 1;
    halfway([&] { switch (k) { case 0: if (tX(m, h, DL)) { m.unlock(); return false; } return true; case 1: if (tS(m, h, DL)) { m.unlock_shared(); return false; } return true; case 2: if (tU(m, h, DL)) { m.unlock_upgrade(); return false; } return true;
            case 3: if (tUX(m, h, DL)) { m.unlock_and_lock_upgrade(); return false; } return true; case 4: if (tSX(m, h, DL)) { m.unlock_and_lock_shared(); return false; } return true; default: if (tSU(m, h, DL)) { m.unlock_upgrade_and_lock_shared(); return false; } return true; } },
        [&] { if (!tog) return; if (own == 0) { m.unlock(); m.lock(); } else if (own == 1) { if (second) { m.unlock_shared(); second = false; } else second = m.try_lock_shared(); } else { m.unlock_upgrade(); m.lock_upgrade(); } });
    if (own == 0) m.unlock(); else if (own == 1) { if (second) m.unlock_shared(); m.unlock_shared(); } else m.unlock_upgrade();
    if (k == 3) m.unlock_upgrade(); else if (k >= 4) m.unlock_shared();
    usable(m);
}
#define P(k) SCENARIO(prolonged_##k, vs_opt().bound(2, 3).spurious(1)) { prolonged<UM>(k); }
P(0) P(1) P(2) P(3) P(4) P(5)
