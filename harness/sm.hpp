// shared_mutex family: programs and helpers common to S01-S05
#pragma once
#include "vsh.hpp"
#if defined VS_V2
#include <boost/thread/v2/shared_mutex.hpp>
typedef boost::thread_v2::upgrade_mutex UM;    // has every mode
typedef boost::thread_v2::shared_mutex SMX;    // shared and exclusive only
#define VS_TWO 1
#else
#include <boost/thread/shared_mutex.hpp>
typedef boost::shared_mutex UM;
#endif
using namespace boost;
enum Mode { N, Sh, Up, Ex };
struct Shared { int d, u; Shared() : d(0), u(0) {} };
static void rd(Shared& x, int& v) { v = x.d; }
static void same(Shared& x, int v, const char* w) { int now = x.d; vs_assert_msg(now == v, "data changed across %s: %d became %d", w, v, now); }
static void uw(Shared& x) { x.u = x.u + 1; }
static void xw(Shared& x) { x.d = x.d + 1; x.u = x.u + 1; }

template <class M> bool tX(M& m, int how, int n) {
    switch (how) { case 0: return m.try_lock_for(ms(n)); case 1: return m.try_lock_until(in_ms(n)); case 2: return m.try_lock_until(sys_in_ms(n));
    case 3: return m.timed_lock(posix_time::milliseconds(n)); default: return m.timed_lock(pt_in_ms(n)); } }
template <class M> bool tS(M& m, int how, int n) {
    switch (how) { case 0: return m.try_lock_shared_for(ms(n)); case 1: return m.try_lock_shared_until(in_ms(n)); case 2: return m.try_lock_shared_until(sys_in_ms(n));
    case 3: return m.timed_lock_shared(posix_time::milliseconds(n)); default: return m.timed_lock_shared(pt_in_ms(n)); } }
template <class M> bool tU(M& m, int how, int n) {
    switch (how) { case 0: return m.try_lock_upgrade_for(ms(n)); case 1: return m.try_lock_upgrade_until(in_ms(n)); case 2: return m.try_lock_upgrade_until(sys_in_ms(n));
    case 3: return m.timed_lock_upgrade(posix_time::milliseconds(n)); default: return m.timed_lock_upgrade(pt_in_ms(n)); } }
template <class M> bool tUX(M& m, int how, int n) { return how == 0 ? m.try_unlock_upgrade_and_lock_for(ms(n)) : how == 1 ? m.try_unlock_upgrade_and_lock_until(in_ms(n)) : m.try_unlock_upgrade_and_lock_until(sys_in_ms(n)); }
template <class M> bool tSX(M& m, int how, int n) { return how == 0 ? m.try_unlock_shared_and_lock_for(ms(n)) : how == 1 ? m.try_unlock_shared_and_lock_until(in_ms(n)) : m.try_unlock_shared_and_lock_until(sys_in_ms(n)); }
template <class M> bool tSU(M& m, int how, int n) { return how == 0 ? m.try_unlock_shared_and_lock_upgrade_for(ms(n)) : how == 1 ? m.try_unlock_shared_and_lock_upgrade_until(in_ms(n)) : m.try_unlock_shared_and_lock_upgrade_until(sys_in_ms(n)); }

static const int NPROG = 22, NSHARED_ONLY = 7;
// the first NSHARED_ONLY programs need no upgrade mode
template <class M> void prog_sx(M& m, Shared& x, int k) {
    int v;
    switch (k) {
    case 0: m.lock(); xw(x); m.unlock(); break;
    case 1: m.lock_shared(); rd(x, v); m.unlock_shared(); break;
    case 2: if (m.try_lock()) { xw(x); m.unlock(); } break;
    case 3: if (m.try_lock_shared()) { rd(x, v); m.unlock_shared(); } break;
    case 4: if (tX(m, 0, DL)) { xw(x); m.unlock(); } break;
    case 5: if (tS(m, 0, DL)) { rd(x, v); m.unlock_shared(); } break;
    case 6: if (tX(m, 3, DL)) { xw(x); m.unlock(); } if (tS(m, 3, DL)) { rd(x, v); m.unlock_shared(); } break;
    }
}
template <class M> void prog(M& m, Shared& x, int k) {
    int v;
    switch (k) {
    default: prog_sx(m, x, k); break;
    case 7: m.lock_upgrade(); uw(x); rd(x, v); m.unlock_upgrade(); break;
    case 8: if (m.try_lock_upgrade()) { uw(x); rd(x, v); m.unlock_upgrade(); } break;
    case 9: if (tU(m, 0, DL)) { uw(x); rd(x, v); m.unlock_upgrade(); } break;
    case 10: if (tU(m, 3, DL)) { uw(x); rd(x, v); m.unlock_upgrade(); } break;
    case 11: m.lock_upgrade(); rd(x, v); uw(x); m.unlock_upgrade_and_lock(); same(x, v, "upgrade to exclusive"); xw(x); m.unlock(); break;
    case 12: m.lock(); xw(x); rd(x, v); m.unlock_and_lock_shared(); same(x, v, "exclusive to shared"); m.unlock_shared(); break;
    case 13: m.lock(); xw(x); rd(x, v); m.unlock_and_lock_upgrade(); same(x, v, "exclusive to upgrade"); uw(x); m.unlock_upgrade(); break;
    case 14: m.lock_upgrade(); uw(x); rd(x, v); m.unlock_upgrade_and_lock_shared(); same(x, v, "upgrade to shared"); m.unlock_shared(); break;
    case 15: m.lock_upgrade(); rd(x, v); if (m.try_unlock_upgrade_and_lock()) { same(x, v, "upgrade to exclusive"); xw(x); m.unlock(); } else { uw(x); same(x, v, "failed conversion"); m.unlock_upgrade(); } break;
    case 16: m.lock_upgrade(); rd(x, v); if (tUX(m, 0, DL)) { same(x, v, "upgrade to exclusive"); xw(x); m.unlock(); } else { uw(x); same(x, v, "failed conversion"); m.unlock_upgrade(); } break;
    case 17: m.lock_shared(); rd(x, v); if (m.try_unlock_shared_and_lock()) { same(x, v, "shared to exclusive"); xw(x); m.unlock(); } else { same(x, v, "failed conversion"); m.unlock_shared(); } break;
    case 18: m.lock_shared(); rd(x, v); if (tSX(m, 0, DL)) { same(x, v, "shared to exclusive"); xw(x); m.unlock(); } else { same(x, v, "failed conversion"); m.unlock_shared(); } break;
    case 19: m.lock_shared(); rd(x, v); if (m.try_unlock_shared_and_lock_upgrade()) { same(x, v, "shared to upgrade"); uw(x); m.unlock_upgrade(); } else { same(x, v, "failed conversion"); m.unlock_shared(); } break;
    case 20: m.lock_shared(); rd(x, v); if (tSU(m, 0, DL)) { same(x, v, "shared to upgrade"); uw(x); m.unlock_upgrade(); } else { same(x, v, "failed conversion"); m.unlock_shared(); } break;
    // all the way up and down
    case 21: m.lock(); xw(x); rd(x, v); m.unlock_and_lock_upgrade(); same(x, v, "exclusive to upgrade"); m.unlock_upgrade_and_lock(); same(x, v, "upgrade to exclusive"); xw(x); rd(x, v); m.unlock_and_lock_shared(); same(x, v, "exclusive to shared"); m.unlock_shared(); break;
    }
}
// every mode is available again
template <class M> void usable_sx(M& m) {
    vs_assert_msg(m.try_lock(), "not available exclusively after everyone released"); m.unlock();
    vs_assert_msg(m.try_lock_shared(), "not available for sharing after everyone released"); vs_assert_msg(m.try_lock_shared(), "not sharable"); vs_assert_msg(!m.try_lock(), "exclusive although shared"); m.unlock_shared(); m.unlock_shared(); }
template <class M> void usable(M& m) {
    usable_sx(m);
    vs_assert_msg(m.try_lock_upgrade(), "not available for upgrade after everyone released"); vs_assert_msg(!m.try_lock_upgrade(), "two upgraders"); vs_assert(m.try_lock_shared()); m.unlock_shared(); m.unlock_upgrade(); }
