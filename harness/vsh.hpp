// shared by the harnesses
#pragma once
#include "vs.h"
#include <boost/thread/detail/config.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/chrono/system_clocks.hpp>
#include <boost/chrono/duration.hpp>
#include <boost/thread/thread_time.hpp>
#include <boost/thread/xtime.hpp>
#include <boost/thread/thread_only.hpp>
namespace bc = boost::chrono;
typedef bc::milliseconds ms;
static const long MS = 1000000;
// deadlines lie DL ms ahead; a far deadline must never be needed
#ifdef VS_POLL_CFG
static const int DL = 10, FAR_ = 350;      // waits poll every 100 ms
#else
static const int DL = 10, FAR_ = 3600 * 1000;
#endif
static inline bc::steady_clock::time_point in_ms(int n) { return bc::steady_clock::now() + ms(n); }
static inline bc::system_clock::time_point sys_in_ms(int n) { return bc::system_clock::now() + ms(n); }
static inline boost::system_time pt_in_ms(int n) { return boost::get_system_time() + boost::posix_time::milliseconds(n); }
#ifdef BOOST_THREAD_USES_DATETIME
static inline boost::xtime xt_in_ms(int n) { return boost::get_xtime(pt_in_ms(n)); }
#endif
// plain data: the race detector shows any lack of mutual exclusion or visibility
struct Data { int a, b; Data() : a(0), b(0) {} void bump() { int t = a; vs_point(); a = t + 1; b = a; } void check() { vs_assert(a == b); } };
// a waiter woken for nothing before its deadline (spuriously, or by g) still ends at the deadline; w(): a timed wait of DL ms that gives up, true if it did
template <class W, class G> void halfway(W w, G g, long slack = MS) {
    vs_t a([&] { long t0 = vs_now(); bool up = w(); long t = vs_now(); if (up) vs_assert_msg(t >= t0 + DL * MS - 1000, "gave up %ld ns before the deadline", t0 + DL * MS - t);
        if (!vs_forced_tick()) vs_assert_msg(t <= t0 + DL * MS + slack, "woken before the deadline for nothing, the wait lasted %ld ns beyond it", t - t0 - DL * MS); });
    for (int i = 0; i < 3; ++i) { boost::this_thread::sleep_for(ms(DL * 3 / 5)); g(); } a.join(); }
static inline void nothing() {}
