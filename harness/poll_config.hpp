// The configuration of platforms that have a monotonic clock but cannot wait on it (as old Android, macOS):
// timed waits poll on the system clock, timed mutexes use pthread_mutex_timedlock.
#include <time.h>
#undef CLOCK_MONOTONIC
#define BOOST_THREAD_HAS_MONO_CLOCK
#define VS_POLL_CFG 1
#include <boost/thread/detail/config.hpp>
#define CLOCK_MONOTONIC 1
#if defined BOOST_THREAD_INTERNAL_CLOCK_IS_MONO || !defined BOOST_THREAD_USES_PTHREAD_TIMEDLOCK
#error poll configuration not in effect
#endif
