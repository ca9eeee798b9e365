// The configuration of platforms without pthread_mutexattr_settype: recursive mutexes count their locks themselves.
#include <boost/config.hpp>
#undef BOOST_HAS_PTHREAD_MUTEXATTR_SETTYPE
