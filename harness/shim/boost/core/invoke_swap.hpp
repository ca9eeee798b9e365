// Boost 1.83, installed here, lacks this header: the same function as in later releases.
#ifndef BOOST_CORE_INVOKE_SWAP_HPP_INCLUDED
#define BOOST_CORE_INVOKE_SWAP_HPP_INCLUDED
#include <utility>
namespace boost_swap_impl_shim { using std::swap; template <class T> void call(T& a, T& b) { swap(a, b); } }
namespace boost { namespace core { template <class T> inline void invoke_swap(T& a, T& b) { ::boost_swap_impl_shim::call(a, b); } } }
#endif
