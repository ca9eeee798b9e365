// shared by the future harnesses
#pragma once
#include "vsh.hpp"
#define BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS_OFF
#include <boost/thread/future.hpp>
#include <boost/thread/thread_only.hpp>
#include <memory>
#include <new>
template <class T> using fut = boost::BOOST_THREAD_FUTURE<T>;
template <class T> using sfut = boost::shared_future<T>;
using boost::promise; using boost::shared_future;
// what an access to a future comes to: a value, EXC+n for the exception Ex(n), or one of these
enum { EXC = 1000, BROKEN = -1, UNINIT = -2, RETRIEVED = -3, SATISFIED = -4, MOVED = -5, STARTED = -6, INTR = -7, OTHER = -9, OK = 0 };
struct Ex { int n; Ex(int m) : n(m) {} };
enum { LIVE = 60, COPIES = 61 };                       // tracked objects
struct Obj { int v; Obj* self; explicit Obj(int x) : v(x), self(this) { vs_add(LIVE, 1); } Obj(const Obj& o) : v(o.v), self(this) { vs_assert_msg(o.self == &o, "copied from an object that is not alive"); vs_add(LIVE, 1); }
    Obj(Obj&& o) : v(o.v), self(this) { vs_assert_msg(o.self == &o, "moved from an object that is not alive"); o.v = -77; vs_add(LIVE, 1); } Obj& operator=(const Obj& o) { vs_assert(self == this && o.self == &o); v = o.v; return *this; } Obj& operator=(Obj&& o) { vs_assert(self == this && o.self == &o); v = o.v; o.v = -77; return *this; } ~Obj() { vs_assert_msg(self == this, "destroyed twice"); self = 0; vs_add(LIVE, -1); } };
typedef std::unique_ptr<int> MO;
static int cells[64];
// K<T>: how to make and read a T standing for the number v
template <class T> struct K { static T mk(int v) { return T(v); } static int rd(const T& t) { return t; } static void set(promise<T>& p, int v) { T t(v); p.set_value(t); } static void setr(promise<T>& p, int v) { p.set_value(T(v)); } static void setd(promise<T>& p, int v) { p.set_value_deferred(T(v)); } static void setx(promise<T>& p, int v) { p.set_value_at_thread_exit(T(v)); } template <class F> static int get(F& f) { return rd(f.get()); } enum { hasv = 1 }; };
template <> struct K<Obj> { static Obj mk(int v) { return Obj(v); } static int rd(const Obj& t) { vs_assert_msg(t.self == &t, "the result is not alive"); return t.v; } static void set(promise<Obj>& p, int v) { Obj t(v); p.set_value(t); vs_assert_msg(t.v == v, "set_value moved from an lvalue"); } static void setr(promise<Obj>& p, int v) { p.set_value(Obj(v)); } static void setd(promise<Obj>& p, int v) { p.set_value_deferred(Obj(v)); } static void setx(promise<Obj>& p, int v) { p.set_value_at_thread_exit(Obj(v)); } template <class F> static int get(F& f) { return rd(f.get()); } enum { hasv = 1 }; };
template <> struct K<MO> { static MO mk(int v) { return MO(new int(v)); } static int rd(const MO& t) { return t ? *t : -77; } static void set(promise<MO>& p, int v) { p.set_value(mk(v)); } static void setr(promise<MO>& p, int v) { set(p, v); } static void setd(promise<MO>& p, int v) { p.set_value_deferred(mk(v)); } static void setx(promise<MO>& p, int v) { p.set_value_at_thread_exit(mk(v)); } template <class F> static int get(F& f) { return rd(f.get()); } enum { hasv = 1 }; };
template <> struct K<int&> { static int& mk(int v) { return cells[v]; } static int rd(int& t) { return &t - cells; } static void set(promise<int&>& p, int v) { p.set_value(cells[v]); } static void setr(promise<int&>& p, int v) { set(p, v); } static void setd(promise<int&>& p, int v) { p.set_value_deferred(cells[v]); } static void setx(promise<int&>& p, int v) { p.set_value_at_thread_exit(cells[v]); } template <class F> static int get(F& f) { return rd(f.get()); } enum { hasv = 1 }; };
template <> struct K<void> { static void mk(int) {} static void set(promise<void>& p, int) { p.set_value(); } static void setr(promise<void>& p, int) { p.set_value(); } static void setd(promise<void>& p, int) { p.set_value_deferred(); } static void setx(promise<void>& p, int) { p.set_value_at_thread_exit(); } template <class F> static int get(F& f) { f.get(); return 0; } enum { hasv = 0 }; };
// runs f, gives OK (or f's value) or what it threw
template <class F> static int outcome(F f) {
    try { return f(); } catch (Ex& e) { return EXC + e.n; } catch (boost::broken_promise&) { return BROKEN; } catch (boost::future_uninitialized&) { return UNINIT; } catch (boost::future_already_retrieved&) { return RETRIEVED; } catch (boost::promise_already_satisfied&) { return SATISFIED; } catch (boost::task_already_started&) { return STARTED; } catch (boost::task_moved&) { return MOVED; } catch (boost::promise_moved&) { return MOVED; } catch (boost::future_error& e) { return e.code() == boost::system::make_error_code(boost::future_errc::no_state) ? MOVED : OTHER; }
#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
    catch (boost::thread_interrupted&) { return INTR; }
#endif
    catch (...) { return OTHER; } }
template <class T, class F> static int fetch(F& f) { return outcome([&] { return K<T>::get(f); }); }
#define OKOF(expr) outcome([&] { expr; return (int)OK; })
template <class T> static int val(int v) { return K<T>::hasv ? v : 0; }
// an allocator that counts what it gives out, and can fail
enum { ALLOCD = 57, AFAIL = 58 };
template <class T> struct CA { typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; template <class U> struct rebind { typedef CA<U> other; }; CA() {} template <class U> CA(const CA<U>&) {}
    T* allocate(std::size_t n) { if (vs_get(AFAIL)) throw std::bad_alloc(); vs_add(ALLOCD, n); return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, std::size_t n) { vs_add(ALLOCD, -(long)n); ::operator delete(p); } template <class U, class... A> void construct(U* p, A&&... a) { ::new (p) U(std::forward<A>(a)...); } template <class U> void destroy(U* p) { p->~U(); } };
