// kinds of condition variable and lock
#pragma once
#include "vsh.hpp"
#include <boost/thread/condition_variable.hpp>
#ifdef VS_V2
#include <boost/thread/v2/shared_mutex.hpp>
#else
#include <boost/thread/shared_mutex.hpp>
#endif
using namespace boost;
// a lock of the user's own making
struct UserMutex { mutex m; int depth; UserMutex() : depth(0) {} void lock() { m.lock(); depth++; } void unlock() { depth--; m.unlock(); } };
struct UserLock { UserMutex& m; bool h; UserLock(UserMutex& m) : m(m), h(false) { lock(); } ~UserLock() { if (h) unlock(); }
    void lock() { vs_assert_msg(!h, "user lock locked twice"); m.lock(); h = true; } void unlock() { vs_assert_msg(h, "user lock unlocked twice"); h = false; m.unlock(); } bool owns_lock() const { return h; } };
// the mutex itself as the lock
struct SelfMutex : mutex { bool own; SelfMutex() : own(false) {} void lock() { mutex::lock(); own = true; } void unlock() { own = false; mutex::unlock(); } };
struct SelfLock { SelfMutex& m; SelfLock(SelfMutex& m) : m(m) { m.lock(); } ~SelfLock() { m.unlock(); } bool owns_lock() const { return m.own; } };
template <class C, class M_, class L_> struct Kit { typedef C CV; typedef M_ M; typedef L_ L; enum { excl = 1, timed_dt = 1 }; static L& arg(L& l) { return l; } };
typedef Kit<condition_variable, mutex, unique_lock<mutex> > Plain;
typedef Kit<condition_variable_any, mutex, unique_lock<mutex> > Any;
typedef Kit<condition_variable_any, recursive_mutex, unique_lock<recursive_mutex> > AnyRec;
typedef Kit<condition_variable_any, UserMutex, UserLock> AnyUser;
struct AnyShared : Kit<condition_variable_any, shared_mutex, shared_lock<shared_mutex> > { enum { excl = 0 }; };
typedef Kit<condition_variable_any, shared_mutex, unique_lock<shared_mutex> > AnyX;
struct AnySelf : Kit<condition_variable_any, SelfMutex, SelfLock> { static SelfMutex& arg(SelfLock& l) { return l.m; } };
#ifdef VS_ANY
typedef Any K0;
#else
typedef Plain K0;
#endif
