// shared by the executor harnesses
#pragma once
#include "fut.hpp"
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
#include <boost/thread/executors/scheduler.hpp>
using boost::executors::basic_thread_pool; using boost::executors::work; using boost::thread;
enum { RAN0 = 1, ACC0 = 20, ORDER = 40, BUSYX = 41, ENTRY = 42, WHO0 = 43 };   // RAN0+i: runs of task i
static void ran(int i) { vs_assert_msg(vs_add(RAN0 + i, 1) == 1, "task %d ran twice", i); }
// a task whose copies are counted, with a payload written by the submitter
struct Task { Obj o; int* pay; Task(int i) : o(i), pay(new int(i)) {} Task(const Task& t) : o(t.o), pay(new int(*t.pay)) {} Task(Task&& t) : o(std::move(t.o)), pay(t.pay) { t.pay = 0; } ~Task() { delete pay; } void operator()() { vs_assert_msg(pay, "a task that was moved from runs"); vs_assert(o.self == &o && *pay == o.v); ran(o.v); } };
struct MTask { MO p; MTask(int i) : p(new int(i)) {} MTask(MTask&& t) : p(std::move(t.p)) {} void operator()() { vs_assert_msg(!!p, "a task that was moved from runs"); ran(*p); } };
static void fn0() { ran(0); } static void fn1() { ran(1); } static void fn2() { ran(2); }
// forms: rvalue functor, lvalue functor, move-only functor, function, work; gives whether it was accepted
enum { NSUB = 5 };
template <class X> static bool sub(X& x, int form, int i) { bool ok = true; try { switch (form) { case 0: x.submit(Task(i)); break; case 1: { Task t(i); x.submit(t); vs_assert_msg(t.pay && t.o.v == i, "submit moved from an lvalue"); break; } case 2: x.submit(MTask(i)); break; case 3: x.submit(i == 0 ? fn0 : i == 1 ? fn1 : fn2); break; default: { work w((Task(i))); x.submit(boost::move(w)); } } } catch (boost::sync_queue_is_closed&) { ok = false; } vs_set(ACC0 + i, ok); return ok; }
static void all_ran(int n) { for (int i = 0; i < n; i++) vs_assert_msg(vs_get(RAN0 + i) == vs_get(ACC0 + i), "task %d: accepted %ld, ran %ld", i, vs_get(ACC0 + i), vs_get(RAN0 + i)); }
static void clean() { vs_quiesce(); vs_assert_msg(!vs_get(LIVE), "%ld tasks left alive", vs_get(LIVE)); }
