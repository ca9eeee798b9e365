// Harness-side API of the vsched model checker (see DESIGN.md).
// Harness code is compiled with -fsanitize=thread and linked against libvsched.so,
// which implements the __tsan_* callbacks, pthread_*, clocks and malloc.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <utility>
#include <initializer_list>

extern "C" {
// choice among n alternatives, all explored, at no deviation cost
int  vs_choose(int n);
// same, but alternatives > 0 cost one deviation each
int  vs_deviate(int n);
// explicit scheduling point
void vs_point(void);
// fails the execution
void vs_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
// abandon this execution silently (used to cut uninteresting paths, counted)
void vs_cut(void) __attribute__((noreturn));
// ghost cells: hashed, not race checked, no happens-before, no scheduling point
long vs_get(int slot);
void vs_set(int slot, long v);
long vs_add(int slot, long d);       // returns the new value
// blocks the calling thread until ghost slot >= v
void vs_await(int slot, long v);
// blocks until every other thread is blocked or finished (no timers taken)
void vs_quiesce(void);
// is thread `t` (model tid) blocked with no way to continue but another thread's action or a timer
int  vs_blocked(int tid);
int  vs_self(void);
long vs_now(void);                   // virtual time, ns since the execution started
int  vs_forced_tick(void);           // has time advanced while some thread could run
void vs_tick_at(long ns);            // makes ns a time to which the clock may jump
void vs_advance(long ns);            // advance virtual time now (deterministic)
void vs_jump_realtime(long ns);      // the system clock is set forward/backward by ns
long vs_jumped(long* at);            // the last jump: by how much and when (0: none)
void vs_outcome(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void vs_note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // shows up in the trace
void vs_expect_terminate(int on);    // std::terminate in this thread from now on ends the execution as good
void vs_fault_window(unsigned mask); // fault kinds that may be injected from now on (all threads)
void vs_fault_window_me(unsigned mask); // the same, in the calling thread only
int  vs_pthread_spawn(void (*fn)(void*), void* arg);  // model thread, no boost.  returns tid
void vs_pthread_join(int tid);
size_t vs_live_blocks(void);
size_t vs_live_bytes(void);
int  vs_faulted(void);               // the kind of the last fault injected, 0: none
long vs_live_sync(void);             // mutexes, condition variables and attributes initialised and not destroyed
int  vs_thorough(void);
int  vs_nthreads_alive(void);
void vs_race_ignore_begin(void);     // plain accesses of this thread are not race checked
void vs_race_ignore_end(void);
void vs_spurious(int on);            // spurious wakeups allowed (default: scenario option)
void vs_set_ncpu(int n);
void vs_register(const char* name, void (*fn)(), const void* opt);
void vs_register_data(void* lo, void* hi);
int  vs_main(int argc, char** argv);
}

enum { VSF_CREATE = 1, VSF_MUTEX_INIT = 2, VSF_COND_INIT = 4, VSF_MALLOC = 8, VSF_EINTR = 16, VSF_KEY = 32, VSF_JUMP = 64, VSF_EINTR2 = 128 };

struct vs_opt {
    int pb = 2, tpb = 4;             // deviation bound, quick and thorough
    int atomics = 1;                 // 0: no scheduling points at atomics, 1: all but refcounts, 2: all
    int spurious_ = 0;               // spurious wakeups per execution
    int blocked_ok_ = 0;             // threads may be blocked when thread 0 returns
    int leak_ = 0;                   // check that no heap block is lost at the end
    long steps_ = 6000;              // horizon (visible operations)
    double qs = 20, ts = 180;        // seconds, quick and thorough (safety net)
    unsigned faults_ = 0;
    int thorough_only_ = 0;
    int faultbudget_ = 1;
    int races_ = 1;
    vs_opt& bound(int q, int t) { pb = q; tpb = t; return *this; }
    vs_opt& secs(double q, double t) { qs = q; ts = t; return *this; }
    vs_opt& at(int m) { atomics = m; return *this; }
    vs_opt& spurious(int n = 1) { spurious_ = n; return *this; }
    vs_opt& blocked_ok() { blocked_ok_ = 1; return *this; }
    vs_opt& leak() { leak_ = 1; return *this; }
    vs_opt& steps(long n) { steps_ = n; return *this; }
    vs_opt& faults(unsigned m, int budget = 1) { faults_ = m; faultbudget_ = budget; return *this; }
    vs_opt& deep() { thorough_only_ = 1; return *this; }
};

struct vs_reg { vs_reg(const char* n, void (*f)(), const vs_opt& o) { vs_register(n, f, &o); } };
#define SCENARIO(name, opt) \
    static void name(); static vs_reg vs_reg_##name(#name, name, opt); static void name()

#define vs_assert(c) do { if (!(c)) vs_fail("assertion failed: %s (%s:%d)", #c, __FILE__, __LINE__); } while (0)
#define vs_assert_msg(c, ...) do { if (!(c)) vs_fail(__VA_ARGS__); } while (0)

// plain model threads
template <class F> void vs_tramp_(void* p) { F* f = static_cast<F*>(p); (*f)(); delete f; }
template <class F> int vs_spawn(F f) { return vs_pthread_spawn(&vs_tramp_<F>, new F(f)); }
struct vs_t { int id; template <class F> vs_t(F f) : id(vs_spawn(f)) {} void join() { vs_pthread_join(id); } };
template <class A, class B> void vs_run(A a, B b) { int x = vs_spawn(a), y = vs_spawn(b); vs_pthread_join(x); vs_pthread_join(y); }
template <class A, class B, class C> void vs_run(A a, B b, C c)
{ int x = vs_spawn(a), y = vs_spawn(b), z = vs_spawn(c); vs_pthread_join(x); vs_pthread_join(y); vs_pthread_join(z); }
template <class A, class B, class C, class D> void vs_run(A a, B b, C c, D d)
{ int x = vs_spawn(a), y = vs_spawn(b), z = vs_spawn(c), w = vs_spawn(d);
  vs_pthread_join(x); vs_pthread_join(y); vs_pthread_join(z); vs_pthread_join(w); }

// spawned body joined at scope end
