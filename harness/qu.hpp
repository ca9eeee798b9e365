// kinds of queue behind one face: push(form, x), pull(form, x) give a status
#pragma once
#include "fut.hpp"
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#include <boost/thread/concurrent_queues/queue_adaptor.hpp>
#include <boost/thread/concurrent_queues/deque_adaptor.hpp>
#ifdef VS_DVIEW                        // the two headers share their include guard
#include <boost/thread/concurrent_queues/deque_views.hpp>
#else
#include <boost/thread/concurrent_queues/queue_views.hpp>
#endif
#include <deque>
#include <list>
#include <vector>
enum { OKQ = 0, EMPTY, FULL, CLOSED, BUSY, TIMEOUT, NOTREADY, WEIRD = 99 };
static int st(boost::queue_op_status s) { using boost::queue_op_status; return s == queue_op_status::success ? OKQ : s == queue_op_status::empty ? EMPTY : s == queue_op_status::full ? FULL : s == queue_op_status::closed ? CLOSED : s == queue_op_status::busy ? BUSY : s == queue_op_status::timeout ? TIMEOUT : s == queue_op_status::not_ready ? NOTREADY : WEIRD; }
// an element whose payload is written by the producer and read by the consumer, on the heap: lack of visibility is a race
struct Pay { int* p; explicit Pay(int v) : p(new int(v)) {} Pay() : p(0) {} Pay(const Pay& o) : p(o.p ? new int(*o.p) : 0) {} Pay(Pay&& o) : p(o.p) { o.p = 0; } Pay& operator=(const Pay& o) { if (this != &o) { delete p; p = o.p ? new int(*o.p) : 0; } return *this; } Pay& operator=(Pay&& o) { if (this != &o) { delete p; p = o.p; o.p = 0; } return *this; } ~Pay() { delete p; } };
template <class T> struct E;
template <> struct E<int> { enum { copies = 1 }; static int mk(int v) { return v; } static int rd(int x) { return x; } };
template <> struct E<Pay> { enum { copies = 1 }; static Pay mk(int v) { return Pay(v); } static int rd(const Pay& x) { return x.p ? *x.p : -77; } };
template <> struct E<MO> { enum { copies = 0 }; static MO mk(int v) { return MO(new int(v)); } static int rd(const MO& x) { return x ? *x : -77; } };
// copying an element may throw;   FragM moves without, FragC only copies
struct FragErr {}; static void fragile() { if (vs_get(5) && vs_add(5, -1) == 0) throw FragErr(); }
struct FragM { int* p; explicit FragM(int v) : p(new int(v)) {} FragM() : p(0) {} FragM(const FragM& o) : p(0) { fragile(); if (o.p) p = new int(*o.p); } FragM(FragM&& o) noexcept : p(o.p) { o.p = 0; } FragM& operator=(const FragM& o) { if (this != &o) { fragile(); delete p; p = o.p ? new int(*o.p) : 0; } return *this; } FragM& operator=(FragM&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = 0; } return *this; } ~FragM() { delete p; } };
struct FragC { int* p; explicit FragC(int v) : p(new int(v)) {} FragC() : p(0) {} FragC(const FragC& o) : p(0) { fragile(); if (o.p) p = new int(*o.p); } FragC& operator=(const FragC& o) { if (this != &o) { fragile(); delete p; p = o.p ? new int(*o.p) : 0; } return *this; } ~FragC() { delete p; } };
template <> struct E<FragM> { enum { copies = 1, value_pull = 1 }; static FragM mk(int v) { return FragM(v); } static int rd(const FragM& x) { return x.p ? *x.p : -77; } };
template <> struct E<FragC> { enum { copies = 1, value_pull = 0 }; static FragC mk(int v) { return FragC(v); } static int rd(const FragC& x) { return x.p ? *x.p : -77; } };
#define TRYQ(e) try { e; return OKQ; } catch (boost::sync_queue_is_closed&) { return CLOSED; }
#define TRYB(e, no) try { return (e) ? OKQ : no; } catch (boost::sync_queue_is_closed&) { return CLOSED; }
// push forms 0..3 rvalue (push, try, nonblocking, wait), 4..7 const&; pull forms 0 pull(x), 1 x=pull(), 2 try, 3 nonblocking, 4 wait
enum { PUSH, TRY, NB, WAIT }; enum { PULL, PULLV, TRYP, NBP, WAITP };
static bool pblocks(int f) { return (f & 3) == PUSH || (f & 3) == WAIT; } static bool cblocks(int f) { return f != TRYP && f != NBP; }
#define FORMS(PU, TPU, NPU, WPU, PL, TPL, NPL, WPL, PQ, CQ) \
    template <class X> int push_(int f, X x) { X c = boost::move(x); switch (f & 3) { case PUSH: TRYQ(PQ PU(boost::move(c))) case TRY: return st(PQ TPU(boost::move(c))); case NB: return st(PQ NPU(boost::move(c))); default: return st(PQ WPU(boost::move(c))); } } \
    template <class X> int pushc_(int f, const X& c, char(*)[1] = 0) { switch (f & 3) { case PUSH: TRYQ(PQ PU(c)) case TRY: return st(PQ TPU(c)); case NB: return st(PQ NPU(c)); default: return st(PQ WPU(c)); } } \
    int push(int f, int v) { return f < 4 ? push_<T>(f, E<T>::mk(v)) : lval<E<T>::copies>(f, v); } \
    template <int C_> typename boost::enable_if_c<C_ == 1, int>::type lval(int f, int v) { T x = E<T>::mk(v); int r = pushc_<T>(f, x); vs_assert_msg(E<T>::rd(x) == v, "an lvalue push changed its argument"); return r; } template <int C_> typename boost::enable_if_c<C_ == 0, int>::type lval(int f, int v) { return push(f & 3, v); } \
    int pull(int f, int& v) { T x = E<T>::mk(-5); int r = pull_(f, x); if (r == OKQ) v = E<T>::rd(x); else vs_assert_msg(E<T>::rd(x) == -5, "a failed pull changed its argument"); return r; } \
    int pull_(int f, T& x) { switch (f) { case PULL: TRYQ(CQ PL(x)) case PULLV: TRYQ(x = CQ PL()) case TRYP: return st(CQ TPL(x)); case NBP: return st(CQ NPL(x)); default: return st(CQ WPL(x)); } } \
    void close() { CQ close(); } bool closed() { return CQ closed(); } bool empty() { return CQ empty(); } bool full() { return CQ full(); } size_t size() { return CQ size(); }
#define QFORMS(p, c) FORMS(push, try_push, nonblocking_push, wait_push, pull, try_pull, nonblocking_pull, wait_pull, p, c)
#define DFORMS(p, c) FORMS(push_back, try_push_back, nonblocking_push_back, wait_push_back, pull_front, try_pull_front, nonblocking_pull_front, wait_pull_front, p, c)
template <class T_> struct Sync { typedef T_ T; enum { cap = 0 }; boost::sync_queue<T> q; QFORMS(q., q.) };
template <class T_> struct SyncD { typedef T_ T; enum { cap = 0 }; boost::sync_queue<T, std::deque<T> > q; QFORMS(q., q.) };
template <class T_> struct Dq { typedef T_ T; enum { cap = 0 }; boost::sync_deque<T> q; DFORMS(q., q.) };
template <class T_, int N> struct Bnd { typedef T_ T; enum { cap = N }; boost::sync_bounded_queue<T> q; Bnd() : q(N) {} DFORMS(q., q.) };
template <class T_> struct Ad { typedef T_ T; enum { cap = 0 }; boost::queue_adaptor<boost::sync_queue<T> > q; boost::queue_base<T>& b; Ad() : b(q) {} QFORMS(b., b.) };
template <class T_> struct AdD { typedef T_ T; enum { cap = 0 }; boost::deque_adaptor<boost::sync_deque<T> > q; boost::deque_base<T>& b; AdD() : b(q) {} DFORMS(b., b.) };
#ifdef VS_DVIEW
template <class T_> struct VwD { typedef T_ T; enum { cap = 0 }; boost::deque_adaptor<boost::sync_deque<T> > q; boost::concurrent::deque_back<T> pb; boost::concurrent::deque_front<T> pf; VwD() : pb(q), pf(q) {} QFORMS(pb., pf.) };
#else
template <class T_> struct Vw { typedef T_ T; enum { cap = 0 }; boost::queue_adaptor<boost::sync_queue<T> > q; boost::queue_back<T> pb; boost::queue_front<T> pf; Vw() : pb(q), pf(q) {} QFORMS(pb., pf.) };
#endif
// the old names of the bounded queue
template <class T_, int N> struct Old { typedef T_ T; enum { cap = N }; boost::sync_bounded_queue<T> q; Old() : q(N) {}
    int push(int f, int v) { T x = E<T>::mk(v); switch (f) { case 0: TRYQ(q.push(boost::move(x))) case 1: TRYB(q.try_push(boost::move(x)), FULL) case 2: TRYB(q.try_push(boost::no_block, boost::move(x)), BUSY) case 3: TRYQ(q.push_back(boost::move(x))) case 4: TRYQ(q.push(x)) case 5: TRYB(q.try_push(x), FULL) case 6: TRYB(q.try_push(boost::no_block, x), BUSY) default: TRYQ(q.push_back(x)) } }
    int pull(int f, int& v) { T x = E<T>::mk(-5); int r = pull_(f, x); if (r == OKQ) v = E<T>::rd(x); return r; }
    int pull_(int f, T& x) { boost::shared_ptr<T> s; switch (f) { case 0: TRYQ(q.pull(x)) case 1: TRYQ(x = q.pull()) case 2: TRYB(q.try_pull(x), EMPTY) case 3: TRYB(q.try_pull(boost::no_block, x), BUSY) case 4: try { s = q.ptr_pull(); x = *s; return OKQ; } catch (boost::sync_queue_is_closed&) { return CLOSED; } default: try { s = q.try_pull(); if (!s) return EMPTY; x = *s; return OKQ; } catch (boost::sync_queue_is_closed&) { return CLOSED; } } }
    void close() { q.close(); } bool closed() { return q.closed(); } bool empty() { return q.empty(); } bool full() { return q.full(); } size_t size() { return q.size(); } size_t capacity() { return q.capacity(); } };
// ghost counters, for judging failures of non-blocking operations
enum { PDONE = 1, PBEG, CDONE, CBEG, GOT0 = 10 };       // GOT0+v: times v was pulled
template <class Q> struct G { Q q;
    int push(int f, int v) { int cd = vs_get(CDONE), pd = vs_get(PDONE); vs_add(PBEG, 1); int pb = vs_get(PBEG); int r = q.push(f, v); (void)cd; (void)pd; (void)pb;
        if (r == OKQ) vs_add(PDONE, 1); else { vs_add(PBEG, -1); if (r == FULL) vs_assert_msg(Q::cap && vs_get(PBEG) - cd >= Q::cap, "push said full, but it was not"); else if (r == BUSY) vs_assert((f & 3) == NB); else vs_assert_msg(r == CLOSED, "push gave %d", r); } return r; }
    int pull(int f, int& v) { int pd = vs_get(PDONE); vs_add(CBEG, 1); int r = q.pull(f, v); if (r == OKQ) { vs_add(CDONE, 1); vs_assert_msg(v >= 0 && v < 40, "pulled %d, which nobody pushed", v); vs_assert_msg(vs_add(GOT0 + v, 1) == 1, "%d came out twice", v); } else { vs_add(CBEG, -1); if (r == EMPTY || r == CLOSED) vs_assert_msg(vs_get(CBEG) >= pd, "pull said empty, but it was not"); else vs_assert_msg(r == BUSY && f == NBP, "pull gave %d", r); } return r; } };
