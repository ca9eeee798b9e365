// L02: lock() and try_lock() over several lockables
#include "vsh.hpp"
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/lock_factories.hpp>
#include <vector>
using namespace boost;
struct Thrown {};
// refuses or throws as chosen, counts
struct Mock { int h; static int budget, throwat; Mock() : h(0) {}
    static void boom() { if (throwat >= 0 && throwat-- == 0) throw Thrown(); }
    void lock() { boom(); vs_assert_msg(h == 0, "locked twice by one thread: it would deadlock"); h++; }
    bool try_lock() { boom(); vs_assert_msg(h == 0, "try_lock of a mutex already held"); if (budget > 0 && vs_choose(2)) { budget--; return false; } h++; return true; }
    void unlock() { vs_assert_msg(h == 1, "unlock of a mutex not held"); h--; } };
int Mock::budget, Mock::throwat;
namespace boost { 
#ifdef BOOST_THREAD_NO_AUTO_DETECT_MUTEX_TYPES
template <> struct is_mutex_type<Mock> { BOOST_STATIC_CONSTANT(bool, value = true); };
#endif
}
template <class A> void lockn(A* m, int n) { switch (n) { case 2: boost::lock(m[0], m[1]); break; case 3: boost::lock(m[0], m[1], m[2]); break; case 4: boost::lock(m[0], m[1], m[2], m[3]); break; case 5: boost::lock(m[0], m[1], m[2], m[3], m[4]); break; } }
template <class A> int tryn(A* m, int n) { switch (n) { case 2: return boost::try_lock(m[0], m[1]); case 3: return boost::try_lock(m[0], m[1], m[2]); case 4: return boost::try_lock(m[0], m[1], m[2], m[3]); default: return boost::try_lock(m[0], m[1], m[2], m[3], m[4]); } }
static void each(Mock* m, int n, int want, const char* w) { for (int i = 0; i < n; i++) vs_assert_msg(m[i].h == want, "%s: mutex %d of %d is %s", w, i, n, m[i].h ? "held" : "not held"); }
// every pattern of refusals, an exception at every call
template <int N> void all_or_nothing() {
    Mock m[5]; Mock::budget = 6; Mock::throwat = vs_choose(13) - 1; bool th = false;
    bool range = vs_choose(2);
    try { Mock *b = m, *e = m + N; if (range) boost::lock(b, e); else lockn(m, N); } catch (Thrown&) { th = true; }
    Mock::throwat = -1; Mock::budget = 0; each(m, N, th ? 0 : 1, th ? "after an exception" : "after lock()"); for (int i = N; i < 5; i++) vs_assert(!m[i].h); }
template <int N> void try_result() {
    Mock m[5]; Mock::budget = 1; Mock::throwat = vs_choose(8) - 1; bool th = false; int r = -2; bool range = vs_choose(2), pre = vs_choose(2);
    Mock *b = m, *e = m + N; try { r = range ? int(boost::try_lock(b, e) - m) : tryn(m, N); if (range && r == N) r = -1; } catch (Thrown&) { th = true; }
    Mock::throwat = -1; if (th) each(m, N, 0, "after an exception"); else if (r == -1) { vs_assert_msg(Mock::budget == 1, "success reported although one refused"); each(m, N, 1, "after success"); }
    else { vs_assert_msg(Mock::budget == 0 && r >= 0 && r < N, "failure reported although none refused: %d", r); each(m, N, 0, "after failure"); } }
// the reported index is that of the refusing mutex
struct Fixed { bool refuse; int h; Fixed() : refuse(false), h(0) {} void lock() { h++; } bool try_lock() { if (refuse) return false; h++; return true; } void unlock() { h--; } };
template <int N> void index() {
    Fixed m[5]; int k = vs_choose(N + 1), k2 = vs_choose(N + 1); if (k < N) m[k].refuse = true; if (k2 < N) m[k2].refuse = true; int first = k < k2 ? k : k2;
    int r; Fixed *b = m, *e = m + N; if (vs_choose(2)) { Fixed* p = boost::try_lock(b, e); r = p == m + N ? -1 : int(p - m); } else r = tryn(m, N);
    vs_assert_msg(r == (first == N ? -1 : first), "try_lock returned %d, mutex %d is the first that refuses", r, first); for (int i = 0; i < N; i++) vs_assert(m[i].h == (r == -1)); }
#define PER(N) SCENARIO(all_or_nothing_##N, vs_opt().bound(0, 0)) { all_or_nothing<N>(); } SCENARIO(try_result_##N, vs_opt().bound(0, 0)) { try_result<N>(); } SCENARIO(index_##N, vs_opt().bound(0, 0)) { index<N>(); }
PER(2) PER(3) PER(4) PER(5)
SCENARIO(small_ranges, vs_opt().bound(0, 0)) { Mock m[2]; Mock *b = m, *e = m, *o = m + 1; Mock::budget = 0; Mock::throwat = -1; boost::lock(b, e); vs_assert(boost::try_lock(b, e) == m); boost::lock(b, o); vs_assert(m[0].h == 1 && m[1].h == 0); m[0].unlock(); vs_assert(boost::try_lock(b, o) == m + 1 && m[0].h == 1); }
// deadlock freedom with real mutexes in conflicting orders, plain, through lock objects, by range
template <class M> void order(M* m, int n, int perm, int form, Data* d) {
    static const int P[6][3] = {{0, 1, 2}, {1, 0, 2}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}}; const int* p = P[perm];
    auto body = [&] { for (int i = 0; i < n; i++) d[p[i]].bump(); };
    switch (form) {
    case 0: if (n == 2) boost::lock(m[p[0]], m[p[1]]); else boost::lock(m[p[0]], m[p[1]], m[p[2]]); body(); for (int i = 0; i < n; i++) m[p[i]].unlock(); break;
    case 1: { unique_lock<M> a(m[p[0]], defer_lock), b(m[p[1]], defer_lock), c; if (n == 2) boost::lock(a, b); else { unique_lock<M> t(m[p[2]], defer_lock); c = boost::move(t); boost::lock(a, b, c); } vs_assert(a.owns_lock() && b.owns_lock()); body(); break; }
    case 2: { std::vector<unique_lock<M> > v; for (int i = 0; i < n; i++) v.push_back(unique_lock<M>(m[p[i]], defer_lock)); boost::lock(v.begin(), v.end()); for (int i = 0; i < n; i++) vs_assert(v[i].owns_lock()); body(); break; }
    case 3: if (n == 2) { auto t = make_unique_locks(m[p[0]], m[p[1]]); body(); } else { auto t = make_unique_locks(m[p[0]], m[p[1]], m[p[2]]); body(); } break;
    }
}
template <class M> void two(int form) { M m[3]; Data d[3]; int n = 2 + vs_choose(2), p = n == 2 ? 1 : 1 + vs_choose(5), f2 = vs_choose(4);
    vs_run([&] { order(m, n, 0, form, d); }, [&] { order(m, n, p, f2, d); }); for (int i = 0; i < n; i++) { vs_assert(d[i].a == 2); vs_assert_msg(m[i].try_lock(), "left locked"); m[i].unlock(); } }
SCENARIO(two_plain, vs_opt().bound(6, 8)) { two<mutex>(0); }
SCENARIO(two_lock_objects, vs_opt().bound(6, 8)) { two<mutex>(1); }
SCENARIO(two_range, vs_opt().bound(6, 8)) { two<mutex>(2); }
SCENARIO(two_make, vs_opt().bound(5, 7)) { two<mutex>(3); }
SCENARIO(two_recursive, vs_opt().bound(4, 6)) { two<recursive_mutex>(vs_choose(3)); }
template <int F> void three() { mutex m[3]; Data d[3]; int n = 2 + vs_choose(2), p = vs_choose(n == 2 ? 2 : 6), q = vs_choose(n == 2 ? 2 : 6);
    vs_run([&] { order(m, n, 0, F, d); }, [&] { order(m, n, p, F, d); }, [&] { order(m, n, q, F, d); }); for (int i = 0; i < n; i++) { vs_assert(d[i].a == 3); vs_assert_msg(m[i].try_lock(), "left locked"); m[i].unlock(); } }
SCENARIO(three_plain, vs_opt().bound(4, 6)) { three<0>(); }
SCENARIO(three_range, vs_opt().bound(3, 5)) { three<2>(); }
// against threads that take single mutexes or only try
SCENARIO(with_single_lockers, vs_opt().bound(5, 7)) {
    mutex m[3]; Data d[3]; int f = vs_choose(3);
    vs_run([&] { order(m, 3, 0, f, d); }, [&] { m[1].lock(); d[1].bump(); m[1].unlock(); m[0].lock(); d[0].bump(); m[0].unlock(); },
           [&] { int r = boost::try_lock(m[2], m[1], m[0]); if (r == -1) { d[0].bump(); d[2].bump(); m[0].unlock(); m[1].unlock(); m[2].unlock(); } });
    for (int i = 0; i < 3; i++) { vs_assert_msg(m[i].try_lock(), "left locked"); m[i].unlock(); } }
template <int N> void big() { mutex m[5]; Data d[5]; 
    vs_run([&] { lockn(m, N); for (int i = 0; i < N; i++) d[i].bump(); for (int i = 0; i < N; i++) m[i].unlock(); },
           [&] { if (N == 4) boost::lock(m[3], m[2], m[1], m[0]); else boost::lock(m[4], m[2], m[3], m[1], m[0]); for (int i = 0; i < N; i++) d[i].bump(); for (int i = 0; i < N; i++) m[i].unlock(); }); for (int i = 0; i < N; i++) vs_assert(d[i].a == 2 && m[i].try_lock()); for (int i = 0; i < N; i++) m[i].unlock(); }
SCENARIO(four, vs_opt().bound(6, 8)) { big<4>(); }
SCENARIO(five, vs_opt().bound(6, 8)) { big<5>(); }
