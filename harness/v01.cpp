// V01: synchronized_value and externally_locked
#include "vsh.hpp"
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/externally_locked.hpp>
#include <boost/thread/externally_locked_stream.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <string>
using namespace boost;
struct Ex {};
// two halves, never seen or changed in between
struct Val { int a, b; Val() : a(0), b(0) {} Val(int v) : a(v), b(v) {}
    Val(Val const& o) : a(o.a) { vs_point(); b = o.b; } Val(Val&& o) : a(o.a) { vs_point(); b = o.b; o.a = 0; o.b = 0; }
    Val& operator=(Val const& o) { a = o.a; vs_point(); b = o.b; return *this; } Val& operator=(Val&& o) { a = o.a; vs_point(); b = o.b; o.a = 0; o.b = 0; return *this; }
    int get() const { int t = a; vs_point(); vs_assert_msg(b == t, "half of a change is seen"); return t; } int add(int n) { int t = a; vs_point(); a = b = t + n; return t + n; }
    friend void swap(Val& x, Val& y) { int t = x.a; x.a = y.a; vs_point(); y.a = t; t = x.b; x.b = y.b; y.b = t; } };
static bool operator==(Val const& x, Val const& y) { return x.get() == y.get(); } static bool operator!=(Val const& x, Val const& y) { return x.get() != y.get(); } static bool operator<(Val const& x, Val const& y) { return x.get() < y.get(); } static bool operator>(Val const& x, Val const& y) { return x.get() > y.get(); } static bool operator<=(Val const& x, Val const& y) { return x.get() <= y.get(); } static bool operator>=(Val const& x, Val const& y) { return x.get() >= y.get(); }
struct Str { int v; }; static Str& operator<<(Str& s, Val const& v) { s.v = v.get(); return s; } static Str& operator>>(Str& s, Val& v) { v.add(s.v - v.get()); return s; }
enum { NF = 52 };
// form f on x and y (z bystander) of plain ints: the reference
static long refop(int f, int& x, int& y, int v) { int t; switch (f) {
    case 0: case 1: case 2: case 4: case 13: case 16: case 18: case 22: case 24: case 47: return x;
    case 3: case 15: case 17: case 19: case 20: case 23: case 27: case 46: return x += v;
    case 5: case 6: case 45: return x = v;
    case 7: return x = y;
    case 8: case 9: t = x; x = y; y = t; return 0;
    case 10: case 11: case 12: t = x; x = v; return t;
    case 14: t = x; x = 0; return t;
    case 21: x += v; return x;
    case 25: x = y + v; return x; case 26: x += v; y += v; return x * 100 + y;
    case 28: return x == y; case 29: return x != y; case 30: return x < y; case 31: return x > y; case 32: return x <= y; case 33: return x >= y;
    case 34: return x == v; case 35: return x != v; case 36: return x < v; case 37: return x > v; case 38: return x <= v; case 39: return x >= v;
    case 40: return v == x; case 41: return v != x; case 42: return v < x; case 43: return v > x; case 44: return v <= x;
    case 48: return v >= x;
    case 49: x += v; x += v; return x;                // one critical section
    case 50: return x; case 51: x += v; return x * 100 + y; } return -7; }
template <class M> static long op(int f, synchronized_value<Val, M>& x, synchronized_value<Val, M>& y, int v) {
    typedef synchronized_value<Val, M> SV; SV const& cx = x; SV const& cy = y; const Val V(v); switch (f) {
    case 0: return cx.get().get(); case 1: return static_cast<Val>(cx).get(); case 2: return cx->get(); case 3: return x->add(v);
    case 4: { Val r = *cx; return r.get(); } case 5: *x = V; return v; case 6: x = V; return v;
    case 7: { (void)0; x = cy; return -1; }
    case 8: x.swap(y); return 0; case 9: swap(x, y); return 0;
    case 10: { Val t(V); x.swap(t); return t.get(); } case 11: { Val t(V); swap(x, t); return t.get(); } case 12: { Val t(V); swap(t, x); return t.get(); }
    case 13: { SV z(cx); return z.value().get(); } case 14: { SV z(boost::move(x)); return z.value().get(); }
    case 15: return x([&](Val& r) -> int { return r.add(v); }); case 16: return cx([](Val const& r) -> int { return r.get(); });
    case 17: { auto p = x.synchronize(); int a = p->add(v); vs_point(); vs_assert(p->get() == a && (*p).get() == a); return a; } case 18: { auto p = cx.synchronize(); int a = p->get(); vs_point(); vs_assert((*p).get() == a); return a; }
    case 19: { auto p = x.unique_synchronize(); vs_assert(p.owns_lock()); return p->add(v); }
    case 20: { auto p = x.defer_synchronize(); vs_assert(!p.owns_lock()); p.lock(); return (*p).add(v); }
    case 21: { auto p = x.try_to_synchronize(); if (!p.owns_lock()) { p.lock(); } return p->add(v); }
    case 22: { auto p = cx.defer_synchronize(); p.lock(); return (*p).get(); }
    case 23: { const_cast<M&>(x.mutex()).lock(); auto p = x.adopt_synchronize(); vs_assert(p.owns_lock()); return p->add(v); }
    case 24: { const_cast<M&>(x.mutex()).lock(); auto p = cx.adopt_synchronize(); return p->get(); }
    case 25: { auto t = synchronize(x, cy); int w = std::get<1>(t)->get() + v; *std::get<0>(t) = Val(w); vs_assert(std::get<0>(t)->get() == w); return w; }
    case 26: { auto t = synchronize(x, y); int a = std::get<0>(t)->add(v), b = std::get<1>(t)->add(v); return a * 100 + b; }
    case 27: { auto p = x.unique_synchronize(defer_lock); vs_assert(!p.owns_lock() && p.mutex() == &x.mutex()); p.lock(); auto q(boost::move(p)); vs_assert(q.owns_lock() && !p.owns_lock()); return q->add(v); }
    case 28: return cx == cy; case 29: return cx != cy; case 30: return cx < cy; case 31: return cx > cy; case 32: return cx <= cy; case 33: return cx >= cy;
    case 34: return cx == V; case 35: return cx != V; case 36: return cx < V; case 37: return cx > V; case 38: return cx <= V; case 39: return cx >= V;
    case 40: return V == cx; case 41: return V != cx; case 42: return V < cx; case 43: return V > cx; case 44: return V <= cx; case 48: return V >= cx;
    case 45: { Str s = {v}; if (v & 1) s >> x; else x.load(s); return v; }
    case 46: { auto p = *x; Val& r = p; return r.add(v); }
    case 47: { Str s = {0}; if (v & 1) s << cx; else cx.save(s); return s.v; }
    case 49: { auto p = x.synchronize(); auto q(boost::move(p)); q->add(v); vs_point(); return q->add(v); }
    case 50: { auto p = cx.unique_synchronize(); auto q(boost::move(p)); return q->get(); }
    case 51: { auto p = x.defer_synchronize(); auto q = cy.defer_synchronize(); boost::lock(p, q); int a = p->add(v); return a * 100 + q->get(); } } return -9; }
template <class M> static void linear(int fa, int fb, bool sw) { typedef synchronized_value<Val, M> SV; Val v0(1), v1(4); SV x(v0), y(boost::move(v1)); vs_assert(x.value().get() == 1 && y.value().get() == 4);
    long ra = 0, rb = 0; vs_run([&] { ra = op<M>(fa, x, y, 2); }, [&] { rb = sw ? op<M>(fb, y, x, 3) : op<M>(fb, x, y, 3); });
    for (int i = 0; i < 2; i++) vs_assert_msg(const_cast<M&>((i ? y : x).mutex()).try_lock(), "left locked"); int ox = x.value().get(), oy = y.value().get(); for (int i = 0; i < 2; i++) const_cast<M&>((i ? y : x).mutex()).unlock();
    bool good = false; for (int o = 0; o < 2; o++) { int px = 1, py = 4; long qa = 0, qb = 0; if (!o) qa = refop(fa, px, py, 2); qb = sw ? refop(fb, py, px, 3) : refop(fb, px, py, 3); if (o) qa = refop(fa, px, py, 2);
        good |= px == ox && py == oy && (fa == 7 || qa == ra) && (fb == 7 || qb == rb); }
    vs_assert_msg(good, "forms %d and %d do not act one after the other: values %d %d, results %ld %ld", fa, fb, ox, oy, ra, rb); }
// every pair of forms, on the same object or crosswise
template <class M> static void pairs(int lo, int hi) { int fa = lo + vs_choose(hi - lo); linear<M>(fa, vs_choose(NF), vs_choose(2)); }
#define P(N, lo, hi) SCENARIO(pairs##N, vs_opt().bound(3, 6).leak().secs(60, 120)) { pairs<mutex>(lo, hi); }
P(0, 0, 9) P(1, 9, 18) P(2, 18, 26) P(3, 26, 35) P(4, 35, 44) P(5, 44, NF)
SCENARIO(cross_deep, vs_opt().bound(3, 4).secs(60, 120)) { static const int F[] = {7, 8, 9, 25, 26, 28, 29, 30, 31, 32, 33, 51}; linear<mutex>(F[vs_choose(12)], F[vs_choose(12)], true); }
// each form alone: result, effect, lock released
template <class M> static void alone(int f) { typedef synchronized_value<Val, M> SV; Val v0(1), v1(4); SV x(v0), y(v1); int px = 1, py = 4; int v = 1 + vs_choose(3) * 2; long q = refop(f, px, py, v), r = op<M>(f, x, y, v); vs_assert_msg(f == 7 || q == r, "form %d yields %ld, not %ld", f, r, q); vs_assert_msg(x.value().get() == px && y.value().get() == py, "form %d leaves %d %d", f, x.value().get(), y.value().get()); vs_t t([&] { for (int i = 0; i < 2; i++) { M& m = const_cast<M&>((i ? y : x).mutex()); vs_assert_msg(m.try_lock(), "form %d leaves the mutex locked", f); m.unlock(); } }); t.join(); }
SCENARIO(alone_mutex, vs_opt().bound(0, 0).leak()) { alone<mutex>(vs_choose(NF)); }
SCENARIO(alone_recursive, vs_opt().bound(0, 0).leak()) { alone<recursive_mutex>(vs_choose(NF)); }
SCENARIO(alone_timed, vs_opt().bound(0, 0).leak()) { alone<timed_mutex>(vs_choose(NF)); }
// an object together with itself
static int selff(int k, synchronized_value<Val>& x) { synchronized_value<Val>& y = x; switch (k) { case 0: x = y; return 1; case 1: x.swap(y); return 1; case 2: swap(x, y); return 1; case 3: return x == y; case 4: return !(x != y); case 5: return !(x < y); case 6: return !(x > y); case 7: return x <= y; default: return x >= y; } }
SCENARIO(self, vs_opt().bound(0, 0)) { synchronized_value<Val> x(Val(5)); int k = vs_choose(9); vs_assert(selff(k, x)); vs_assert(x.get().get() == 5); vs_assert(const_cast<mutex&>(x.mutex()).try_lock()); const_cast<mutex&>(x.mutex()).unlock(); }
SCENARIO(self_other, vs_opt().bound(2, 3)) { synchronized_value<Val> x(Val(5)); int k = vs_choose(9), f = vs_choose(2); int r = 0; vs_run([&] { r = selff(k, x); }, [&] { if (f) x->add(1); else x = Val(6); }); vs_assert(r); vs_assert(x.get().get() == 6); }
// an exception releases the lock
struct Thr { int v; Thr() : v(0) {} Thr(Thr const& o) : v(o.v) { if (arm) throw Ex(); } Thr& operator=(Thr const& o) { if (arm) throw Ex(); v = o.v; return *this; } friend void swap(Thr& a, Thr& b) { if (arm) throw Ex(); std::swap(a.v, b.v); } void boom() { throw Ex(); } bool operator==(Thr const&) const { throw Ex(); } static int arm; }; int Thr::arm;
SCENARIO(throws, vs_opt().bound(0, 0).leak()) { typedef synchronized_value<Thr> SV; Thr::arm = 0; Thr t; { SV x, y; int k = vs_choose(14); bool th = false; Thr::arm = 1; try { switch (k) { case 0: x.get(); break; case 1: x = t; break; case 2: x = y; break; case 3: x.swap(y); break; case 4: x.swap(t); break; case 5: { SV z(x); break; } case 6: x->boom(); break; case 7: *x = t; break; case 8: x([](Thr&) -> int { throw Ex(); }); break; case 9: (void)(x == y); break; case 10: (void)(x == t); break; case 11: { auto g = synchronize(x, y); std::get<0>(g)->boom(); break; } case 12: { auto g = x.unique_synchronize(); g->boom(); break; } case 13: { SV z(boost::move(x)); break; } } } catch (Ex&) { th = true; } Thr::arm = 0; vs_assert(th); for (int i = 0; i < 2; i++) { mutex& m = const_cast<mutex&>((i ? y : x).mutex()); vs_assert_msg(m.try_lock(), "case %d: left locked after an exception", k); m.unlock(); } } }
// try_to_synchronize does not wait; a held value keeps everyone else out until released
SCENARIO(held, vs_opt().bound(2, 3)) { synchronized_value<Val> x(Val(1)); int f = vs_choose(NF); { auto p = x.synchronize(); vs_t t([&] { synchronized_value<Val> y(Val(4)); { auto q = x.try_to_synchronize(); vs_assert(!q.owns_lock()); } { auto q = const_cast<synchronized_value<Val> const&>(x).try_to_synchronize(); vs_assert(!q.owns_lock()); } if (f != 23 && f != 24) op<mutex>(f, x, y, 3); vs_set(1, 1); }); vs_quiesce(); vs_assert_msg(vs_get(1) == (f == 23 || f == 24), "form %d gets at a value that another thread holds", f); p->add(1); { auto q(boost::move(p)); } t.join(); } }
SCENARIO(three, vs_opt().bound(2, 3).secs(60, 120)) { typedef synchronized_value<Data> SV; SV a, b, c; int k = vs_choose(6); vs_run([&] { auto t = synchronize(a, b, c); std::get<0>(t)->bump(); std::get<1>(t)->bump(); std::get<2>(t)->bump(); }, [&] { auto go = [](SV& p, SV& q, SV& r) { auto t = synchronize(p, q, r); std::get<0>(t)->bump(); std::get<1>(t)->bump(); std::get<2>(t)->bump(); }; switch (k) { case 0: go(a, b, c); break; case 1: go(c, b, a); break; case 2: go(b, c, a); break; case 3: go(c, a, b); break; case 4: { auto t = synchronize(c, a); std::get<0>(t)->bump(); std::get<1>(t)->bump(); b->bump(); break; } default: go(b, a, c); } }); vs_assert(a.value().a == 2 && b.value().a == 2 && c.value().a == 2); }
SCENARIO(three_threads, vs_opt().bound(2, 2).secs(60, 120)) { typedef synchronized_value<Val> SV; SV a(Val(1)), b(Val(2)), c(Val(3)); vs_run([&] { a.swap(b); }, [&] { b.swap(c); }, [&] { c.swap(a); }); int x = a.value().get(), y = b.value().get(), z = c.value().get(); vs_assert(x + y + z == 6 && x * y * z == 6); }
// --- externally_locked
template <class EL, class M> static void el_locked(EL& e, M& m) { strict_lock<M> lk(m); e.get(lk).bump(); EL const& c = e; vs_assert(c.get(lk).a > 0); }
template <class M> static void el_forms(int form, externally_locked<Data, M>& e, M& m) { switch (form) {
    case 0: el_locked(e, m); break;
    case 1: { unique_lock<M> u(m); { nested_strict_lock<unique_lock<M> > n(u); e.get(n).bump(); externally_locked<Data, M> const& c = e; vs_assert(c.get(n).a > 0 && !u.owns_lock()); } vs_assert(u.owns_lock()); break; }
    case 2: { unique_lock<M> u(m, defer_lock); { nested_strict_lock<unique_lock<M> > n(u); e.get(n).bump(); } vs_assert(u.owns_lock()); break; }
    case 3: { lock_guard<externally_locked<Data, M> > g(e); e.unlock(); el_locked(e, m); e.lock(); break; }
    default: { unique_lock<externally_locked<Data, M> > g(e, try_to_lock); if (g) g.unlock(); el_locked(e, *e.mutex()); break; } } }
SCENARIO(ext, vs_opt().bound(2, 3)) { mutex m; externally_locked<Data> e(m); int a = vs_choose(5), b = vs_choose(5); vs_run([&] { el_forms(a, e, m); }, [&] { el_forms(b, e, m); }); strict_lock<mutex> lk(m); vs_assert(e.get(lk).a == 2); }
SCENARIO(ext_recursive, vs_opt().bound(2, 3)) { recursive_mutex m; externally_locked<Data, recursive_mutex> e(m); int a = vs_choose(5), b = vs_choose(5); vs_run([&] { el_forms(a, e, m); }, [&] { el_forms(b, e, m); }); strict_lock<recursive_mutex> lk(m); vs_assert(e.get(lk).a == 2); }
SCENARIO(ext_ref, vs_opt().bound(2, 3)) { mutex m; Data d; externally_locked<Data&> e(d, m); int a = vs_choose(4); auto f = [&](int k) { switch (k) { case 0: { strict_lock<mutex> lk(m); e.get(lk).bump(); vs_assert(&e.get(lk) == &d); break; } case 1: { unique_lock<mutex> u(m); nested_strict_lock<unique_lock<mutex> > n(u); e.get(n).bump(); break; } case 2: { externally_locked<Data&> c(e); strict_lock<mutex> lk(*c.mutex()); c.get(lk).bump(); break; } default: { e.lock(); bool t = !e.try_lock(); e.unlock(); vs_assert(t); strict_lock<mutex> lk(*e.mutex()); e.get(lk).bump(); } } }; vs_run([&] { f(a); }, [&] { f(vs_choose(3)); }); vs_assert(d.a == 2); }
SCENARIO(ext_copies, vs_opt().bound(0, 0)) { mutex m, n; Val v1(1), v2(2); externally_locked<Val> a(m, v1), b(n, boost::move(v2)); switch (vs_choose(6)) { case 0: { externally_locked<Val> c(a); vs_assert(c.mutex() == &m); strict_lock<mutex> lk(m); vs_assert(c.get(lk).get() == 1 && a.get(lk).get() == 1); break; } case 1: { externally_locked<Val> c(boost::move(a)); vs_assert(c.mutex() == &m); strict_lock<mutex> lk(m); vs_assert(c.get(lk).get() == 1); break; } case 2: { a = b; vs_assert(a.mutex() == &n); strict_lock<mutex> lk(n); vs_assert(a.get(lk).get() == 2 && b.get(lk).get() == 2); break; } case 3: { a = boost::move(b); vs_assert(a.mutex() == &n); strict_lock<mutex> lk(n); vs_assert(a.get(lk).get() == 2); break; } case 4: a.swap(b); /* fall through */ case 5: { if (a.mutex() == &m) swap(a, b); vs_assert(a.mutex() == &n && b.mutex() == &m); strict_lock<mutex> lk(n), lm(m); vs_assert(a.get(lk).get() == 2 && b.get(lm).get() == 1); break; } } }
SCENARIO(ext_ref_copies, vs_opt().bound(0, 0)) { mutex m, n; Val v1(1), v2(2); typedef externally_locked<Val&> E; E a(v1, m), b(v2, n); switch (vs_choose(4)) { case 0: { E c(a); vs_assert(c.mutex() == &m); strict_lock<mutex> lk(m); vs_assert(&c.get(lk) == &v1); break; } case 1: { a = b; vs_assert(a.mutex() == &n); strict_lock<mutex> lk(n); vs_assert(&a.get(lk) == &v2); break; } case 2: { E c(boost::move(a)); a = boost::move(b); vs_assert(c.mutex() == &m && a.mutex() == &n); strict_lock<mutex> lk(m); vs_assert(&c.get(lk) == &v1); break; } default: swap(a, b); vs_assert(a.mutex() == &n && b.mutex() == &m); strict_lock<mutex> lk(m); vs_assert(&b.get(lk) == &v1); } }
#ifdef BOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
template <class F> static bool lerr(F f) { try { f(); } catch (lock_error&) { return true; } return false; }
SCENARIO(ext_wrong, vs_opt().bound(0, 0)) { mutex m, n; Val v(1); externally_locked<Val> e(m); externally_locked<Val&> r(v, m); externally_locked<Val> const& ce = e; externally_locked<Val&> const& cr = r; bool good = vs_choose(2); mutex& w = good ? m : n; int k = vs_choose(8); bool le;
    if (k < 4) { strict_lock<mutex> lk(w); le = lerr([&] { switch (k) { case 0: e.get(lk); break; case 1: ce.get(lk); break; case 2: r.get(lk); break; default: cr.get(lk); } }); } else { unique_lock<mutex> u(w, defer_lock); { nested_strict_lock<unique_lock<mutex> > lk(u); le = lerr([&] { switch (k) { case 4: e.get(lk); break; case 5: ce.get(lk); break; case 6: r.get(lk); break; default: cr.get(lk); } }); } vs_assert(u.owns_lock()); } vs_assert_msg(le == !good, "form %d with the %s mutex: %s", k, good ? "right" : "wrong", le ? "lock_error" : "access"); vs_assert(m.try_lock() && n.try_lock()); m.unlock(); n.unlock(); }
SCENARIO(nested_none, vs_opt().bound(0, 0)) { unique_lock<mutex> u; vs_assert(lerr([&] { nested_strict_lock<unique_lock<mutex> > n(u); })); }
#endif
// --- streams: what is written in one expression is not broken up
struct Out { std::string s; void put(const char* p) { for (; *p; p++) { std::string t(s); vs_point(); t += *p; s.swap(t); } } }; static Out& operator<<(Out& o, const char* p) { o.put(p); return o; } static Out& operator>>(Out& o, int& i) { i = (int)o.s.size(); return o; } static Out& operator<<(Out& o, Out& (*f)(Out&)) { return f(o); } static Out& nl(Out& o) { o.put("\n"); return o; }
SCENARIO(stream, vs_opt().bound(2, 3)) { Out o; recursive_mutex m; externally_locked_stream<Out> es(o, m); int k = vs_choose(4); auto f = [&](int j) { switch (j) { case 0: es << "ab" << "c" << nl; break; case 1: { auto h = es.hold(); h << "abc"; h << nl; vs_assert(&h.get() == &o); break; } case 2: { stream_guard<Out> h(es); h << "ab" << "c"; stream_guard<Out> g(boost::move(h)); g << nl; break; } default: { int n = -1; es >> n; vs_assert_msg(n % 4 == 0, "half a line is seen"); auto h = es.hold(); es << "abc"; h << nl; } } }; vs_run([&] { f(k); }, [&] { f(vs_choose(4)); }); vs_assert_msg(o.s == "abc\nabc\n", "the lines read %s", o.s.c_str()); vs_t t([&] { vs_assert_msg(m.try_lock(), "left locked"); m.unlock(); }); t.join(); }
