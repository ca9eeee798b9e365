// L01: lock objects against a reference model of ownership, over all operation sequences to a depth.
#include "vsh.hpp"
#include <boost/thread/shared_lock_guard.hpp>
#include <boost/thread/reverse_lock.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/lock_factories.hpp>
#include <boost/thread/with_lock_guard.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/poly_lockable_adapter.hpp>
#include <boost/thread/poly_shared_lockable_adapter.hpp>
#include <boost/thread/null_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
using namespace boost;
// a mutex that counts its owners in every mode, refuses misuse and records how it was asked
enum { X = 0, S = 1, U = 2 };
struct Thrown {};
struct Mock {
    int h[3]; int throwat; long arg;
    Mock() : throwat(-1), arg(0) { h[0] = h[1] = h[2] = 0; }
    bool ok(int m) { return m == X ? !h[0] && !h[1] && !h[2] : m == S ? !h[0] : !h[0] && !h[2]; }
    void boom() { if (throwat == 0) { throwat = -1; throw Thrown(); } if (throwat > 0) throwat--; }
    void acq(int m) { boom(); if (!ok(m)) vs_cut(); h[m]++; }          // would block
    bool tr(int m) { boom(); if (!ok(m)) return false; h[m]++; return true; }
    void rel(int m) { vs_assert_msg(h[m] > 0, "a mutex was released in mode %d that nobody owns in that mode", m); h[m]--; }
    void conv(int a, int b) { rel(a); if (!ok(b)) vs_cut(); h[b]++; }
    bool trconv(int a, int b) { boom(); h[a]--; vs_assert_msg(h[a] >= 0, "conversion from a mode that is not owned"); if (!ok(b)) { h[a]++; return false; } h[b]++; return true; }
    template <class R, class P> static long ns(const bc::duration<R, P>& d) { return (long)bc::duration_cast<bc::nanoseconds>(d).count(); }
    template <class C, class D> static long ns(const bc::time_point<C, D>& t) { return ns(t.time_since_epoch()); }
    static long ns(const posix_time::time_duration& d) { return (long)d.total_microseconds() * 1000; }
    static long ns(const posix_time::ptime& t) { return ns(t - posix_time::ptime(gregorian::date(1970, 1, 1))); }
    void lock() { acq(X); } bool try_lock() { return tr(X); } void unlock() { rel(X); }
    template <class T> bool timed_lock(T const& t) { arg = ns(t); return tr(X); }
    template <class T> bool try_lock_for(T const& t) { arg = ns(t); return tr(X); }
    template <class T> bool try_lock_until(T const& t) { arg = ns(t); return tr(X); }
    void lock_shared() { acq(S); } bool try_lock_shared() { return tr(S); } void unlock_shared() { rel(S); }
    template <class T> bool timed_lock_shared(T const& t) { arg = ns(t); return tr(S); }
    template <class T> bool try_lock_shared_for(T const& t) { arg = ns(t); return tr(S); }
    template <class T> bool try_lock_shared_until(T const& t) { arg = ns(t); return tr(S); }
    void lock_upgrade() { acq(U); } bool try_lock_upgrade() { return tr(U); } void unlock_upgrade() { rel(U); }
    template <class T> bool timed_lock_upgrade(T const& t) { arg = ns(t); return tr(U); }
    template <class T> bool try_lock_upgrade_for(T const& t) { arg = ns(t); return tr(U); }
    template <class T> bool try_lock_upgrade_until(T const& t) { arg = ns(t); return tr(U); }
    void unlock_and_lock_shared() { conv(X, S); } void unlock_and_lock_upgrade() { conv(X, U); }
    void unlock_upgrade_and_lock() { conv(U, X); } void unlock_upgrade_and_lock_shared() { conv(U, S); }
    bool try_unlock_upgrade_and_lock() { return trconv(U, X); }
    template <class T> bool try_unlock_upgrade_and_lock_for(T const& t) { arg = ns(t); return trconv(U, X); }
    template <class T> bool try_unlock_upgrade_and_lock_until(T const& t) { arg = ns(t); return trconv(U, X); }
    bool try_unlock_shared_and_lock() { return trconv(S, X); }
    template <class T> bool try_unlock_shared_and_lock_for(T const& t) { arg = ns(t); return trconv(S, X); }
    template <class T> bool try_unlock_shared_and_lock_until(T const& t) { arg = ns(t); return trconv(S, X); }
    bool try_unlock_shared_and_lock_upgrade() { return trconv(S, U); }
    template <class T> bool try_unlock_shared_and_lock_upgrade_for(T const& t) { arg = ns(t); return trconv(S, U); }
    template <class T> bool try_unlock_shared_and_lock_upgrade_until(T const& t) { arg = ns(t); return trconv(S, U); }
};
// reference: which mutex (or none) a lock object refers to and whether it owns it
struct Ref { Mock* m; bool o; Ref() : m(0), o(false) {} Ref(Mock* m, bool o) : m(m), o(o) {} };
struct W { Mock m[2]; int want[2][3]; W() { for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) want[i][j] = 0; }
    int idx(Mock* p) { return int(p - m); }
    void add(Mock* p, int mode, int d) { want[idx(p)][mode] += d; }
    bool ok(Mock* p, int mode) { int* h = want[idx(p)]; return mode == X ? !h[0] && !h[1] && !h[2] : mode == S ? !h[0] : !h[0] && !h[2]; }
    void check() { for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) vs_assert_msg(m[i].h[j] == want[i][j], "mutex %d is owned %d times in mode %d, the reference says %d", i, m[i].h[j], j, want[i][j]); } };
template <class L> void agree(L& l, Ref& r) {
    vs_assert_msg(l.owns_lock() == r.o, "owns_lock() is %d, the reference says %d", l.owns_lock(), r.o); vs_assert_msg(l.mutex() == r.m, "mutex() disagrees with the reference"); vs_assert(bool(l) == r.o); vs_assert(!l == !r.o); }
// runs op, which must raise lock_error `code` if code != 0
template <class F> bool erring(int code, F f) {
    if (!code) { f(); return false; }
    try { f(); } catch (lock_error& e) { vs_assert_msg(e.native_error() == code, "wrong error code %d", e.native_error()); vs_assert(e.code().value() == code); return true; }
    vs_fail("misuse not reported: expected lock_error %d", code); }
static int lockerr(const Ref& r) { return !r.m ? EPERM : r.o ? EDEADLK : 0; }
static const long D1 = 1234567000;   // whole microseconds
static bc::nanoseconds dur() { return bc::nanoseconds(D1); }
template <int MODE> struct Kind;
template <> struct Kind<X> { typedef unique_lock<Mock> L; enum { timed = 1 }; };
template <> struct Kind<S> { typedef shared_lock<Mock> L; enum { timed = 1 }; };
template <> struct Kind<U> { typedef upgrade_lock<Mock> L; enum { timed = 0 }; };
#if defined BOOST_THREAD_USES_DATETIME
template <class L> bool timed_rel(L& l) { return l.timed_lock(posix_time::microseconds(D1 / 1000)); }
template <class L> bool timed_abs(L& l) { return l.timed_lock(posix_time::ptime(gregorian::date(1970, 1, 1)) + posix_time::microseconds(D1 / 1000)); }
#else
template <class L> bool timed_rel(L&) { vs_cut(); } template <class L> bool timed_abs(L&) { vs_cut(); }
#endif
static bool timed_rel(upgrade_lock<Mock>&) { vs_cut(); } static bool timed_abs(upgrade_lock<Mock>&) { vs_cut(); }
template <int MODE> void attempt(W& w, Ref& r, bool got, bool hasarg) {
    bool want = w.ok(r.m, MODE); vs_assert_msg(got == want, "acquisition %s, the reference says otherwise", got ? "succeeded" : "failed");
    if (hasarg) vs_assert_msg(r.m->arg == D1, "time argument not passed on"); r.m->arg = 0; r.o = got; if (got) w.add(r.m, MODE, 1); }
// constructs in place, by every constructor
template <int MODE> typename Kind<MODE>::L* make(W& w, Mock* m, Ref& r, int how) {
    typedef typename Kind<MODE>::L L; L* l = 0; r = Ref(m, false);
    switch (how) {
    case 0: l = new L(); r.m = 0; break;
    case 1: l = new L(*m, defer_lock); break;
    case 2: if (!w.ok(m, MODE)) vs_cut(); l = new L(*m); r.o = true; w.add(m, MODE, 1); break;
    case 3: l = new L(*m, try_to_lock); attempt<MODE>(w, r, l->owns_lock(), false); break;
    case 4: if (!w.ok(m, MODE)) vs_cut(); MODE == X ? m->lock() : MODE == S ? m->lock_shared() : m->lock_upgrade(); l = new L(*m, adopt_lock); r.o = true; w.add(m, MODE, 1); break;
    case 5: l = new L(*m, dur()); attempt<MODE>(w, r, l->owns_lock(), true); break;
    case 6: l = new L(*m, bc::steady_clock::time_point(dur())); attempt<MODE>(w, r, l->owns_lock(), true); break;
    }
    agree(*l, r); w.check(); return l;
}
template <int MODE> void drop(W& w, typename Kind<MODE>::L* l, Ref& r) { delete l; if (r.o) w.add(r.m, MODE, -1); w.check(); }
template <int MODE> void step(W& w, typename Kind<MODE>::L*& a, typename Kind<MODE>::L*& b, Ref& ra, Ref& rb, int op) {
    typedef typename Kind<MODE>::L L; L& l = *a;
    switch (op) {
    case 0: { int e = lockerr(ra); if (!e && !w.ok(ra.m, MODE)) vs_cut(); if (!erring(e, [&] { l.lock(); })) attempt<MODE>(w, ra, true, false); break; }
    case 1: { bool g = false; if (!erring(lockerr(ra), [&] { g = l.try_lock(); })) attempt<MODE>(w, ra, g, false); break; }
    case 2: { bool g = false; if (!erring(lockerr(ra), [&] { g = l.try_lock_for(dur()); })) attempt<MODE>(w, ra, g, true); break; }
    case 3: { bool g = false; if (!erring(lockerr(ra), [&] { g = l.try_lock_until(bc::steady_clock::time_point(dur())); })) attempt<MODE>(w, ra, g, true); break; }
    case 4: { bool g = false; if (!erring(lockerr(ra), [&] { g = timed_rel(l); })) attempt<MODE>(w, ra, g, true); break; }
    case 5: { bool g = false; if (!erring(lockerr(ra), [&] { g = timed_abs(l); })) attempt<MODE>(w, ra, g, true); break; }
    case 6: if (!erring(!ra.m || !ra.o ? EPERM : 0, [&] { l.unlock(); })) { w.add(ra.m, MODE, -1); ra.o = false; } break;
    case 7: { Mock* p = l.release(); vs_assert(p == ra.m); ra = Ref(); break; }     // the ownership stays with the mutex
    case 8: l.swap(*b); std::swap(ra, rb); break;
    case 9: { using boost::swap; swap(*a, *b); std::swap(ra, rb); break; }
    case 10: *a = boost::move(*b); if (ra.o) w.add(ra.m, MODE, -1); ra = rb; rb = Ref(); break;
    case 11: { L* n = new L(boost::move(l)); Ref none; agree(l, none); delete a; a = n; break; }
    case 12: { int how = vs_choose(7); L* n; Ref rn; n = make<MODE>(w, &w.m[vs_choose(2)], rn, how); *a = boost::move(*n); if (ra.o) w.add(ra.m, MODE, -1); ra = rn; Ref none; agree(*n, none); delete n; break; }
    // the mutex refuses by throwing: the lock object must not believe it owns it
    case 13: if (lockerr(ra)) vs_cut(); ra.m->throwat = 0; { bool th = false; int k = vs_choose(3); try { k == 0 ? l.lock() : k == 1 ? (void)l.try_lock() : (void)l.try_lock_for(dur()); } catch (Thrown&) { th = true; } vs_assert_msg(th, "exception swallowed"); } break;
    // somebody else comes and goes
    case 14: { int k = vs_choose(2); if (!w.m[0].ok(k)) vs_cut(); w.m[0].h[k]++; w.want[0][k]++; vs_set(k, vs_get(k) + 1); break; }
    case 15: { int k = vs_choose(2); if (!vs_get(k)) vs_cut(); w.m[0].h[k]--; w.want[0][k]--; vs_set(k, vs_get(k) - 1); break; }
    }
    agree(*a, ra); agree(*b, rb); w.check();
}
template <int MODE> void sequence(int how) {
    W w; Ref r[2]; typename Kind<MODE>::L* l[2]; l[0] = make<MODE>(w, &w.m[0], r[0], how); l[1] = make<MODE>(w, &w.m[1 - vs_choose(2)], r[1], vs_choose(3));
    int depth = vs_thorough() ? 4 : 3;
    for (int i = 0; i < depth; i++) { int t = vs_choose(2); step<MODE>(w, l[t], l[1 - t], r[t], r[1 - t], vs_choose(16)); }
    drop<MODE>(w, l[0], r[0]); drop<MODE>(w, l[1], r[1]);
}
// mutex::scoped_try_lock: tries when constructed
typedef boost::detail::try_lock_wrapper<Mock> TL;
static TL* make_try(W& w, Mock* m, Ref& r, int how) { TL* l = 0; r = Ref(m, false); switch (how) { case 0: l = new TL(); r.m = 0; break; case 1: l = new TL(*m, defer_lock); break; case 2: l = new TL(*m); attempt<X>(w, r, l->owns_lock(), false); break; case 3: l = new TL(*m, try_to_lock); attempt<X>(w, r, l->owns_lock(), false); break; default: if (!w.ok(m, X)) vs_cut(); m->lock(); l = new TL(*m, adopt_lock); r.o = true; w.add(m, X, 1); } agree(*l, r); w.check(); return l; }
static void step_try(W& w, TL*& a, TL*& b, Ref& ra, Ref& rb, int op) { TL& l = *a; switch (op) {
    case 0: { int e = lockerr(ra); if (!e && !w.ok(ra.m, X)) vs_cut(); if (!erring(e, [&] { l.lock(); })) attempt<X>(w, ra, true, false); break; }
    case 1: { bool g = false; if (!erring(lockerr(ra), [&] { g = l.try_lock(); })) attempt<X>(w, ra, g, false); break; }
    case 2: if (!erring(!ra.m || !ra.o ? EPERM : 0, [&] { l.unlock(); })) { w.add(ra.m, X, -1); ra.o = false; } break;
    case 3: { Mock* p = l.release(); vs_assert(p == ra.m); ra = Ref(); break; }
    case 4: l.swap(*b); std::swap(ra, rb); break;
    case 5: { using boost::detail::swap; swap(*a, *b); std::swap(ra, rb); break; }
    case 6: *a = boost::move(*b); if (ra.o) w.add(ra.m, X, -1); ra = rb; rb = Ref(); break;
    case 7: { TL* n = new TL(boost::move(l)); Ref none; agree(l, none); delete a; a = n; break; }
    case 8: { Ref rn; TL* n = make_try(w, &w.m[vs_choose(2)], rn, vs_choose(5)); *a = boost::move(*n); if (ra.o) w.add(ra.m, X, -1); ra = rn; Ref none; agree(*n, none); delete n; break; }
    case 9: if (lockerr(ra)) vs_cut(); ra.m->throwat = 0; { bool th = false; try { vs_choose(2) ? l.lock() : (void)l.try_lock(); } catch (Thrown&) { th = true; } vs_assert_msg(th, "exception swallowed"); } break;
    case 10: { if (!w.m[0].ok(X)) vs_cut(); w.m[0].h[X]++; w.want[0][X]++; vs_set(X, vs_get(X) + 1); break; }
    default: { if (!vs_get(X)) vs_cut(); w.m[0].h[X]--; w.want[0][X]--; vs_set(X, vs_get(X) - 1); } }
    agree(*a, ra); agree(*b, rb); w.check(); }
SCENARIO(scoped_try, vs_opt().bound(0, 0).leak().secs(60, 600)) { W w; Ref r[2]; TL* l[2]; l[0] = make_try(w, &w.m[0], r[0], vs_choose(5)); l[1] = make_try(w, &w.m[1 - vs_choose(2)], r[1], vs_choose(3)); int depth = vs_thorough() ? 5 : 3; for (int i = 0; i < depth; i++) { int t = vs_choose(2); step_try(w, l[t], l[1 - t], r[t], r[1 - t], vs_choose(12)); }
    for (int i = 0; i < 2; i++) { delete l[i]; if (r[i].o) w.add(r[i].m, X, -1); w.check(); } }
#define SEQ(n) SCENARIO(unique_##n, vs_opt().bound(0, 0).leak().secs(60, 600)) { sequence<X>(n); } SCENARIO(shared_##n, vs_opt().bound(0, 0).leak().secs(60, 600)) { sequence<S>(n); } SCENARIO(upgrade_##n, vs_opt().bound(0, 0).leak().secs(60, 600)) { sequence<U>(n); }
SEQ(0) SEQ(1) SEQ(2) SEQ(3) SEQ(4) SEQ(5) SEQ(6)
// conversions between the lock types
struct Trio {
    W w; unique_lock<Mock> u; shared_lock<Mock> s; upgrade_lock<Mock> g; Ref ru, rs, rg;
    void check() { agree(u, ru); agree(s, rs); agree(g, rg); w.check(); }
    void set(Ref& r, int mode, Ref v) { if (r.o) w.add(r.m, mode, -1); r = v; }
    void down(Ref& from, int fm, Ref& to, int tm) { Ref v = from; if (v.o) { w.add(v.m, fm, -1); w.add(v.m, tm, 1); } from = Ref(); set(to, tm, v); }
    // a try conversion into a fresh lock t, then moved into place
    template <class L> void trial(L& t, Ref& from, int fm, Ref& to, L& place, int tm, bool hasarg) {
        Ref v; if (!from.m) ; else if (!from.o) { v = from; from = Ref(); }
        else { int* h = w.want[w.idx(from.m)]; h[fm]--; bool ok = w.ok(from.m, tm); h[fm]++; if (hasarg) vs_assert_msg(from.m->arg == D1, "time argument not passed on"); if (ok) { w.add(from.m, fm, -1); w.add(from.m, tm, 1); v = from; from = Ref(); } }
        agree(t, v); place = boost::move(t); set(to, tm, v); }
    void step(int op) {
        w.m[0].arg = w.m[1].arg = 0; bc::steady_clock::time_point tp(dur());
        switch (op) {
        case 0: { if (ru.m) vs_cut(); Mock* m = &w.m[vs_choose(2)]; if (!w.ok(m, X)) vs_cut(); u = unique_lock<Mock>(*m); ru = Ref(m, true); w.add(m, X, 1); break; }
        case 1: { if (rs.m) vs_cut(); Mock* m = &w.m[vs_choose(2)]; if (!w.ok(m, S)) vs_cut(); s = shared_lock<Mock>(*m); rs = Ref(m, true); w.add(m, S, 1); break; }
        case 2: { if (rg.m) vs_cut(); Mock* m = &w.m[vs_choose(2)]; if (!w.ok(m, U)) vs_cut(); g = upgrade_lock<Mock>(*m); rg = Ref(m, true); w.add(m, U, 1); break; }
        case 3: u = unique_lock<Mock>(w.m[0], defer_lock); set(ru, X, Ref(&w.m[0], false)); break;
        case 4: s = shared_lock<Mock>(w.m[0], defer_lock); set(rs, S, Ref(&w.m[0], false)); break;
        case 5: g = upgrade_lock<Mock>(w.m[0], defer_lock); set(rg, U, Ref(&w.m[0], false)); break;
        case 6: s = shared_lock<Mock>(boost::move(u)); down(ru, X, rs, S); break;
        case 7: s = shared_lock<Mock>(boost::move(g)); down(rg, U, rs, S); break;
        case 8: g = upgrade_lock<Mock>(boost::move(u)); down(ru, X, rg, U); break;
        case 9: { if (rg.o) { int* h = w.want[w.idx(rg.m)]; if (h[S] || h[X]) vs_cut(); } u = unique_lock<Mock>(boost::move(g)); down(rg, U, ru, X); break; }
        case 10: { unique_lock<Mock> t(boost::move(g), try_to_lock); trial(t, rg, U, ru, u, X, false); break; }
        case 11: { unique_lock<Mock> t(boost::move(g), dur()); trial(t, rg, U, ru, u, X, true); break; }
        case 12: { unique_lock<Mock> t(boost::move(g), tp); trial(t, rg, U, ru, u, X, true); break; }
        case 13: { unique_lock<Mock> t(boost::move(s), try_to_lock); trial(t, rs, S, ru, u, X, false); break; }
        case 14: { unique_lock<Mock> t(boost::move(s), dur()); trial(t, rs, S, ru, u, X, true); break; }
        case 15: { unique_lock<Mock> t(boost::move(s), tp); trial(t, rs, S, ru, u, X, true); break; }
        case 16: { upgrade_lock<Mock> t(boost::move(s), try_to_lock); trial(t, rs, S, rg, g, U, false); break; }
        case 17: { upgrade_lock<Mock> t(boost::move(s), dur()); trial(t, rs, S, rg, g, U, true); break; }
        case 18: { upgrade_lock<Mock> t(boost::move(s), tp); trial(t, rs, S, rg, g, U, true); break; }
        // exclusive for a scope, upgrade again after it
        case 19: { if (rg.o) { int* h = w.want[w.idx(rg.m)]; if (h[S] || h[X]) vs_cut(); } Ref old = rg;
            { upgrade_to_unique_lock<Mock> x(g); if (old.o) { w.add(old.m, U, -1); w.add(old.m, X, 1); } w.check(); vs_assert(x.owns_lock() == old.o && x.mutex() == old.m && bool(x) == old.o); Ref none; agree(g, none);
              int k = vs_choose(3);
              if (k == 1) { upgrade_to_unique_lock<Mock> y(boost::move(x)); vs_assert(y.owns_lock() == old.o && !x.owns_lock()); w.check(); if (old.o) { w.add(old.m, U, 1); w.add(old.m, X, -1); } }
              else { if (k == 2) { upgrade_lock<Mock> g2; upgrade_to_unique_lock<Mock> y(g2); y.swap(x); vs_assert(y.owns_lock() == old.o && !x.owns_lock()); x = boost::move(y); vs_assert(x.owns_lock() == old.o); w.check(); }
                     if (old.o) { w.add(old.m, U, 1); w.add(old.m, X, -1); } } }
            break; }
        case 20: if (!rs.o) vs_cut(); s.unlock(); w.add(rs.m, S, -1); rs.o = false; break;
        case 21: if (!rg.o) vs_cut(); g.unlock(); w.add(rg.m, U, -1); rg.o = false; break;
        // another shared owner of mutex 0 comes and goes
        case 22: if (!w.ok(&w.m[0], S)) vs_cut(); w.m[0].h[S]++; w.want[0][S]++; vs_set(0, vs_get(0) + 1); break;
        case 23: if (!vs_get(0)) vs_cut(); w.m[0].h[S]--; w.want[0][S]--; vs_set(0, vs_get(0) - 1); break;
        }
        check();
    }
};
static void conversions(int first) { Trio t; t.step(first); int depth = vs_thorough() ? 4 : 3; for (int i = 0; i < depth; i++) t.step(vs_choose(24)); 
    { unique_lock<Mock> a(boost::move(t.u)); shared_lock<Mock> b(boost::move(t.s)); upgrade_lock<Mock> c(boost::move(t.g)); }
    if (t.ru.o) t.w.add(t.ru.m, X, -1); if (t.rs.o) t.w.add(t.rs.m, S, -1); if (t.rg.o) t.w.add(t.rg.m, U, -1); t.ru = t.rs = t.rg = Ref(); t.check(); }
#define CV(n) SCENARIO(conversions_##n, vs_opt().bound(0, 0).secs(60, 600)) { conversions(n); }
CV(0) CV(1) CV(2) CV(3) CV(4) CV(5)
#ifndef BOOST_THREAD_PROVIDES_EXPLICIT_LOCK_CONVERSION
SCENARIO(implicit_assignment, vs_opt().bound(0, 0)) {
    Trio t; t.u = unique_lock<Mock>(t.w.m[0]); t.ru = Ref(&t.w.m[0], true); t.w.add(&t.w.m[0], X, 1); t.check();
    switch (vs_choose(3)) {
    case 0: t.s = boost::move(t.u); t.down(t.ru, X, t.rs, S); break;
    case 1: t.g = boost::move(t.u); t.down(t.ru, X, t.rg, U); t.check(); t.s = boost::move(t.g); t.down(t.rg, U, t.rs, S); break;
    case 2: t.g = boost::move(t.u); t.down(t.ru, X, t.rg, U); t.check(); t.u = boost::move(t.g); t.down(t.rg, U, t.ru, X); break; }
    t.check(); }
#endif
// guards: every acquisition may throw, the body may throw; the mutex ends as it began
SCENARIO(guards, vs_opt().bound(0, 0)) {
    Mock m; int k = vs_choose(14); bool thrown = false; int body = vs_choose(2), acq = vs_choose(2); if (acq) m.throwat = 0; int want = X, end = 0;
    auto in = [&](int mode) { vs_assert_msg(m.h[mode] == 1 && m.h[X] + m.h[S] + m.h[U] == 1, "the guard does not own the mutex"); vs_set(9, 1); if (body) throw Thrown(); };
    try { switch (k) {
        case 0: { lock_guard<Mock> g(m); in(X); break; }
        case 1: { if (acq) vs_cut(); m.lock(); lock_guard<Mock> g(m, adopt_lock); in(X); break; }
        case 2: { shared_lock_guard<Mock> g(m); in(S); break; }
        case 3: { if (acq) vs_cut(); m.lock_shared(); shared_lock_guard<Mock> g(m, adopt_lock); in(S); break; }
        case 4: { strict_lock<Mock> g(m); vs_assert(g.owns_lock() && g.mutex() == &m && g.owns_lock(&m)); Mock o; vs_assert(!g.owns_lock(&o)); in(X); break; }
        case 5: { auto&& g = make_lock_guard(m); (void)g; in(X); break; }
        case 6: { if (acq) vs_cut(); m.lock(); auto&& g = make_lock_guard(m, adopt_lock); (void)g; in(X); break; }
        case 7: { auto&& g = make_strict_lock(m); vs_assert(g.owns_lock(&m)); in(X); break; }
        case 8: { unique_lock<Mock> l(m, defer_lock); bool first = vs_choose(2); if (first) l.lock(); try { nested_strict_lock<unique_lock<Mock> > n(l); vs_assert(n.owns_lock() && n.mutex() == &m && n.owns_lock(&m)); vs_assert(!l.owns_lock() && !l.mutex()); in(X); } catch (Thrown&) { vs_assert(l.mutex() == &m && l.owns_lock() == (vs_get(9) == 1)); throw; } vs_assert(l.owns_lock() && l.mutex() == &m); break; }
        case 9: { unique_lock<Mock> l(m); { auto&& n = make_nested_strict_lock(l); (void)n; in(X); } vs_assert(l.owns_lock()); break; }
        case 10: { int v = with_lock_guard(m, [&](int a, int& b) { b = 7; in(X); return a + 1; }, 4, boost::ref(end)); vs_assert(v == 5 && end == 7); break; }
        case 11: { unique_lock<Mock> l = make_unique_lock(m); in(X); break; }
        case 12: { unique_lock<Mock> l = make_unique_lock(m, try_to_lock); vs_assert(l.owns_lock()); in(X); break; }
        case 13: { if (acq) vs_cut(); unique_lock<Mock> l = make_unique_lock(m, defer_lock); vs_assert(!l.owns_lock() && l.mutex() == &m); m.lock(); unique_lock<Mock> l2 = make_unique_lock(m, adopt_lock); in(X); break; }
    } } catch (Thrown&) { thrown = true; }
    if (acq) vs_assert_msg(thrown && !vs_get(9), "an acquisition that throws must not run the body"); else vs_assert(thrown == (body != 0));
    vs_assert_msg(!m.h[X] && !m.h[S] && !m.h[U], "the guard left the mutex owned"); }
SCENARIO(reverse, vs_opt().bound(0, 0)) {
    Mock m; unique_lock<Mock> l(m); bool th = vs_choose(2);
    try { reverse_lock<unique_lock<Mock> > r(l); vs_assert_msg(!m.h[X], "reverse_lock did not unlock"); vs_assert(!l.owns_lock()); if (th) throw Thrown(); } catch (Thrown&) {}
    vs_assert_msg(l.owns_lock() && l.mutex() == &m && m.h[X] == 1, "reverse_lock did not lock again"); }
SCENARIO(nested_without_mutex, vs_opt().bound(0, 0)) { unique_lock<Mock> l; bool th = false; try { nested_strict_lock<unique_lock<Mock> > n(l); } catch (lock_error&) { th = true; } vs_assert(th); }
SCENARIO(many_unique_locks, vs_opt().bound(0, 0)) { Mock a, b, c; { auto t = make_unique_locks(a, b, c); vs_assert(std::get<0>(t).owns_lock() && std::get<1>(t).owns_lock() && std::get<2>(t).owns_lock() && a.h[X] == 1 && b.h[X] == 1 && c.h[X] == 1 && std::get<1>(t).mutex() == &b); } vs_assert(!a.h[X] && !b.h[X] && !c.h[X]); }
// adapters forward every operation
template <class A> void forwards_basic(A& a, Mock& m) { a.lock(); vs_assert(m.h[X] == 1); vs_assert(!a.try_lock()); a.unlock(); vs_assert(m.h[X] == 0); vs_assert(a.try_lock()); vs_assert(m.h[X] == 1); vs_assert(!a.try_lock_for(dur())); a.unlock();
    m.arg = 0; vs_assert(a.try_lock_for(dur()) && m.arg == D1); a.unlock(); m.arg = 0; vs_assert(a.try_lock_until(bc::steady_clock::time_point(dur())) && m.arg == D1 && m.h[X] == 1); a.unlock(); m.arg = 0; vs_assert(a.try_lock_until(bc::system_clock::time_point(bc::duration_cast<bc::system_clock::duration>(dur()))) && m.arg == D1); a.unlock(); vs_assert(m.h[X] == 0); }
template <class A> void forwards_shared(A& a, Mock& m) { a.lock_shared(); vs_assert(a.try_lock_shared()); vs_assert(m.h[S] == 2); vs_assert(!a.try_lock()); a.unlock_shared(); a.unlock_shared(); vs_assert(m.h[S] == 0);
    m.arg = 0; vs_assert(a.try_lock_shared_for(dur()) && m.arg == D1); m.arg = 0; vs_assert(a.try_lock_shared_until(bc::steady_clock::time_point(dur())) && m.arg == D1 && m.h[S] == 2); a.unlock_shared(); a.unlock_shared(); }
template <class A> void forwards_upgrade(A& a, Mock& m) { a.lock_upgrade(); vs_assert(m.h[U] == 1 && !a.try_lock_upgrade() && a.try_lock_shared()); a.unlock_shared(); a.unlock_upgrade_and_lock(); vs_assert(m.h[X] == 1 && !m.h[U]); a.unlock_and_lock_upgrade(); vs_assert(m.h[U] == 1 && !m.h[X]); vs_assert(a.try_unlock_upgrade_and_lock() && m.h[X] == 1);
    a.unlock_and_lock_shared(); vs_assert(m.h[S] == 1 && !m.h[X]); vs_assert(a.try_unlock_shared_and_lock_upgrade() && m.h[U] == 1 && !m.h[S]); a.unlock_upgrade_and_lock_shared(); vs_assert(m.h[S] == 1 && !m.h[U]); vs_assert(a.try_unlock_shared_and_lock() && m.h[X] == 1); a.unlock();
    vs_assert(a.try_lock_upgrade()); a.unlock_upgrade(); m.arg = 0; vs_assert(a.try_lock_upgrade_for(dur()) && m.arg == D1); m.arg = 0; vs_assert(a.try_unlock_upgrade_and_lock_for(dur()) && m.arg == D1 && m.h[X] == 1); a.unlock_and_lock_shared(); m.arg = 0; vs_assert(a.try_unlock_shared_and_lock_upgrade_for(dur()) && m.arg == D1 && m.h[U] == 1);
    a.unlock_upgrade_and_lock_shared(); m.arg = 0; vs_assert(a.try_unlock_shared_and_lock_for(dur()) && m.arg == D1 && m.h[X] == 1); a.unlock_and_lock_upgrade(); a.unlock_upgrade(); vs_assert(!m.h[X] && !m.h[S] && !m.h[U]); }
struct Ad : upgrade_lockable_adapter<Mock> { Mock& mk() { return lockable(); } };
SCENARIO(adapters, vs_opt().bound(0, 0)) { Ad a; forwards_basic(a, a.mk()); forwards_shared(a, a.mk()); forwards_upgrade(a, a.mk()); }
// two waiters through wrappers of real mutexes
SCENARIO(real_mutex, vs_opt().bound(4, 7)) {
    shared_mutex m; Data d; int k = vs_choose(4);
    vs_run([&] { switch (k) { case 0: { lock_guard<shared_mutex> g(m); d.bump(); break; } case 1: { unique_lock<shared_mutex> g(m); d.bump(); break; } case 2: { upgrade_lock<shared_mutex> g(m); d.check(); upgrade_to_unique_lock<shared_mutex> x(g); d.bump(); break; }
                            case 3: { unique_lock<shared_mutex> g(m); { reverse_lock<unique_lock<shared_mutex> > r(g); } d.bump(); upgrade_lock<shared_mutex> u(boost::move(g)); d.check(); break; } } },
           [&] { shared_lock<shared_mutex> g(m); d.check(); }, [&] { strict_lock<shared_mutex> g(m); d.bump(); });
    vs_assert(d.a == 2); vs_assert(m.try_lock()); m.unlock(); }
