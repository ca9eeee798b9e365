// S01: exclusion between the modes of shared_mutex; S03 (VS_CONV): conversions. S05 runs both with the v2 types.
#include "sm.hpp"
template <class M> void pair_of(int a) { UM m; Shared x; int b = vs_choose(NPROG);
    vs_run([&] { prog(m, x, a); }, [&] { prog(m, x, b); }); usable(m); }
template <class M> void triple(int a) {
    int b = vs_choose(a + 1), c = vs_choose(b + 1); UM m; Shared x;
    vs_run([&] { prog(m, x, a); }, [&] { prog(m, x, b); }, [&] { prog(m, x, c); }); usable(m); }
#define P2(n) SCENARIO(two_##n, vs_opt().bound(5, 7)) { pair_of<UM>(n); }
#define P3(n) SCENARIO(three_##n, vs_opt().bound(2, 3).secs(60, 400)) { triple<UM>(n); }
#ifndef VS_CONV
// whoever finds itself the last user destroys the mutex at once, while the other may still be returning from its release
SCENARIO(last_user, vs_opt().bound(5, 7).spurious(1)) { UM* m = new UM; int a = vs_choose(8), b = vs_choose(4); auto last = [] { return vs_add(1, 1) == 2; };
    vs_run([&] { bool l; switch (a) { case 0: m->lock_shared(); l = last(); m->unlock_shared(); break; case 1: m->lock_upgrade(); l = last(); m->unlock_upgrade(); break; case 2: m->lock(); l = last(); m->unlock(); break; case 3: m->lock_upgrade(); m->unlock_upgrade_and_lock(); l = last(); m->unlock(); break; case 4: m->lock(); m->unlock_and_lock_upgrade(); l = last(); m->unlock_upgrade(); break; case 5: m->lock(); m->unlock_and_lock_shared(); l = last(); m->unlock_shared(); break; case 6: m->lock_upgrade(); m->unlock_upgrade_and_lock_shared(); l = last(); m->unlock_shared(); break; default: while (!m->try_lock_shared_for(boost::chrono::milliseconds(FAR_))) ; l = last(); m->unlock_shared(); } if (l) delete m; },
        [&] { bool l; switch (b) { case 0: m->lock(); break; case 1: m->lock_upgrade(); m->unlock_upgrade_and_lock(); break; case 2: while (!m->try_lock_for(boost::chrono::milliseconds(FAR_))) ; break; default: m->lock_upgrade(); while (!m->try_unlock_upgrade_and_lock_for(boost::chrono::milliseconds(FAR_))) ; } l = last(); m->unlock(); if (l) delete m; }); }
P2(0) P2(1) P2(2) P2(3) P2(4) P2(5) P2(6) P2(7) P2(8) P2(9) P2(10)
P3(0) P3(1) P3(2) P3(3) P3(4) P3(5) P3(6) P3(7) P3(8) P3(9) P3(10) 
P3(11) P3(12) P3(13) P3(14) P3(15) P3(16) P3(17) P3(18) P3(19) P3(20) P3(21)
#else
P2(11) P2(12) P2(13) P2(14) P2(15) P2(16) P2(17) P2(18) P2(19) P2(20) P2(21)
// a conversion against writers of every kind and one more owner
template <class M> void conv(int a) {
    static const int wr[] = {0, 2, 4, 11, 16, 18, 17}; int b = wr[vs_choose(7)], c = vs_choose(NPROG); UM m; Shared x;
    vs_run([&] { prog(m, x, a); }, [&] { prog(m, x, b); }, [&] { prog(m, x, c); }); usable(m); }
#define C3(n) SCENARIO(conv_##n, vs_opt().bound(2, 3).secs(60, 400)) { conv<UM>(n); }
C3(11) C3(12) C3(13) C3(14) C3(15) C3(16) C3(17) C3(18) C3(19) C3(20) C3(21)
#endif
#ifdef VS_TWO
SCENARIO(v2shared_two, vs_opt().bound(5, 7)) { SMX m; Shared x; int a = vs_choose(NSHARED_ONLY), b = vs_choose(a + 1); vs_run([&] { prog_sx(m, x, a); }, [&] { prog_sx(m, x, b); }); usable_sx(m); }
SCENARIO(v2shared_three, vs_opt().bound(2, 4)) { SMX m; Shared x; int a = vs_choose(NSHARED_ONLY), b = vs_choose(a + 1), c = vs_choose(b + 1); vs_run([&] { prog_sx(m, x, a); }, [&] { prog_sx(m, x, b); }, [&] { prog_sx(m, x, c); }); usable_sx(m); }
SCENARIO(v2shared_last_user, vs_opt().bound(5, 7).spurious(1)) { SMX* m = new SMX; int a = vs_choose(3), b = vs_choose(a == 1 ? 3 : 2); auto last = [] { return vs_add(1, 1) == 2; };
    vs_run([&] { bool l; switch (a) { case 0: m->lock_shared(); l = last(); m->unlock_shared(); break; case 1: m->lock(); l = last(); m->unlock(); break; default: while (!m->try_lock_shared_for(boost::chrono::milliseconds(FAR_))) ; l = last(); m->unlock_shared(); } if (l) delete m; },
        [&] { bool l; switch (b) { case 0: m->lock(); l = last(); m->unlock(); break; case 1: while (!m->try_lock_for(boost::chrono::milliseconds(FAR_))) ; l = last(); m->unlock(); break; default: m->lock_shared(); l = last(); m->unlock_shared(); } if (l) delete m; }); }
#endif
