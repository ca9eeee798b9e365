// vsched: a stateless model checker for C++ code that uses pthreads and C11 atomics.
//
// All threads of a harness run as fibers of one OS thread.  pthread_*, clocks, sleeps, malloc and the
// __tsan_* callbacks (emitted by clang -fsanitize=thread) are implemented here.  Every visible operation is
// preceded by a scheduling decision; decisions are enumerated depth first, deviations from the default
// schedule being bounded (iterated 0..B).  States (hash of the happens-before graph of the prefix) already
// explored with at least the remaining budget are pruned.  Plain accesses are checked for data races with
// exact vector clocks, for use after free and for use of destroyed synchronisation objects.
#include "vs.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unwind.h>
#include <ucontext.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }

#define CALLER ((u32)(uintptr_t)__builtin_return_address(0))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

// ------------------------------------------------------------------------------------------ configuration
static const int MAXT = 16;
static const u64 ARENA = 0x10000000000ull, SLOT = 16ull << 20, STACKSZ = 512ull << 10, GUARD = 4096;
static const u64 HEAPSZ = SLOT - STACKSZ - GUARD;
static const u64 ARENASZ = SLOT * MAXT, DATAMAX = 4ull << 20, SHN = ARENASZ + DATAMAX;
static const int CLKBITS = 27; static const u32 CLKMASK = (1u << CLKBITS) - 1;
static const u32 SHARED = 0x80000000u;
static const int NGHOST = 64, MAXKEY = 32;
static const i64 RT_BASE = 1600000000ll * 1000000000ll + 654321000, MONO_BASE = 50000ll * 1000000000ll + 123456789;   // on no round number

// ------------------------------------------------------------------------------------------ state
struct Vc { u32 c[MAXT]; };
enum OK { O_FREE, O_MUTEX, O_COND, O_ATOMIC, O_ONCE, O_GUARD, O_GHOST, O_KEY };
struct Obj {
    u64 addr, ver; int kind; int owner, count, type, clk; bool destroyed; int state; Vc vc; u64 acc; bool ini;
};
enum PK { P_RUN, P_LOCK, P_TLOCK, P_COND, P_JOIN, P_SLEEP, P_AWAIT, P_QUIESCE, P_ONCE, P_DONE };
struct Thread {
    int id; bool used, finished, detached, joined, started; void* sp; u64 h; Vc vc, acqf, relf; bool hasrel;
    PK pk; Obj* obj; Obj* mtx; int clk; i64 deadline; bool hasdl; int wake; int jt; long av;
    void* (*fn)(void*); void* arg; void* ret; void* tsd[MAXKEY];
    u64 eh[2]; int err; u64 bump; int yields; u64 lastaddr, lastver; int spins; bool norace; bool expterm; u32 pc;
    int pendop;
};
struct Ev { u8 tid; u8 op; short aux; u32 pc; u64 addr; };
enum Op { E_LOCK, E_TRYLOCK, E_TIMEDLOCK, E_UNLOCK, E_MINIT, E_MDESTROY, E_CINIT, E_CDESTROY, E_WAIT, E_TWAIT, E_SIGNAL,
    E_BCAST, E_WOKEN, E_TIMEOUT, E_SPUR, E_CREATE, E_START, E_EXIT, E_JOIN, E_DETACH, E_LOAD, E_STORE, E_RMW, E_CAS, E_FENCE, E_ONCE,
    E_ONCEDONE, E_GUARD, E_SLEEP, E_YIELD, E_TICK, E_GHOST, E_POINT, E_CHOOSE, E_FAULT, E_NOTE, E_QUIESCE, E_KEY, E_INVOKE, E_N };
static const char* opname[] = { "lock", "trylock", "timedlock", "unlock", "mutex_init", "mutex_destroy", "cond_init", "cond_destroy",
    "cond_wait", "cond_timedwait", "signal", "broadcast", "woken", "TIMEOUT", "SPURIOUS", "create", "start", "exit", "join", "detach",
    "load", "store", "rmw", "cas", "fence", "once", "once_done", "guard", "sleep", "yield", "TICK", "ghost", "point", "choose", "FAULT",
    "note", "quiesce", "key", "invoke" };

struct Scn { char name[120]; void (*fn)(); vs_opt o; };
static Scn scns[512]; static int nscn;
static u8 *datalo, *datahi; static u8* snapshot; static size_t datasz;

static bool model;                 // executing inside a fiber
static Thread T[MAXT]; static int nT, cur; static Thread* me;
static void* explorer_sp; static u64 explorer_eh[2];
static u32 gen, baseclk;
static u32 *sw_, *sr_, *spw, *spr; static u32* gstate; static u32* objgen;
static long livesync; static int faulted; static i64 vt, rtoff, jumpat, jumpby; static i64 ticks[16]; static int nticks;
static int used, bound; static bool cutflag;
static long steps; static const vs_opt* opt;
static int spurleft, faultleft; static unsigned faultmask; static int faulttid = -1;
static bool unlock_points; static int forced;
static int ncpu = 1;
static long ghost[NGHOST]; static Obj* ghostobj[NGHOST];
static int nkeys, basekeys; static bool keyused[MAXKEY]; static void (*keydtor[MAXKEY])(void*); static bool bkeyused[MAXKEY];
static bool thorough;
static Ev* trace; static int ntrace; static const int MAXTRACE = 200000;
static char notes[1 << 16]; static int nnotes;
enum End { END_OK, END_PRUNED, END_CUT, END_RESTART, END_TERM }; static End endreason;
static char outcome[1024]; static int outcomelen;
static bool replaying; static char replayout[512]; static char curscn[128];
static char exepath[512];
static u64 n_plain;

struct Alt { u8 kind, tid, cost; };
enum { A_RUN, A_TIMEOUT, A_SPUR, A_TICK };
struct Choice { u8 n, cur; u8 ubefore; u64 costs; u32 hash; };
static Choice* stk; static int nstk, depth; static const int MAXSTK = 100000;
static int maxthreads;

// shared-read entries
struct Shr { u64 idx; u32 clk[MAXT]; u32 pc[MAXT]; };
static Shr* shr; static u32 nshr; static const u32 MAXSHR = 1 << 16;

// object table
static const u32 OT = 1 << 15;
struct OSlot { u64 addr; u32 gen; u32 idx; };
static OSlot* ot; static Obj* objs; static u32 nobjs; static const u32 MAXOBJ = 1 << 14;

static inline u64 mix(u64 a, u64 b) {
    u64 x = (a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2))) * 0xff51afd7ed558ccdull;
    x ^= x >> 32; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 29; return x;
}
static void* map(size_t n) {
    void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return p;
}

extern "C" void vs_switch(void** save, void* to);
asm(R"(
.text
.globl vs_switch
.type vs_switch,@function
vs_switch:
 push %rbp
 push %rbx
 push %r12
 push %r13
 push %r14
 push %r15
 mov %rsp,(%rdi)
 mov %rsi,%rsp
 pop %r15
 pop %r14
 pop %r13
 pop %r12
 pop %rbx
 pop %rbp
 ret
.size vs_switch,.-vs_switch
)");

static void finish(End e) __attribute__((noreturn));
static void violate(const char* kind, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));

// ------------------------------------------------------------------------------------------ reporting
static _Unwind_Reason_Code btcb(struct _Unwind_Context* c, void* a) {
    u64* v = (u64*)a; if (v[0] >= 40) return _URC_END_OF_STACK; v[++v[0]] = _Unwind_GetIP(c); return _URC_NO_REASON; }

static void violate(const char* kind, const char* fmt, ...) {
    bool m = model; model = false;
    char msg[2048]; va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    FILE* f = stdout; if (!replaying && replayout[0]) { f = fopen(replayout, "w"); if (!f) f = stdout; }
    fprintf(f, "scenario %s\nkind %s\nmessage %s\nexe %s\nbound %d\ntier %s\nchoices", curscn, kind, msg, exepath, bound, thorough ? "thorough" : "quick");
    int n = replaying ? nstk : nstk; if (depth < n) n = depth;
    for (int i = 0; i < n; i++) fprintf(f, " %d/%d", stk[i].cur, stk[i].n);
    fprintf(f, "\nunlock_points %d\nthread %d\nvtime %ld\n", (int)unlock_points, m ? cur : -1, (long)vt);
    u64 bt[64]; bt[0] = 0; if (m) _Unwind_Backtrace(btcb, bt);
    fprintf(f, "stack"); for (u64 i = 1; i <= bt[0]; i++) if (bt[i] < 0x10000000ull) fprintf(f, " %lx", (long)(bt[i] - 1)); fprintf(f, "\n");
    fprintf(f, "trace (thread op object aux pc)\n");
    for (int i = 0; i < ntrace; i++) {
        Ev& e = trace[i];
        if (e.op == E_NOTE) fprintf(f, "  T%d note %s\n", e.tid, notes + e.addr);
        else fprintf(f, "  T%d %s %lx %d @%x\n", e.tid, opname[e.op], (long)e.addr, e.aux, e.pc ? e.pc - 1 : 0);
    }
    for (int i = 0; i < nT; i++) {
        static const char* pk[] = { "runnable", "lock", "timedlock", "cond", "join", "sleep", "await", "quiesce", "once", "done" };
        fprintf(f, "thread T%d %s %lx @%x\n", i, pk[T[i].pk], T[i].obj ? (long)T[i].obj->addr : 0L, T[i].pc ? T[i].pc - 1 : 0);
    }
    if (f != stdout) fclose(f);
    printf("VIOLATION-IN %s kind=%s message=%s\n", curscn, kind, msg);
    fflush(stdout); _exit(1);
}

static inline void tr(int op, u64 addr, int aux, u32 pc) {
    if (ntrace < MAXTRACE) { Ev& e = trace[ntrace++]; e.tid = cur; e.op = op; e.aux = aux; e.pc = pc; e.addr = addr; }
}

// ------------------------------------------------------------------------------------------ vector clocks
static inline void vjoin(Vc& a, const Vc& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void vbase(Vc& a) { for (int i = 0; i < MAXT; i++) a.c[i] = baseclk; }
static inline u32 epoch(Thread* t) { return ((u32)t->id << CLKBITS) | t->vc.c[t->id]; }
static inline bool hb(u32 e, Thread* t) { return (e & CLKMASK) <= t->vc.c[e >> CLKBITS]; }

// ------------------------------------------------------------------------------------------ shadow
static inline bool shidx(u64 a, u64& i) {
    i = a - ARENA; if (likely(i < ARENASZ)) return true;
    if (a >= (u64)datalo && a < (u64)datahi) { i = ARENASZ + (a - (u64)datalo); return true; }
    return false;
}
static const char* where(u64 a) {
    static char b[128]; u64 i = a - ARENA;
    if (i < ARENASZ) { u64 off = i % SLOT; snprintf(b, sizeof b, "%s of T%d +0x%lx", off < HEAPSZ ? "heap" : "stack", (int)(i / SLOT), (long)off); }
    else if (a >= (u64)datalo && a < (u64)datahi) snprintf(b, sizeof b, "global 0x%lx", (long)a);
    else snprintf(b, sizeof b, "0x%lx", (long)a);
    return b;
}
static void race(u64 a, const char* k, u32 pc, const char* ok, u32 oe, u32 opc) __attribute__((noreturn, noinline));
static void race(u64 a, const char* k, u32 pc, const char* ok, u32 oe, u32 opc) {
    violate("data-race", "%s by T%d @%x conflicts with %s by T%d @%x at %s", k, cur, pc - 1, ok, (int)(oe >> CLKBITS), opc - 1, where(a)); }
static void checklive(u64 a, u64 i, u32 pc, const char* what) {
    u64 off = i % SLOT; if (i >= ARENASZ || off >= HEAPSZ) return;
    u32 s = gstate[i >> 4]; if (likely((s >> 2) == gen && (s & 3) == 1)) return;
    if ((s >> 2) == gen && (s & 3) == 2) violate("use-after-free", "%s @%x of freed memory, %s", what, pc - 1, where(a));
    violate("wild-access", "%s @%x outside any allocated block, %s", what, pc - 1, where(a));
}
static void dropobj(u64 a);
static __attribute__((noinline)) void slow_read(u64 a, u64 i, u32 n, u32 pc, bool atomic) {
    u32 e = epoch(me);
    for (u32 k = 0; k < n; k++) {
        u32 w = sw_[i + k];
        if (w && !hb(w, me)) race(a + k, atomic ? "atomic or synchronisation operation" : "read", pc, "write", w, spw[i + k]);
        u32 r = sr_[i + k]; if (r == e) continue;
        if (!r) { sr_[i + k] = e; spr[i + k] = pc; continue; }
        if (r & SHARED) {
            u32 x = r & ~SHARED; if (x < nshr && shr[x].idx == i + k) { shr[x].clk[me->id] = e & CLKMASK; shr[x].pc[me->id] = pc; continue; }
            sr_[i + k] = e; spr[i + k] = pc; continue;
        }
        if ((int)(r >> CLKBITS) == me->id || hb(r, me)) { sr_[i + k] = e; spr[i + k] = pc; continue; }
        if (nshr >= MAXSHR) violate("internal", "shared read table full");
        Shr& s = shr[nshr]; s.idx = i + k; memset(s.clk, 0, sizeof s.clk);
        s.clk[r >> CLKBITS] = r & CLKMASK; s.pc[r >> CLKBITS] = spr[i + k]; s.clk[me->id] = e & CLKMASK; s.pc[me->id] = pc;
        sr_[i + k] = SHARED | nshr++;
    }
}
static __attribute__((noinline)) void slow_write(u64 a, u64 i, u32 n, u32 pc, const char* what) {
    u32 e = epoch(me);
    for (u32 k = 0; k < n; k++) {
        u32 w = sw_[i + k]; u32 r = sr_[i + k];
        if (w && w != e && !hb(w, me)) race(a + k, what, pc, "write", w, spw[i + k]);
        if (r) {
            if (r & SHARED) {
                u32 x = r & ~SHARED; if (x < nshr && shr[x].idx == i + k)
                    for (int t = 0; t < MAXT; t++) if (shr[x].clk[t] > me->vc.c[t]) race(a + k, what, pc, "read or synchronisation operation", ((u32)t << CLKBITS) | shr[x].clk[t], shr[x].pc[t]);
            } else if (!hb(r, me)) race(a + k, what, pc, "read or synchronisation operation", r, spr[i + k]);
            sr_[i + k] = 0;
        }
        sw_[i + k] = e; spw[i + k] = pc;
    }
    for (u64 g = i >> 3; g <= (i + n - 1) >> 3; g++) if (unlikely(objgen[g] == gen)) dropobj(a - i + (g << 3));
}
static inline void nullcheck(u64 a, u32 pc, const char* k) { if (unlikely(a < 65536)) violate("null-dereference", "%s of address 0x%lx @%x", k, (long)a, pc - 1); }
static inline void rd(u64 a, u32 n, u32 pc) {
    if (unlikely(!model)) return;
    u64 i; if (!shidx(a, i)) { nullcheck(a, pc, "read"); return; }
    checklive(a, i, pc, "read"); if (n > 8 ) checklive(a + n - 1, i + n - 1, pc, "read");
    if (me->norace || !opt->races_) return;
    u32 e = epoch(me); bool fast = true;
    for (u32 k = 0; k < n; k++) fast &= (sr_[i + k] == e) | (sw_[i + k] == e);
    if (!fast) slow_read(a, i, n, pc, false);
}
static inline void wr(u64 a, u32 n, u32 pc) {
    if (unlikely(!model)) return;
    u64 i; if (!shidx(a, i)) { nullcheck(a, pc, "write"); return; }
    checklive(a, i, pc, "write"); if (n > 8) checklive(a + n - 1, i + n - 1, pc, "write");
    if (me->norace || !opt->races_) return;
    u32 e = epoch(me); bool fast = true;
    for (u32 k = 0; k < n; k++) fast &= (sw_[i + k] == e) & (sr_[i + k] == 0);
    if (!fast) slow_write(a, i, n, pc, "write");
}
// a synchronisation operation on the object at a: conflicts with unordered plain writes, initialisation, destruction, free
static inline void syncacc(u64 a, u32 pc) {
    u64 i; if (!shidx(a, i)) { nullcheck(a, pc, "synchronisation operation"); return; }
    checklive(a, i, pc, "synchronisation operation"); if (me->norace || !opt->races_) return; slow_read(a, i, 1, pc, true);
}
static inline void syncwr(u64 a, u32 pc, const char* what) {
    u64 i; if (!shidx(a, i)) { nullcheck(a, pc, what); return; }
    checklive(a, i, pc, what); if (me->norace || !opt->races_) return;
    u32 g = objgen[i >> 3]; objgen[i >> 3] = 0; slow_write(a, i, 1, pc, what); objgen[i >> 3] = g;
}

// ------------------------------------------------------------------------------------------ objects
static Obj* findobj(u64 a) {
    for (u32 h = (u32)((a >> 2) * 0x9E3779B1u) & (OT - 1);; h = (h + 1) & (OT - 1)) {
        if (ot[h].gen != gen) return 0; if (ot[h].addr == a) return &objs[ot[h].idx]; }
}
static Obj* newobj(u64 a) {
    u32 h = (u32)((a >> 2) * 0x9E3779B1u) & (OT - 1);
    while (ot[h].gen == gen && ot[h].addr != a) h = (h + 1) & (OT - 1);
    if (nobjs >= MAXOBJ) violate("internal", "too many synchronisation objects");
    Obj* o = (ot[h].gen == gen) ? &objs[ot[h].idx] : &objs[nobjs];
    if (ot[h].gen != gen) { ot[h].gen = gen; ot[h].addr = a; ot[h].idx = nobjs++; }
    memset(o, 0, sizeof *o); o->addr = a; o->owner = -1; vbase(o->vc);
    u64 i; if (shidx(a, i)) objgen[i >> 3] = gen;
    return o;
}
static void dropobj(u64 a8) {   // plain write over an object: it starts a new life
    for (u64 a = a8; a < a8 + 8; a++) { Obj* o = findobj(a); if (o && o->kind != O_GHOST && !(o->kind == O_MUTEX && o->owner >= 0)) { u64 v = o->ver; newobj(a)->kind = O_FREE; findobj(a)->ver = v; } }
}
static inline Obj* atomobj(u64 a) { Obj* o = findobj(a); if (!o) { o = newobj(a); } if (o->kind != O_ATOMIC) { o->kind = O_ATOMIC; } return o; }

static inline void ev_read(Obj* o, u64 what) { me->h = mix(me->h, mix(what, o->addr ^ o->ver)); }
static inline void ev_write(Obj* o, u64 what) { me->h = mix(me->h, mix(what, o->addr ^ o->ver)); o->ver = me->h; }
static inline void ev_local(u64 what) { me->h = mix(me->h, what); }
static inline void rel(Thread* t, Vc& v) { vjoin(v, t->vc); t->vc.c[t->id]++; }

// ------------------------------------------------------------------------------------------ visited states
struct VEnt { u64 key; }; static u64* vtab; static u64 vcap, vcnt;
static void vgrow();
// returns true when the state was already explored with at least `rem` deviations left
static bool nocache;
static bool visit(u64 key, int rem) {
    bool nc = nocache;
    if (rem > 14) rem = 14;
    key &= ~15ull; if (!key) key = 16;
    if (vcnt * 10 > vcap * 7) vgrow();
    for (u64 h = (key * 0x9E3779B97F4A7C15ull) & (vcap - 1);; h = (h + 1) & (vcap - 1)) {
        if (!vtab[h]) { vtab[h] = key | (rem + 1); vcnt++; return false; }
        if ((vtab[h] & ~15ull) == key) { if (nc) return false; if ((int)(vtab[h] & 15) >= rem + 1) return true; vtab[h] = key | (rem + 1); return false; }
    }
}
static void vgrow() {
    u64* o = vtab; u64 oc = vcap; vcap = oc ? oc * 2 : 1 << 14; vtab = (u64*)map(vcap * 8);
    for (u64 i = 0; i < oc; i++) if (o[i]) { u64 h = ((o[i] & ~15ull) * 0x9E3779B97F4A7C15ull) & (vcap - 1); while (vtab[h]) h = (h + 1) & (vcap - 1); vtab[h] = o[i]; }
    if (o) munmap(o, oc * 8);
}

// ------------------------------------------------------------------------------------------ choices
static u64 n_transitions;
static int choose(int n, u64 costs, u32 hash) {      // costs: bit i set when alternative i costs one deviation
    if (n == 1) return 0;
    if (n > 60) violate("internal", "too many alternatives");
    int c;
    if (depth < nstk) {
        Choice& k = stk[depth];
        if (k.n != n || (k.hash && k.hash != hash)) { fprintf(stderr, "DIVERGENCE in %s at %d: %d/%d\n", curscn, depth, k.n, n); model = false; _exit(4); }
        c = k.cur; k.ubefore = used; k.costs = costs; k.hash = hash;
    } else {
        if (nstk >= MAXSTK) violate("internal", "choice stack full");
        Choice& k = stk[nstk++]; k.n = n; k.cur = 0; k.ubefore = used; k.costs = costs; k.hash = hash; c = 0; n_transitions++;
        if (costs & 1) violate("internal", "default alternative has a cost");
    }
    depth++; if (costs >> c & 1) used++;
    return c;
}
static inline i64 clocknow(int clk) { return (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) ? RT_BASE + vt + rtoff : MONO_BASE + vt; }

static bool can_run(Thread& t) {
    switch (t.pk) {
    case P_RUN: return true;
    case P_LOCK: case P_TLOCK: return t.obj->owner < 0 || (t.obj->owner == t.id && t.obj->type != PTHREAD_MUTEX_NORMAL) || t.obj->destroyed;
    case P_JOIN: return T[t.jt].finished;
    case P_SLEEP: return false;
    case P_AWAIT: return ghost[t.obj - ghostobj[0]] >= t.av;
    case P_ONCE: return t.obj->state != 1;
    default: return false;
    }
}
static inline bool expired(Thread& t) { return t.hasdl && clocknow(t.clk) >= t.deadline; }
static bool can_timeout(Thread& t) { return (t.pk == P_TLOCK || t.pk == P_COND || t.pk == P_SLEEP) && expired(t); }

static void switch_to(int t) {
    if (t == cur) return;
    Thread* o = me; u64* g = (u64*)abi::__cxa_get_globals();
    o->eh[0] = g[0]; o->eh[1] = g[1]; o->err = errno;
    cur = t; me = &T[t]; g[0] = me->eh[0]; g[1] = me->eh[1]; errno = me->err;
    vs_switch(&o->sp, me->sp);
}
static void leakcheck();
static void finish(End e) {
    endreason = e; model = false; u64* g = (u64*)abi::__cxa_get_globals(); g[0] = explorer_eh[0]; g[1] = explorer_eh[1];
    void* dummy; vs_switch(&dummy, explorer_sp); abort();
}
static u64 statekey() {
    u64 k = 0; for (int i = 0; i < nT; i++) k += mix(T[i].h, mix(i * 31 + T[i].pk, T[i].finished ? 7 : (T[i].started ? 1 : 0)));
    return mix(k, mix(vt + rtoff * 3, spurleft * 64 + faultleft * 2 + forced));
}

// The running thread has published its pending operation: decide what happens next.  Returns when `me` runs again.
static void schedule() {
    Thread* self = me; self->h = mix(self->h, 0x99);      // no two decision points share a state
    if (++steps > opt->steps_) violate("livelock", "no end after %ld visible operations (virtual time %ld ns)", steps, (long)vt);
    int c = self->finished ? -1 : cur; 
    for (;;) {
        Alt a[64]; int n = 0; bool curen = false;
        if (c >= 0) {
            Thread& t = T[c];
            if (can_run(t)) { a[n++] = Alt{A_RUN, (u8)c, 0}; curen = true; }
            if (can_timeout(t)) { a[n++] = Alt{A_TIMEOUT, (u8)c, 0}; curen = true; }
        }
        int quies = -1;
        for (int i = 0; i < nT; i++) {
            Thread& t = T[i]; if (i == c || t.finished) continue;
            if (t.pk == P_QUIESCE && quies < 0) quies = i;
            if (can_run(t)) a[n++] = Alt{A_RUN, (u8)i, (u8)curen};
            if (can_timeout(t)) a[n++] = Alt{A_TIMEOUT, (u8)i, (u8)curen};
        }
        if (c >= 0 && T[c].pk == P_QUIESCE) quies = quies < 0 || c < quies ? c : quies;
        if (n == 0 && quies >= 0) a[n++] = Alt{A_RUN, (u8)quies, 0};
        int nreal = n;
        i64 next = INT64_MAX;
        for (int i = 0; i < nT; i++) {
            Thread& t = T[i]; if (t.finished || !t.hasdl || expired(t)) continue;
            if (t.pk == P_TLOCK || t.pk == P_COND || t.pk == P_SLEEP) { i64 at = vt + (t.deadline - clocknow(t.clk)); if (at < next) next = at; }
        }
        i64 ntick = next; if (nreal) for (int i = 0; i < nticks; i++) if (ticks[i] > vt && ticks[i] < ntick) ntick = ticks[i];
        bool allq = nreal && quies >= 0 && a[0].tid == quies && T[quies].pk == P_QUIESCE && nreal == 1;
        if (ntick != INT64_MAX && !allq) a[n++] = Alt{A_TICK, 0, (u8)(nreal > 0)};
        if (nreal == 0 && n == 0) {
            bool all = true; for (int i = 0; i < nT; i++) if (!T[i].finished) all = false;
            if (all) { if (opt->leak_) leakcheck(); finish(END_OK); }
            if (T[0].finished && opt->blocked_ok_) finish(END_OK);
            char b[400]; int p = 0; b[0] = 0;
            for (int i = 0; i < nT && p < 350; i++) if (!T[i].finished) { static const char* pk[] = { "?", "mutex", "mutex", "condition", "join", "sleep", "await", "quiesce", "once" };
                p += snprintf(b + p, sizeof b - p, " T%d(%s @%x)", i, pk[T[i].pk], T[i].pc - 1); }
            violate("deadlock", "%s:%s", T[0].finished ? "threads blocked forever at the end" : "no thread can continue", b);
        }
        if (spurleft > 0) for (int i = 0; i < nT && n < 56; i++) if (!T[i].finished && T[i].pk == P_COND) a[n++] = Alt{A_SPUR, (u8)i, 1};
        u64 costs = 0; for (int i = 0; i < n; i++) if (a[i].cost) costs |= 1ull << i;
        if (n > 1) {
            u64 key = statekey(); key = mix(key, curen ? c + 1 : 0);
            if (depth >= nstk && !replaying && visit(key, bound - used)) finish(END_PRUNED);
            int k = choose(n, costs, (u32)key | 1);
            if (k) { Alt t = a[k]; a[0] = t; }
        }
        Alt& x = a[0];
        if (x.kind == A_TICK) { vt = ntick; if (nreal) forced = 1; tr(E_TICK, (u64)vt, 0, 0); c = -1; continue; }
        Thread& t = T[x.tid];
        if (x.kind == A_RUN) { t.hasdl = t.hasdl; t.wake = t.pk == P_TLOCK ? 0 : t.wake; t.pk = P_RUN; switch_to(x.tid); if (me == self) return; continue; }
        int sv = cur; cur = x.tid; tr(x.kind == A_SPUR ? E_SPUR : E_TIMEOUT, t.obj ? t.obj->addr : 0, 0, t.pc); cur = sv;
        if (t.pk == P_COND) {       // leaves the wait set, then needs its mutex
            t.h = mix(t.h, mix(x.kind == A_SPUR ? 0x51 : 0x52, t.obj->ver)); t.obj->ver = t.h;
            if (x.kind == A_SPUR) spurleft--;
            t.wake = x.kind == A_SPUR ? 0 : ETIMEDOUT; t.pk = P_LOCK; t.obj = t.mtx; t.hasdl = false; c = x.tid; continue;
        }
        t.wake = ETIMEDOUT; t.pk = P_RUN; t.hasdl = false; switch_to(x.tid); if (me == self) return;
    }
}
// a scheduling point before an always-enabled operation
static inline void point(u32 pc) { me->pc = pc; me->pk = P_RUN; if (nT > 1) schedule(); }
static inline void block(PK k, Obj* o, u32 pc) { me->pc = pc; me->pk = k; me->obj = o; schedule(); }

#define REAL(ret, name, args) static ret (*real_##name) args; if (unlikely(!real_##name)) real_##name = (ret(*) args)dlsym(RTLD_NEXT, #name)
#define EXPORT extern "C" __attribute__((visibility("default")))

static bool fault(int kind, u32 pc) {
    if (!(faultmask & kind) || faultleft <= 0 || (faulttid >= 0 && me->id != faulttid)) return false;
    int c = choose(2, 2, 0); ev_local(0xFA + c);
    if (c) { faultleft--; faulted = kind; tr(E_FAULT, kind, 0, pc); } return c;
}

// ------------------------------------------------------------------------------------------ mutex
EXPORT int pthread_mutexattr_init(pthread_mutexattr_t* a) throw() { REAL(int, pthread_mutexattr_init, (pthread_mutexattr_t*)); if (model && fault(VSF_MUTEX_INIT, CALLER)) return ENOMEM; if (model) livesync++; return real_pthread_mutexattr_init(a); }
EXPORT int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) throw() { REAL(int, pthread_mutexattr_settype, (pthread_mutexattr_t*, int)); if (model && fault(VSF_MUTEX_INIT, CALLER)) return ENOMEM; return real_pthread_mutexattr_settype(a, t); }
EXPORT int pthread_mutexattr_destroy(pthread_mutexattr_t* a) throw() { REAL(int, pthread_mutexattr_destroy, (pthread_mutexattr_t*)); if (model) livesync--; return real_pthread_mutexattr_destroy(a); }
EXPORT int pthread_condattr_init(pthread_condattr_t* a) throw() { REAL(int, pthread_condattr_init, (pthread_condattr_t*)); if (model && fault(VSF_COND_INIT, CALLER)) return ENOMEM; if (model) livesync++; return real_pthread_condattr_init(a); }
EXPORT int pthread_condattr_destroy(pthread_condattr_t* a) throw() { REAL(int, pthread_condattr_destroy, (pthread_condattr_t*)); if (model) livesync--; return real_pthread_condattr_destroy(a); }
EXPORT int vs_faulted(void) { ev_local(0x69 + faulted); return faulted; }
EXPORT long vs_live_sync(void) { return livesync; }
static Obj* mtx(void* m, u32 pc) {
    syncacc((u64)m, pc); Obj* o = findobj((u64)m);
    if (!o || o->kind == O_FREE) { u64 v = o ? o->ver : 0; o = newobj((u64)m); o->ver = v; o->kind = O_MUTEX; o->type = ((pthread_mutex_t*)m)->__data.__kind & 3; }
    if (o->destroyed) violate("destroyed-object", "mutex used after pthread_mutex_destroy, @%x", pc - 1);
    return o;
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) throw() {
    if (!model) { REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*)); return real_pthread_mutex_init(m, a); }
    u32 pc = CALLER;
    if (fault(VSF_MUTEX_INIT, pc)) return ENOMEM;
    int type = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &type);
    Obj* p = findobj((u64)m); u64 v = p ? p->ver : 0;
    if (p && p->kind == O_MUTEX && p->owner >= 0) violate("destroyed-object", "pthread_mutex_init on a locked mutex @%x", pc - 1);
    syncwr((u64)m, pc, "mutex initialisation");
    if (!(p && p->ini && !p->destroyed)) livesync++;
    Obj* o = newobj((u64)m); o->ver = v; o->kind = O_MUTEX; o->type = type; o->ini = true; ev_write(o, 1); tr(E_MINIT, (u64)m, type, pc); memset(m, 0, sizeof *m); m->__data.__kind = type; return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) throw() {
    if (!model) return 0;
    u32 pc = CALLER; if (fault(VSF_EINTR2, pc)) return EINTR; Obj* o = mtx(m, pc); tr(E_MDESTROY, (u64)m, 0, pc);
    if (o->owner >= 0) violate("destroyed-object", "mutex destroyed while locked by T%d, @%x", o->owner, pc - 1);
    for (int i = 0; i < nT; i++) if (!T[i].finished && ((T[i].pk == P_LOCK || T[i].pk == P_TLOCK) ? T[i].obj == o : T[i].pk == P_COND && T[i].mtx == o))
        violate("destroyed-object", "mutex destroyed while T%d waits for it, @%x", i, pc - 1);
    syncwr((u64)m, pc, "mutex destruction"); ev_write(o, 2); o->destroyed = true; if (o->ini) livesync--; return 0;
}
static void acquire(Obj* o, u32 pc, int op) {
    if (o->destroyed) violate("destroyed-object", "mutex locked after pthread_mutex_destroy, @%x", pc - 1);
    o->owner = cur; o->count++; me->spins = 0; vjoin(me->vc, o->vc); ev_write(o, 3); tr(op, o->addr, o->count, pc);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) throw() {
    if (!model) return 0;
    u32 pc = CALLER; if (fault(VSF_EINTR2, pc)) return EINTR; Obj* o = mtx(m, pc);
    if (o->owner == cur && o->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    block(P_LOCK, o, pc); syncacc((u64)m, pc); acquire(o, pc, E_LOCK); return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) throw() {
    if (!model) return 0;
    u32 pc = CALLER; if (!unlock_points) { unlock_points = true; finish(END_RESTART); }
    if (fault(VSF_EINTR2, pc)) return EINTR;
    point(pc); Obj* o = mtx(m, pc);
    if (o->owner >= 0 && !(o->owner == cur && o->type == PTHREAD_MUTEX_RECURSIVE)) { ev_read(o, 4); tr(E_TRYLOCK, (u64)m, 0, pc); return EBUSY; }
    acquire(o, pc, E_TRYLOCK); return 0;
}
static i64 tsns(const struct timespec* t) {
    if (t->tv_sec > 9000000000ll) return INT64_MAX / 2; if (t->tv_sec < -9000000000ll) return INT64_MIN / 2; return (i64)t->tv_sec * 1000000000ll + t->tv_nsec; }
static int tlock(pthread_mutex_t* m, int clk, const struct timespec* ts, u32 pc) {
    if (!unlock_points) { unlock_points = true; finish(END_RESTART); }
    Obj* o = mtx(m, pc); if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
    if (o->owner == cur && o->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    me->clk = clk; me->deadline = tsns(ts); point(pc); syncacc((u64)m, pc);
    if (o->owner < 0 || (o->owner == cur && o->type == PTHREAD_MUTEX_RECURSIVE)) { acquire(o, pc, E_TIMEDLOCK); return 0; }   // obtained at once, whatever the deadline
    ev_read(o, 8); me->hasdl = true; block(P_TLOCK, o, pc); me->hasdl = false; syncacc((u64)m, pc);
    if (me->wake == ETIMEDOUT) { me->wake = 0; ev_read(o, 5); return ETIMEDOUT; }
    acquire(o, pc, E_TIMEDLOCK); return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) throw() { return model ? tlock(m, CLOCK_REALTIME, ts, CALLER) : 0; }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) throw() { return model ? tlock(m, c, ts, CALLER) : 0; }
static int unlock(Obj* o, u32 pc) {
    if (o->owner != cur) { if (o->type == PTHREAD_MUTEX_NORMAL) violate("bad-unlock", "mutex unlocked by T%d, owner is %d, @%x", cur, o->owner, pc - 1); return EPERM; }
    if (--o->count == 0) { o->owner = -1; ev_write(o, 6); rel(me, o->vc); } else ev_write(o, 7);
    return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) throw() {
    if (!model) return 0;
    u32 pc = CALLER; if (fault(VSF_EINTR2, pc)) return EINTR; if (unlock_points) point(pc); Obj* o = mtx(m, pc); tr(E_UNLOCK, (u64)m, 0, pc); return unlock(o, pc);
}

// ------------------------------------------------------------------------------------------ condition variables
static Obj* cnd(void* c, u32 pc) {
    syncacc((u64)c, pc); Obj* o = findobj((u64)c);
    if (!o || o->kind == O_FREE) { u64 v = o ? o->ver : 0; o = newobj((u64)c); o->ver = v; o->kind = O_COND; o->clk = (((u32*)c)[9] & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME; }
    if (o->destroyed) violate("destroyed-object", "condition variable used after pthread_cond_destroy, @%x", pc - 1);
    return o;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) throw() {
    if (!model) { REAL(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*)); return real_pthread_cond_init(c, a); }
    u32 pc = CALLER; if (fault(VSF_COND_INIT, pc)) return ENOMEM;
    clockid_t clk = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &clk);
    Obj* p = findobj((u64)c); u64 v = p ? p->ver : 0; syncwr((u64)c, pc, "condition variable initialisation");
    if (!(p && p->ini && !p->destroyed)) livesync++;
    Obj* o = newobj((u64)c); o->ver = v; o->kind = O_COND; o->clk = clk; o->ini = true; ev_write(o, 10); tr(E_CINIT, (u64)c, 0, pc); memset(c, 0, sizeof *c); return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) throw() {
    if (!model) return 0;
    u32 pc = CALLER; if (fault(VSF_EINTR2, pc)) return EINTR; Obj* o = cnd(c, pc); tr(E_CDESTROY, (u64)c, 0, pc);
    for (int i = 0; i < nT; i++) if (!T[i].finished && T[i].pk == P_COND && T[i].obj == o) violate("destroyed-object", "condition variable destroyed while T%d waits on it, @%x", i, pc - 1);
    syncwr((u64)c, pc, "condition variable destruction"); ev_write(o, 11); o->destroyed = true; if (o->ini) livesync--; return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int clk, const struct timespec* ts, u32 pc) {
    point(pc);
    Obj* o = cnd(c, pc); Obj* mo = mtx(m, pc); if (clk < 0) clk = o->clk;
    if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return EINVAL;
    if (mo->owner != cur) violate("bad-wait", "condition wait without owning the mutex, @%x", pc - 1);
    if (mo->count != 1) violate("bad-wait", "condition wait with recursively locked mutex, @%x", pc - 1);
    for (int i = 0; i < nT; i++) if (i != cur && T[i].pk == P_COND && T[i].obj == o && T[i].mtx != mo) violate("bad-wait", "condition wait with two different mutexes, @%x", pc - 1);
    if (fault(VSF_EINTR2, pc)) return EINTR;
    tr(ts ? E_TWAIT : E_WAIT, (u64)c, 0, pc); ev_write(o, 12); unlock(mo, pc);
    me->mtx = mo; me->wake = 0; me->hasdl = ts != 0; if (ts) { me->clk = clk; me->deadline = tsns(ts); }
    block(P_COND, o, pc); me->hasdl = false; int w = me->wake; me->wake = 0;
    syncacc((u64)m, pc); acquire(mo, pc, E_WOKEN); ev_local(w); return w;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!model) abort(); return cwait(c, m, -1, 0, CALLER); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!model) abort(); return cwait(c, m, -1, t, CALLER); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (!model) abort(); return cwait(c, m, k, t, CALLER); }
static void wake1(int i, Obj*) { Thread& t = T[i]; t.h = mix(t.h, me->h); t.pk = P_LOCK; t.obj = t.mtx; t.hasdl = false; t.wake = 0; }
EXPORT int pthread_cond_signal(pthread_cond_t* c) throw() {
    if (!model) return 0;
    u32 pc = CALLER; point(pc); Obj* o = cnd(c, pc); int w[MAXT], n = 0;
    for (int i = 0; i < nT; i++) if (T[i].pk == P_COND && T[i].obj == o) w[n++] = i;
    int k = n > 1 ? choose(n, 0, 0) : 0; ev_write(o, 13 + 16 * k); tr(E_SIGNAL, (u64)c, n ? w[k] : -1, pc); if (n) wake1(w[k], o); return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) throw() {
    if (!model) return 0;
    u32 pc = CALLER; point(pc); Obj* o = cnd(c, pc); ev_write(o, 14); int n = 0;
    for (int i = 0; i < nT; i++) if (T[i].pk == P_COND && T[i].obj == o) { wake1(i, o); n++; }
    tr(E_BCAST, (u64)c, n, pc); return 0;
}

// ------------------------------------------------------------------------------------------ threads
static void thread_exit_tail() {
    for (int it = 0; it < 4; it++) { bool any = false;
        for (int k = 0; k < MAXKEY; k++) if (me->tsd[k] && keyused[k]) { void* v = me->tsd[k]; me->tsd[k] = 0; if (keydtor[k]) { any = true; keydtor[k](v); } }
        if (!any) break; }
    tr(E_EXIT, 0, 0, 0); ev_local(0xE0); me->finished = true; me->pk = P_DONE; me->vc.c[cur]++; schedule(); abort();
}
static void fiber_main() noexcept { me->started = true; tr(E_START, 0, 0, 0); me->ret = me->fn(me->arg); thread_exit_tail(); }
extern "C" void vs_fiber_entry() { fiber_main(); abort(); }
static void* scn_main(void*) { for (int i = 0; i < nscn; i++) if (!strcmp(scns[i].name, curscn)) scns[i].fn(); return 0; }
static int mkthread(void* (*fn)(void*), void* arg, bool detached) {
    if (nT >= MAXT) violate("internal", "too many threads");
    int i = nT++; Thread& t = T[i]; memset(&t, 0, sizeof t); t.id = i; t.used = true; t.detached = detached; t.fn = fn; t.arg = arg; t.pk = P_RUN;
    u64 base = ARENA + i * SLOT; t.bump = base + 64; u64 top = base + SLOT;
    memset((void*)(top - 12288), 0xA5, 12288);
    u64* sp = (u64*)(top - 64); *--sp = 0; *--sp = (u64)&vs_fiber_entry; for (int k = 0; k < 6; k++) *--sp = 0; t.sp = sp;
    vbase(t.vc); vbase(t.acqf);
    if (me && i) { t.vc = me->vc; me->vc.c[cur]++; t.h = mix(me->h, 0x1234 + i); ev_local(0xC0 + i); } else t.h = 42;
    t.vc.c[i] = (t.vc.c[i] > baseclk ? t.vc.c[i] : baseclk) + 1;
    if (nT > maxthreads) maxthreads = nT;
    return i;
}
static const u64 TIDBASE = 0x710000;
static Thread& th(pthread_t p, const char* what, u32 pc) {
    u64 i = ((u64)p - TIDBASE) / 16; if ((u64)p < TIDBASE || i >= (u64)nT) violate("bad-thread-handle", "%s of an invalid pthread_t, @%x", what, pc - 1); return T[i]; }
EXPORT int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) throw() {
    if (!model) abort();
    u32 pc = CALLER; point(pc); if (fault(VSF_CREATE, pc)) return EAGAIN;
    int ds = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &ds);
    int i = mkthread(fn, arg, ds == PTHREAD_CREATE_DETACHED); *p = TIDBASE + 16 * i; tr(E_CREATE, 0, i, pc); return 0;
}
EXPORT pthread_t pthread_self() throw() { if (!model) { REAL(pthread_t, pthread_self, ()); return real_pthread_self(); } return TIDBASE + 16 * cur; }
EXPORT int pthread_join(pthread_t p, void** r) {
    if (!model) abort();
    u32 pc = CALLER; Thread& t = th(p, "join", pc);
    if (t.joined || t.detached) violate("bad-thread-handle", "pthread_join of a joined or detached thread, @%x", pc - 1);
    if (&t == me) return EDEADLK;
    me->jt = t.id; block(P_JOIN, 0, pc);
    if (t.joined || t.detached) violate("bad-thread-handle", "pthread_join of a joined or detached thread, @%x", pc - 1);
    t.joined = true; vjoin(me->vc, t.vc); ev_local(mix(0x30, t.h)); tr(E_JOIN, 0, t.id, pc); if (r) *r = t.ret; return 0;
}
EXPORT int pthread_detach(pthread_t p) throw() {
    if (!model) return 0;
    u32 pc = CALLER; Thread& t = th(p, "detach", pc); if (t.joined || t.detached) violate("bad-thread-handle", "pthread_detach of a joined or detached thread, @%x", pc - 1);
    t.detached = true; ev_local(0x31); tr(E_DETACH, 0, t.id, pc); return 0;
}
EXPORT void pthread_exit(void* r) { if (!model) abort(); me->ret = r; thread_exit_tail(); abort(); }
EXPORT int pthread_setname_np(pthread_t, const char*) throw() { return 0; }

// ------------------------------------------------------------------------------------------ TSD, once
EXPORT int pthread_key_create(pthread_key_t* k, void (*d)(void*)) throw() {
    if (model && fault(VSF_KEY, CALLER)) return EAGAIN;
    for (int i = 0; i < MAXKEY; i++) if (!keyused[i]) { keyused[i] = true; keydtor[i] = d; *k = i; if (model) { tr(E_KEY, i, 0, CALLER); ev_local(0x40 + i); for (int t = 0; t < nT; t++) T[t].tsd[i] = 0; } return 0; }
    return EAGAIN;
}
EXPORT int pthread_key_delete(pthread_key_t k) throw() { if (k < MAXKEY) keyused[k] = false; return 0; }
static void* basetsd[MAXKEY];
EXPORT void* pthread_getspecific(pthread_key_t k) throw() { if (k >= MAXKEY || !keyused[k]) { if (model) violate("bad-key", "pthread_getspecific of an invalid key @%x", CALLER - 1); return 0; } return model ? me->tsd[k] : basetsd[k]; }
EXPORT int pthread_setspecific(pthread_key_t k, const void* v) throw() { if (k >= MAXKEY || !keyused[k]) { if (model) violate("bad-key", "pthread_setspecific of an invalid key @%x", CALLER - 1); return EINVAL; } (model ? me->tsd : basetsd)[k] = (void*)v; return 0; }
EXPORT int pthread_once(pthread_once_t* oc, void (*fn)()) {
    if (!model) { if (!*(int*)oc) { fn(); *(int*)oc = 1; } return 0; }
    u32 pc = CALLER; syncacc((u64)oc, pc); Obj* o = findobj((u64)oc);
    if (!o || o->kind != O_ONCE) { o = newobj((u64)oc); o->kind = O_ONCE; o->state = *(int*)oc ? 2 : 0; }
    block(P_ONCE, o, pc);
    if (o->state == 2) { vjoin(me->vc, o->vc); ev_read(o, 20); tr(E_ONCE, (u64)oc, 0, pc); return 0; }
    o->state = 1; ev_write(o, 21); tr(E_ONCE, (u64)oc, 1, pc); vjoin(me->vc, o->vc);
    try { fn(); } catch (...) { o->state = 0; ev_write(o, 23); rel(me, o->vc); throw; }
    o->state = 2; *(int*)oc = 1; ev_write(o, 22); tr(E_ONCEDONE, (u64)oc, 0, pc); rel(me, o->vc); return 0;
}
EXPORT int __cxa_guard_acquire(u64* g) {
    if (*(u8*)g) { if (model) { Obj* o = findobj((u64)g); if (o) vjoin(me->vc, o->vc); } return 0; }
    if (!model) return 1;
    u32 pc = CALLER; Obj* o = findobj((u64)g); if (!o) { o = newobj((u64)g); } if (o->kind != O_ONCE) { o->kind = O_ONCE; o->state = 0; }
    block(P_ONCE, o, pc); vjoin(me->vc, o->vc);
    if (o->state == 2) { ev_read(o, 24); return 0; }
    o->state = 1; ev_write(o, 25); tr(E_GUARD, (u64)g, 0, pc); return 1;
}
EXPORT void __cxa_guard_release(u64* g) { *(u8*)g = 1; if (!model) return; Obj* o = findobj((u64)g); if (!o) return; o->kind = O_ONCE; o->state = 2; ev_write(o, 26); rel(me, o->vc); }
EXPORT void __cxa_guard_abort(u64* g) { if (!model) return; Obj* o = findobj((u64)g); o->state = 0; ev_write(o, 27); rel(me, o->vc); }
EXPORT int __cxa_atexit(void (*f)(void*), void* a, void* d) { if (model) return 0; REAL(int, __cxa_atexit, (void (*)(void*), void*, void*)); (void)f; (void)a; (void)d; return 0; }

// ------------------------------------------------------------------------------------------ time
static void jumpclock(i64 ns, u32 pc) { rtoff += ns; jumpat = vt; jumpby = ns; ev_local(mix(0x66, rtoff)); tr(E_TICK, rtoff, 2, pc); }
EXPORT int clock_gettime(clockid_t c, struct timespec* t) throw() {
    if (!model) { REAL(int, clock_gettime, (clockid_t, struct timespec*)); return real_clock_gettime(c, t); }
    u32 pc = CALLER; if (fault(VSF_JUMP, pc)) { static const i64 by[4] = { 230, -230, 870, -870 }; jumpclock(by[choose(4, 0, 0)] * 1000000, pc); }
    i64 n = clocknow(c); ev_local(mix(0x60, n)); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0;
}
EXPORT int gettimeofday(struct timeval* t, void* z) throw() { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); (void)z; t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t* p) throw() { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
static void sleepuntil(int clk, i64 at, int op, u32 pc) {
    tr(op, at, 0, pc); me->clk = clk; me->deadline = at; me->hasdl = true;
    if (clocknow(clk) >= at) { me->hasdl = false; point(pc); ev_local(0x61); return; }
    block(P_SLEEP, 0, pc); me->hasdl = false; me->wake = 0; ev_local(mix(0x62, vt));
}
EXPORT int nanosleep(const struct timespec* t, struct timespec* rem) {
    if (!model) { REAL(int, nanosleep, (const struct timespec*, struct timespec*)); return real_nanosleep(t, rem); }
    u32 pc = CALLER; if (t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0) { errno = EINVAL; return -1; }
    i64 d = tsns(t); i64 at = d > (1ll << 61) ? INT64_MAX / 2 : clocknow(CLOCK_MONOTONIC) + d;
    if (d > 1 && fault(VSF_EINTR, pc)) { i64 h = d / 2; sleepuntil(CLOCK_MONOTONIC, at - h, E_SLEEP, pc); if (rem) { rem->tv_sec = h / 1000000000; rem->tv_nsec = h % 1000000000; } errno = EINTR; return -1; }
    sleepuntil(CLOCK_MONOTONIC, at, E_SLEEP, pc); return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec*) {
    if (!model) return 0;
    sleepuntil(c, (fl & TIMER_ABSTIME) ? tsns(t) : clocknow(c) + tsns(t), E_SLEEP, CALLER); return 0; }
EXPORT int usleep(unsigned us) { if (!model) return 0; sleepuntil(CLOCK_MONOTONIC, clocknow(CLOCK_MONOTONIC) + us * 1000ll, E_SLEEP, CALLER); return 0; }
EXPORT unsigned sleep(unsigned s) { if (!model) return 0; sleepuntil(CLOCK_MONOTONIC, clocknow(CLOCK_MONOTONIC) + s * 1000000000ll, E_SLEEP, CALLER); return 0; }
static void doyield(u32 pc) {
    if (nT == 1) return;
    int k = me->yields < 20 ? me->yields : 20; me->yields++;
    sleepuntil(CLOCK_MONOTONIC, clocknow(CLOCK_MONOTONIC) + (1000ll << k), E_YIELD, pc);
}
EXPORT int sched_yield() throw() { if (!model) return 0; doyield(CALLER); return 0; }
EXPORT long sysconf(int n) throw() {
    if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return ncpu;
    REAL(long, sysconf, (int)); return real_sysconf(n); }
EXPORT int pthread_setcancelstate(int, int* o) { if (o) *o = 0; return 0; }
EXPORT void pthread_testcancel() {}
EXPORT int pthread_atfork(void (*)(), void (*)(), void (*)()) throw() { return 0; }

// ------------------------------------------------------------------------------------------ heap
struct Hdr { u32 size, pc, state, mark; };      // state 1 live, 2 freed; precedes each block
static void* marena(size_t n, size_t al, u32 pc) {
    if (n > (4u << 20)) { errno = ENOMEM; return 0; }
    if (fault(VSF_MALLOC, pc)) { errno = ENOMEM; return 0; }
    u64 b = me->bump, p = b + 16;
    if (al > 16) { p = (p + al - 1) & ~(u64)(al - 1); if (p - 16 != b) { Hdr* f = (Hdr*)b; f->size = (u32)(p - 32 - b); f->pc = 0; f->state = 3; f->mark = 0; } }
    size_t r = (n + 15) & ~(size_t)15; if (!r) r = 16;
    if (p + r + 64 > ARENA + me->id * SLOT + HEAPSZ) violate("internal", "model heap exhausted");
    Hdr* h = (Hdr*)(p - 16); h->size = (u32)r; h->pc = pc; h->state = 1; h->mark = 0; me->bump = p + r;
    u32 g0 = (u32)((p - ARENA) >> 4); u32 v = gen << 2 | 1; for (u32 k = 0; k < r / 16; k++) gstate[g0 + k] = v; gstate[g0 - 1] = gen << 2 | 3;
    memset((void*)p, 0xCD, r < 65536 ? r : 65536);
    // fresh memory: forget what an earlier execution left (old epochs are ordered anyway); the allocation is a write
    return (void*)p;
}
static inline bool inarena(void* p) { return (u64)p - ARENA < ARENASZ; }
static void mfree(void* p, u32 pc) {
    if (!p) return;
    if (!inarena(p)) return;            // allocated before the exploration started: never released
    u64 i = (u64)p - ARENA; u32 s = gstate[i >> 4]; Hdr* h = (Hdr*)((u64)p - 16);
    if ((s >> 2) == gen && (s & 3) == 2) violate("double-free", "block freed twice @%x", pc - 1);
    if ((s >> 2) != gen || (s & 3) != 1 || h->state != 1) violate("bad-free", "free of a pointer that was not allocated @%x", pc - 1);
    if (opt->races_ && !me->norace) slow_write((u64)p, i, h->size, pc, "free");
    h->state = 2; u32 v = gen << 2 | 2; for (u32 k = 0; k < h->size / 16; k++) gstate[(i >> 4) + k] = v;
    memset(p, 0xDD, h->size < 65536 ? h->size : 65536);
}
EXPORT void* malloc(size_t n) { return model ? marena(n, 16, CALLER) : __libc_malloc(n); }
EXPORT void free(void* p) { if (model) { mfree(p, CALLER); return; } if (p && !inarena(p)) __libc_free(p); }
EXPORT void* calloc(size_t a, size_t b) { if (!model) return __libc_calloc(a, b); void* p = marena(a * b, 16, CALLER); if (p) memset(p, 0, a * b); return p; }
EXPORT void* realloc(void* p, size_t n) {
    if (!model) return __libc_realloc(p, n);
    void* q = marena(n, 16, CALLER); if (q && p) { size_t o = inarena(p) ? ((Hdr*)((u64)p - 16))->size : n; memcpy(q, p, o < n ? o : n); mfree(p, CALLER); } return q; }
EXPORT int posix_memalign(void** r, size_t al, size_t n) throw() { void* p = model ? marena(n, al, CALLER) : __libc_memalign(al, n); *r = p; return p ? 0 : ENOMEM; }
EXPORT void* aligned_alloc(size_t al, size_t n) throw() { return model ? marena(n, al, CALLER) : __libc_memalign(al, n); }
EXPORT void* memalign(size_t al, size_t n) throw() { return model ? marena(n, al, CALLER) : __libc_memalign(al, n); }
template <class F> static void blocks(F f) {
    for (int t = 0; t < nT; t++) { u64 b = ARENA + t * SLOT + 64; while (b < T[t].bump) { Hdr* h = (Hdr*)b; f(h, b + 16); b += 16 + h->size; } }
}
static u64* wl;
static void leakcheck() {
    if (!wl) wl = (u64*)map(8 << 20); u64 nw = 0; u64 cap = (8 << 20) / 8;
    auto scan = [&](u64 lo, u64 hi) { for (u64 a = (lo + 7) & ~7ull; a + 8 <= hi; a += 8) { u64 v = *(u64*)a; u64 i = v - ARENA; if (i >= ARENASZ || i % SLOT >= HEAPSZ) continue;
        u32 g = gstate[i >> 4]; if ((g >> 2) != gen || (g & 3) != 1) continue;
        u64 q = i >> 4; while ((gstate[q - 1] >> 2) == gen && (gstate[q - 1] & 3) == 1) q--;
        Hdr* h = (Hdr*)(ARENA + (q << 4) - 16); if (!h->mark && nw < cap) { h->mark = 1; wl[nw++] = ARENA + (q << 4); } } };
    scan((u64)datalo, (u64)datahi); for (int k = 0; k < MAXKEY; k++) (void)k;
    while (nw) { u64 p = wl[--nw]; scan(p, p + ((Hdr*)(p - 16))->size); }
    u64 n = 0; u32 pc = 0, size = 0; blocks([&](Hdr* h, u64) { if (h->state == 1 && !h->mark) { n++; if (!pc) { pc = h->pc; size = h->size; } } });
    if (n) { violate("leak", "%lu heap block(s) lost at the end; first: %u bytes allocated @%x", (long)n, size, pc - 1); }
    for (int i = 1; i < nT; i++) if (!T[i].joined && !T[i].detached) violate("leak", "thread T%d neither joined nor detached", i);
}
EXPORT size_t vs_live_blocks(void) { size_t n = 0; blocks([&](Hdr* h, u64) { if (h->state == 1) n++; }); return n; }
EXPORT size_t vs_live_bytes(void) { size_t n = 0; blocks([&](Hdr* h, u64) { if (h->state == 1) n += h->size; }); return n; }

// ------------------------------------------------------------------------------------------ process-level
EXPORT void abort() noexcept {
    if (model) { if (me->expterm) finish(END_TERM); violate("abort", "abort() called"); }
    signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(2);
}
static void onterminate() {
    if (model) {
        if (me->expterm) finish(END_TERM);
        const char* n = "no exception"; if (std::type_info* t = abi::__cxa_current_exception_type()) n = t->name();
        violate("terminate", "std::terminate called (%s)", n);
    }
    fprintf(stderr, "terminate outside the model\n"); _exit(2);
}
extern "C" __attribute__((visibility("default"))) void __assert_fail(const char* e, const char* f, unsigned l, const char*) throw() { violate("assert", "assertion failed: %s (%s:%u)", e, f, l); }
static void onsegv(int s, siginfo_t* si, void* uc) {
    u64 pc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (model) violate("crash", "signal %d at address %p @%lx", s, si->si_addr, (long)pc);
    fprintf(stderr, "crash outside the model: signal %d addr %p pc %lx\n", s, si->si_addr, (long)pc); _exit(2);
}

// ------------------------------------------------------------------------------------------ harness API
static Obj* gob(int s) { if (!ghostobj[s]) violate("internal", "ghost"); return ghostobj[s]; }
EXPORT int vs_choose(int n) { int c = choose(n, 0, 0); ev_local(mix(0x70, c)); tr(E_CHOOSE, n, c, CALLER); return c; }
EXPORT int vs_deviate(int n) { int c = choose(n, ~1ull, 0); ev_local(mix(0x70, c)); tr(E_CHOOSE, n, c, CALLER); return c; }
EXPORT void vs_point(void) { tr(E_POINT, 0, 0, CALLER); point(CALLER); }
EXPORT void vs_fail(const char* fmt, ...) { char b[1500]; va_list ap; va_start(ap, fmt); bool m = model; model = false; vsnprintf(b, sizeof b, fmt, ap); model = m; va_end(ap); violate("property", "%s", b); }
EXPORT void vs_cut(void) { finish(END_CUT); }
EXPORT long vs_get(int s) { ev_read(gob(s), 30); return ghost[s]; }
EXPORT void vs_set(int s, long v) { ev_write(gob(s), mix(31, v)); ghost[s] = v; tr(E_GHOST, s, (short)v, CALLER); }
EXPORT long vs_add(int s, long d) { ev_write(gob(s), mix(32, d)); ghost[s] += d; tr(E_GHOST, s, (short)ghost[s], CALLER); return ghost[s]; }
EXPORT void vs_await(int s, long v) { me->av = v; me->pc = CALLER; block(P_AWAIT, gob(s), CALLER); ev_read(gob(s), 33); }
EXPORT void vs_quiesce(void) { block(P_QUIESCE, 0, CALLER); u64 k = 0; for (int i = 0; i < nT; i++) k += mix(T[i].h, i); ev_local(k); tr(E_QUIESCE, 0, 0, CALLER); }
EXPORT int vs_blocked(int t) { Thread& x = T[t]; int b = !x.finished && !can_run(x) && !can_timeout(x); u64 k = 0; for (int i = 0; i < nT; i++) k += mix(T[i].h, i); ev_local(k); return b; }
EXPORT int vs_self(void) { return cur; }
EXPORT long vs_now(void) { ev_local(mix(0x63, vt)); return vt; }
EXPORT int vs_forced_tick(void) { ev_local(0x67 + forced); return forced; }
EXPORT void vs_tick_at(long ns) { if (nticks < 16) ticks[nticks++] = ns; ev_local(mix(0x64, ns)); }
EXPORT void vs_advance(long ns) { vt += ns; ev_local(mix(0x65, vt)); tr(E_TICK, vt, 1, CALLER); }
EXPORT void vs_jump_realtime(long ns) { jumpclock(ns, CALLER); }
EXPORT long vs_jumped(long* at) { *at = jumpat; ev_local(mix(0x68, jumpat)); return jumpby; }
EXPORT void vs_outcome(const char* fmt, ...) { va_list ap; va_start(ap, fmt); bool m = model; model = false;
    if (outcomelen < (int)sizeof outcome - 200) { if (outcomelen) outcome[outcomelen++] = ' '; outcomelen += vsnprintf(outcome + outcomelen, 190, fmt, ap); } model = m; va_end(ap); }
EXPORT void vs_note(const char* fmt, ...) { if (nnotes > (int)sizeof notes - 300) return; va_list ap; va_start(ap, fmt); bool m = model; model = false; int o = nnotes; int k = vsnprintf(notes + nnotes, 250, fmt, ap); nnotes += (k > 249 ? 249 : k) + 1; model = m; va_end(ap); tr(E_NOTE, o, 0, 0); }
EXPORT void vs_expect_terminate(int on) { me->expterm = on; }
EXPORT void vs_fault_window(unsigned m) { faultmask = m; faulttid = -1; }
EXPORT void vs_fault_window_me(unsigned m) { faultmask = m; faulttid = me->id; }
struct SpawnArg { void (*fn)(void*); void* arg; };
static void* spawntramp(void* p) { SpawnArg a = *(SpawnArg*)p; free(p); a.fn(a.arg); return 0; }
EXPORT int vs_pthread_spawn(void (*fn)(void*), void* arg) { unsigned m = faultmask; faultmask = 0; SpawnArg* a = (SpawnArg*)malloc(sizeof *a); faultmask = m; a->fn = fn; a->arg = arg; int i = mkthread(spawntramp, a, false); tr(E_CREATE, 0, i, CALLER); return i; }
EXPORT void vs_pthread_join(int t) { pthread_join(TIDBASE + 16 * t, 0); }
EXPORT int vs_thorough(void) { return thorough; }
EXPORT int vs_nthreads_alive(void) { int n = 0; for (int i = 0; i < nT; i++) if (!T[i].finished) n++; u64 k = 0; for (int i = 0; i < nT; i++) k += mix(T[i].h, i); ev_local(k); return n; }
EXPORT void vs_race_ignore_begin(void) { me->norace = true; }
EXPORT void vs_race_ignore_end(void) { me->norace = false; }
EXPORT void vs_spurious(int on) { spurleft = on; }
EXPORT void vs_set_ncpu(int n) { ncpu = n; }
EXPORT void vs_register(const char* name, void (*fn)(), const void* o) { if (nscn < 512) { Scn& s = scns[nscn++]; snprintf(s.name, sizeof s.name, "%s", name); s.fn = fn; s.o = *(const vs_opt*)o; } }
EXPORT void vs_register_data(void* lo, void* hi) { datalo = (u8*)lo; datahi = (u8*)hi; }
// ------------------------------------------------------------------------------------------ atomics
static Obj* apre(u64 a, u32 pc, bool ref) {
    if ((opt->atomics == 2 || (opt->atomics == 1 && !ref)) && nT > 1) {
        Obj* o = findobj(a);
        if (o && me->lastaddr == a && me->lastver == o->ver) { if (++me->spins > 12) doyield(pc); } else me->spins = 0;
        point(pc);
    }
    syncacc(a, pc); return atomobj(a);
}
static inline void apost(Obj* o) { me->lastaddr = o->addr; me->lastver = o->ver; }
static inline void a_acq(Obj* o, int mo) { if (mo == 1 || mo == 2 || mo >= 4) vjoin(me->vc, o->vc); else vjoin(me->acqf, o->vc); }
static inline void a_rel(Obj* o, int mo, bool rmw) {
    if (mo >= 3) { if (!rmw) o->vc = me->vc; else vjoin(o->vc, me->vc); me->vc.c[cur]++; }
    else { if (!rmw) vbase(o->vc); if (me->hasrel) vjoin(o->vc, me->relf); }
}
template <class V> static inline bool badaddr(u64 a) { return (a & (sizeof(V) - 1)) != 0; }
template <class V> static V a_load(volatile V* p, int mo, u32 pc) {
    if (!model) return *p;
    Obj* o = apre((u64)p, pc, false); a_acq(o, mo); ev_read(o, 40); V v = *p; tr(E_LOAD, (u64)p, (short)v, pc); apost(o); return v; }
template <class V> static void a_store(volatile V* p, V v, int mo, u32 pc) {
    if (!model) { *p = v; return; }
    Obj* o = apre((u64)p, pc, false); a_rel(o, mo, false); ev_write(o, mix(41, v)); *p = v; tr(E_STORE, (u64)p, (short)v, pc); apost(o); }
template <class V, class F> static V a_rmw(volatile V* p, V v, int mo, u32 pc, F f, bool addsub) {
    if (!model) { V o = *p; *p = f(o, v); return o; }
    bool ref = addsub && sizeof(V) == 4;
    Obj* o = apre((u64)p, pc, ref); V old = *p, nw = f(old, v);
    a_acq(o, mo);
    if (nw == old && !addsub) { ev_read(o, 42); if (mo >= 3) a_rel(o, mo, true); }
    else {
        a_rel(o, mo, true);
        if (ref && opt->atomics < 2) { me->h = mix(me->h, mix(43 + (mo > 0 && nw == 0), (u64)p)); o->ver += mix(me->h, 1); }
        else ev_write(o, mix(43, v));
    }
    *p = nw; tr(E_RMW, (u64)p, (short)nw, pc); apost(o); return old;
}
template <class V> static bool a_cas(volatile V* p, V* c, V v, int mo, int fmo, u32 pc) {
    if (!model) { if (*p == *c) { *p = v; return true; } *c = *p; return false; }
    Obj* o = apre((u64)p, pc, false); V old = *p;
    if (old == *c) { a_acq(o, mo); a_rel(o, mo, true); ev_write(o, mix(44, v)); *p = v; tr(E_CAS, (u64)p, 1, pc); apost(o); return true; }
    a_acq(o, fmo); ev_read(o, 45); *c = old; tr(E_CAS, (u64)p, 0, pc); apost(o); return false;
}
#define ATOM(N, V) \
EXPORT V __tsan_atomic##N##_load(const volatile V* p, int mo) { return a_load((volatile V*)p, mo, CALLER); } \
EXPORT void __tsan_atomic##N##_store(volatile V* p, V v, int mo) { a_store(p, v, mo, CALLER); } \
EXPORT V __tsan_atomic##N##_exchange(volatile V* p, V v, int mo) { return a_rmw(p, v, mo, CALLER, [](V, V b) { return b; }, false); } \
EXPORT V __tsan_atomic##N##_fetch_add(volatile V* p, V v, int mo) { return a_rmw(p, v, mo, CALLER, [](V a, V b) { return (V)(a + b); }, true); } \
EXPORT V __tsan_atomic##N##_fetch_sub(volatile V* p, V v, int mo) { return a_rmw(p, v, mo, CALLER, [](V a, V b) { return (V)(a - b); }, true); } \
EXPORT V __tsan_atomic##N##_fetch_and(volatile V* p, V v, int mo) { return a_rmw(p, v, mo, CALLER, [](V a, V b) { return (V)(a & b); }, false); } \
EXPORT V __tsan_atomic##N##_fetch_or(volatile V* p, V v, int mo) { return a_rmw(p, v, mo, CALLER, [](V a, V b) { return (V)(a | b); }, false); } \
EXPORT V __tsan_atomic##N##_fetch_xor(volatile V* p, V v, int mo) { return a_rmw(p, v, mo, CALLER, [](V a, V b) { return (V)(a ^ b); }, false); } \
EXPORT V __tsan_atomic##N##_fetch_nand(volatile V* p, V v, int mo) { return a_rmw(p, v, mo, CALLER, [](V a, V b) { return (V) ~(a & b); }, false); } \
EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile V* p, V* c, V v, int mo, int f) { return a_cas(p, c, v, mo, f, CALLER); } \
EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile V* p, V* c, V v, int mo, int f) { return a_cas(p, c, v, mo, f, CALLER); } \
EXPORT V __tsan_atomic##N##_compare_exchange_val(volatile V* p, V c, V v, int mo, int f) { a_cas(p, &c, v, mo, f, CALLER); return c; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64)
EXPORT void __tsan_atomic_thread_fence(int mo) {
    if (!model) return; ev_local(0x80 + mo); tr(E_FENCE, 0, mo, CALLER);
    if (mo == 1 || mo == 2 || mo >= 4) vjoin(me->vc, me->acqf);
    if (mo >= 3) { me->relf = me->vc; me->hasrel = true; me->vc.c[cur]++; } }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------ plain accesses
EXPORT void __tsan_init() {}
#define ACC(N) \
EXPORT void __tsan_read##N(void* p) { rd((u64)p, N, CALLER); } \
EXPORT void __tsan_write##N(void* p) { wr((u64)p, N, CALLER); } \
EXPORT void __tsan_read##N##_pc(void* p, void*) { rd((u64)p, N, CALLER); } \
EXPORT void __tsan_write##N##_pc(void* p, void*) { wr((u64)p, N, CALLER); } \
EXPORT void __tsan_unaligned_read##N(void* p) { rd((u64)p, N, CALLER); } \
EXPORT void __tsan_unaligned_write##N(void* p) { wr((u64)p, N, CALLER); } \
EXPORT void __tsan_read_write##N(void* p) { rd((u64)p, N, CALLER); wr((u64)p, N, CALLER); } \
EXPORT void __tsan_unaligned_read_write##N(void* p) { rd((u64)p, N, CALLER); wr((u64)p, N, CALLER); } \
EXPORT void __tsan_volatile_read##N(void* p) { vol((u64)p, CALLER, false); } \
EXPORT void __tsan_volatile_write##N(void* p) { vol((u64)p, CALLER, true); } \
EXPORT void __tsan_unaligned_volatile_read##N(void* p) { vol((u64)p, CALLER, false); } \
EXPORT void __tsan_unaligned_volatile_write##N(void* p) { vol((u64)p, CALLER, true); }
static void vol(u64 a, u32 pc, bool w) {         // volatile: a relaxed atomic
    if (!model) return; u64 i; if (!shidx(a, i)) return;
    Obj* o = apre(a, pc, false); if (w) { ev_write(o, 46); } else ev_read(o, 47); tr(w ? E_STORE : E_LOAD, a, 0, pc); apost(o);
}
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p == v) rd((u64)p, 8, CALLER); else wr((u64)p, 8, CALLER); }
EXPORT void __tsan_vptr_read(void** p) { rd((u64)p, 8, CALLER); }
EXPORT void __tsan_read_range(void* p, unsigned long n) { if (n) rd((u64)p, n, CALLER); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { if (n) wr((u64)p, n, CALLER); }
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { rd((u64)s, n, CALLER); wr((u64)d, n, CALLER); } return memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { rd((u64)s, n, CALLER); wr((u64)d, n, CALLER); } return memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, size_t n) { if (n) wr((u64)d, n, CALLER); return memset(d, c, n); }

// ------------------------------------------------------------------------------------------ exploration
static void begin_execution() {
    if (baseclk > (100u << 20) || gen > (1u << 29)) {
        madvise(sw_, SHN * 4, MADV_DONTNEED); madvise(sr_, SHN * 4, MADV_DONTNEED); madvise(gstate, ARENASZ / 4, MADV_DONTNEED);
        memset(ot, 0, OT * sizeof(OSlot)); madvise(objgen, SHN / 2, MADV_DONTNEED); baseclk = 0; gen = 0;
    }
    u32 mx = baseclk; for (int i = 0; i < nT; i++) for (int k = 0; k < MAXT; k++) if (T[i].vc.c[k] > mx) mx = T[i].vc.c[k];
    baseclk = mx + 1; gen++; nobjs = 0; nshr = 0; nT = 0; me = 0; cur = 0;
    memcpy(datalo, snapshot, datasz);
    livesync = 0; faulted = 0; vt = 0; rtoff = 0; jumpat = jumpby = 0; forced = 0; nticks = 0; used = 0; depth = 0; steps = 0; spurleft = opt->spurious_; faultleft = opt->faultbudget_; faultmask = opt->faults_; faulttid = -1;
    ntrace = 0; nnotes = 0; outcomelen = 0; outcome[0] = 0; ncpu = 1;
    memcpy(keyused, bkeyused, sizeof keyused);
    for (int i = 0; i < NGHOST; i++) { ghost[i] = 0; ghostobj[i] = &objs[nobjs++]; memset(ghostobj[i], 0, sizeof(Obj)); ghostobj[i]->kind = O_GHOST; ghostobj[i]->addr = i + 1; }
    mkthread(scn_main, 0, true); me = &T[0]; cur = 0; T[0].started = true;
}
static u64 n_exec, n_pruned, n_cut, n_steps, n_term; static u64 maxdepth, maxsteps;
static struct { u64 h; u64 n; char s[200]; } outs[4096]; static int nouts; static bool outsfull;
static void record_outcome() {
    u64 h = 1; for (char* p = outcome; *p; p++) h = mix(h, *p);
    for (int i = 0; i < nouts; i++) if (outs[i].h == h) { outs[i].n++; return; }
    if (nouts == 4096) { outsfull = true; return; }
    outs[nouts].h = h; outs[nouts].n = 1; snprintf(outs[nouts].s, 200, "%s", outcome); nouts++;
}
// an execution that burns CPU without reaching a visible operation
static void onprof(int) {
    static u64 le, ls; static int same; u64 st = steps + n_plain;
    if (model && le == n_exec && ls == st) { if (++same >= 8) violate("livelock", "T%d runs without ever reaching a visible operation", cur); }
    else { same = 0; le = n_exec; ls = st; }
}
static void run_one() {
    begin_execution();
    u64* g = (u64*)abi::__cxa_get_globals(); explorer_eh[0] = g[0]; explorer_eh[1] = g[1]; g[0] = g[1] = 0;
    model = true; vs_switch(&explorer_sp, T[0].sp); model = false;
    n_exec++; n_steps += steps; if ((u64)steps > maxsteps) maxsteps = steps; if ((u64)depth > maxdepth) maxdepth = depth;
    if (endreason == END_PRUNED) n_pruned++; else if (endreason == END_CUT) n_cut++;
    else if (endreason == END_TERM) { n_term++; outcomelen += snprintf(outcome + outcomelen, 20, " terminate"); record_outcome(); }
    else if (endreason == END_OK) record_outcome();
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool backtrack(bool& cut) {
    while (nstk) {
        Choice& k = stk[nstk - 1]; bool ok = false;
        while (++k.cur < k.n) { if (!(k.costs >> k.cur & 1) || k.ubefore < bound) { ok = true; break; } cut = true; }
        if (ok) return true; nstk--;
    }
    return false;
}
static void jstr(const char* s) { putchar('"'); for (; *s; s++) { if (*s == '"' || *s == '\\') putchar('\\'); if ((u8)*s >= 32) putchar(*s); } putchar('"'); }
extern "C" __attribute__((visibility("default"))) int vs_main(int argc, char** argv) {
    const char* scn = 0; const char* rep = 0; double secs = -1; int maxb = -1, minb = 0; bool list = false;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--list")) list = true;
        else if (!strcmp(argv[i], "--thorough")) thorough = true;
        else if (!strcmp(argv[i], "--scenario")) scn = argv[++i];
        else if (!strcmp(argv[i], "--replay")) rep = argv[++i];
        else if (!strcmp(argv[i], "--secs")) secs = atof(argv[++i]);
        else if (!strcmp(argv[i], "--nocache")) nocache = true;
        else if (!strcmp(argv[i], "--bound")) maxb = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--min-bound")) minb = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--out")) snprintf(replayout, sizeof replayout, "%s", argv[++i]);
    }
    if (list) { for (int i = 0; i < nscn; i++) printf("%s %d %g %g\n", scns[i].name, scns[i].o.thorough_only_, scns[i].o.qs, scns[i].o.ts); return 0; }
    { time_t z = 0; struct tm b; tzset(); gmtime_r(&z, &b); localtime_r(&z, &b); }      // lazy initialisation of the C library
    Scn* s = 0; for (int i = 0; i < nscn; i++) if (scn && !strcmp(scns[i].name, scn)) s = &scns[i];
    if (!s) { fprintf(stderr, "no such scenario\n"); return 2; }
    snprintf(curscn, sizeof curscn, "%s", scn); opt = &s->o;
    ssize_t rl = readlink("/proc/self/exe", exepath, sizeof exepath - 1); if (rl > 0) exepath[rl] = 0;
    void* ar = mmap((void*)ARENA, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (ar != (void*)ARENA) { perror("arena"); return 2; }
    for (int i = 0; i < MAXT; i++) mprotect((void*)(ARENA + i * SLOT + HEAPSZ), GUARD, PROT_NONE);
    sw_ = (u32*)map(SHN * 4); sr_ = (u32*)map(SHN * 4); spw = (u32*)map(SHN * 4); spr = (u32*)map(SHN * 4); gstate = (u32*)map(ARENASZ / 4); objgen = (u32*)map(SHN / 2 + 64);
    shr = (Shr*)map(MAXSHR * sizeof(Shr)); ot = (OSlot*)map(OT * sizeof(OSlot)); objs = (Obj*)map(MAXOBJ * sizeof(Obj)); stk = (Choice*)map(MAXSTK * sizeof(Choice)); trace = (Ev*)map(MAXTRACE * sizeof(Ev));
    vgrow();
    datasz = datahi - datalo; if (datasz > DATAMAX) { fprintf(stderr, "data segment too large\n"); return 2; }
    memcpy(bkeyused, keyused, sizeof keyused);
    std::set_terminate(onterminate);
    stack_t ss; ss.ss_sp = map(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; 
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
    try { throw 1; } catch (int) {}
    memset(&sa, 0, sizeof sa); sa.sa_handler = onprof; sa.sa_flags = SA_RESTART | SA_ONSTACK; sigaction(SIGPROF, &sa, 0);
    struct itimerval itv; itv.it_interval.tv_sec = 1; itv.it_interval.tv_usec = 0; itv.it_value = itv.it_interval; setitimer(ITIMER_PROF, &itv, 0);
    snapshot = (u8*)map(datasz + 4096); memcpy(snapshot, datalo, datasz);
    int B = thorough ? opt->tpb : opt->pb; if (maxb >= 0) B = maxb; if (B < minb) B = minb; double lim = thorough ? opt->ts : opt->qs; if (secs > 0) lim = secs;
    if (rep) {
        replaying = true; FILE* f = fopen(rep, "r"); if (!f) { perror("replay"); return 2; }
        static char line[1 << 20]; while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "choices", 7)) { char* p = line + 7; int a, b, n; while (sscanf(p, " %d/%d%n", &a, &b, &n) == 2) { Choice& k = stk[nstk++]; k.n = b; k.cur = a; k.hash = 0; p += n; } }
            else if (!strncmp(line, "bound", 5)) bound = atoi(line + 6);
            else if (!strncmp(line, "tier thorough", 13)) thorough = true;
            else if (!strncmp(line, "unlock_points", 13)) unlock_points = atoi(line + 14); }
        fclose(f); run_one(); printf("replay ended without a violation\n"); return 3;
    }
    double t0 = now(); bool complete = false, capped = false; int done = -1; bool firsts = true; (void)firsts;
    u64 execb[32]; memset(execb, 0, sizeof execb);
    for (bound = 0; bound <= B && !complete && !capped; ) {
        bool cut = false; nstk = 0; u64 e0 = n_exec; bool again = false;
        for (;;) {
            run_one();
            if (endreason == END_RESTART) { again = true; break; }
            if (!backtrack(cut)) break;
            if ((n_exec & 63) == 0 && now() - t0 > lim) { capped = true; break; }
        }
        if (again) { munmap(vtab, vcap * 8); vtab = 0; vcap = vcnt = 0; vgrow(); n_exec = n_pruned = n_steps = n_transitions = 0; nouts = 0; bound = 0; done = -1; memset(execb, 0, sizeof execb); continue; }
        if (bound < 32) execb[bound] = n_exec - e0;
        if (!capped) { done = bound; if (!cut) complete = true; }
        bound++;
    }
    printf("{\"scenario\":"); jstr(scn);
    printf(",\"executions\":%lu,\"states\":%lu,\"transitions\":%lu,\"steps\":%lu,\"pruned\":%lu,\"cut\":%lu,\"terminated\":%lu,\"bound_requested\":%d,\"bound_completed\":%d,\"complete\":%s,\"capped\":%s,\"max_threads\":%d,\"max_depth\":%lu,\"max_steps\":%lu,\"wall_s\":%.2f,\"outcomes_n\":%d,\"outcomes\":[",
        n_exec, vcnt, n_transitions, n_steps, n_pruned, n_cut, n_term, B, done, complete ? "true" : "false", capped ? "true" : "false", maxthreads, maxdepth, maxsteps, now() - t0, nouts);
    for (int i = 0; i < nouts && i < 40; i++) { if (i) putchar(','); jstr(outs[i].s); }
    printf("]}\n"); fflush(stdout); _exit(0);
}
