// A deterministic scheduler for real threads.
//
// The library and the harness are compiled with -fsanitize=thread, but linked
// with the runtime in this file instead of libtsan: every memory access and
// every synchronisation call of a simulated thread comes here. Exactly one
// simulated thread runs at a time (it has the baton); at each of these points
// the scheduler may pass the baton to another one. All its decisions are drawn
// from the case's source of randomness, so a run can be replayed and shrunk.
// Time is virtual. A vector clock detector reports data races.
//
// This file itself is compiled without instrumentation.
#include "sim.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
#include <errno.h>
#include <unistd.h>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <locale.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/mman.h>

extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *); extern "C" void *__libc_realloc(void *, size_t);

namespace sim {

typedef uint32_t Clk;
struct VC { Clk c[MAXT + 1]; };                 // index MAXT: the controller
static int nth;
static inline void join(VC &a, const VC &b) { for(int i = 0; i < nth; i++) if(b.c[i] > a.c[i]) a.c[i] = b.c[i]; if(b.c[MAXT] > a.c[MAXT]) a.c[MAXT] = b.c[MAXT]; }

enum State { IDLE, RUNNABLE, ON_MUTEX, ON_COND, ON_RW, ON_GUARD, ON_ONCE, SLEEPING, FINISHED };
struct Th {
  int id; State st = IDLE; void *obj = nullptr, *mtx = nullptr; int64_t deadline = -1; bool notified = false, timedout = false; bool wantWrite = false;
  volatile int baton = 0; std::function<void()> job; int ignore = 1; bool fenced = false; VC vc; uintptr_t lo = 0, hi = 0;
};
static Th th[MAXT]; static pid_t poolPid; static int poolSize;
static volatile int ctlBaton; static VC ctlVC;
static __thread Th *self;
static Config cfg; static int64_t vnow; static uint64_t nsteps, nswitch, npreempt, consec; static Status status; static std::string why, raceMsg, misuseMsg; static bool stopping;
static const int64_t MONO0 = 1000LL * 1000000000LL, REAL0 = 1700000000LL * 1000000000LL;
static unsigned memAvg, syncDen, spurDen, jumpDen; static int64_t gap;

static void fwait(volatile int *b) { while(__atomic_load_n(b, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, b, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(b, 0, __ATOMIC_RELAXED); }
static void fwake(volatile int *b) { __atomic_store_n(b, 1, __ATOMIC_RELEASE); syscall(SYS_futex, b, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

// ------------------------------------------------------------ tables keyed by address, without malloc

template<typename V, unsigned BITS> struct Table {
  struct Cell { uintptr_t key; uint32_t gen; V v; };
  Cell *t = nullptr; uint32_t gen = 1; unsigned used = 0;
  void init() { if(!t) t = (Cell *) mmap(nullptr, sizeof(Cell) << BITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  void clear() { init(); gen++; used = 0; }
  V *find(uintptr_t k) { if(!used) return nullptr; unsigned h = (unsigned)((k * 0x9e3779b97f4a7c15ULL) >> (64 - BITS)); for(;;) { Cell &c = t[h]; if(c.gen != gen) return nullptr; if(c.key == k) return &c.v; h = (h + 1) & ((1u << BITS) - 1); } }
  V *get(uintptr_t k) { unsigned h = (unsigned)((k * 0x9e3779b97f4a7c15ULL) >> (64 - BITS)); for(;;) { Cell &c = t[h]; if(c.gen != gen) { if(used > (3u << BITS) / 4) return nullptr; c.gen = gen; c.key = k; memset((void *) &c.v, 0, sizeof(V)); used++; return &c.v; } if(c.key == k) return &c.v; h = (h + 1) & ((1u << BITS) - 1); } }
};
struct Mtx { int owner; int depth; VC vc; };         // owner: thread id + 1
struct Rw { int writer; int readers; VC vc; };
// one per thread and granule: last read and write, plain and atomic, and which bytes
struct Acc1 { Clk r, w, ar, aw; uint8_t mr, mw, mar, maw; };
struct Acc { Acc1 *t; int n; };
static char *arena; static size_t arenaUsed; static const size_t ARENA = 256u << 20;
static Acc1 *acc1s(int n) {
  if(!arena) arena = (char *) mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t z = n * sizeof(Acc1); if(arenaUsed + z > ARENA) return nullptr;
  Acc1 *p = (Acc1 *)(arena + arenaUsed); arenaUsed += z; memset((void *) p, 0, z); return p;
}
struct Sy { VC vc; };
static Table<Mtx, 12> mutexes; static Table<Rw, 10> rws; static Table<Acc, 17> shadow; static Table<Sy, 13> atoms;
static void fatal(const char *m) { if(write(2, m, strlen(m)) < 0) {} _exit(3); }
static Mtx &mtx(void *m) { Mtx *x = mutexes.get((uintptr_t) m); if(!x) fatal("sim: too many mutexes\n"); return *x; }
static Rw &rw(void *m) { Rw *x = rws.get((uintptr_t) m); if(!x) fatal("sim: too many locks\n"); return *x; }

static uint64_t draw(uint64_t n) { if(n <= 1) return 0; Th *me = self; if(me) me->ignore++; uint64_t v = cfg.draw(n); if(me) me->ignore--; return v; }

// ------------------------------------------------------------ scheduling

static bool mutexFree(void *m) { Mtx *x = mutexes.find((uintptr_t) m); return !x || x->owner == 0; }
static bool canRun(Th &t) {
  switch(t.st) {
  case RUNNABLE: return true;
  case ON_MUTEX: return mutexFree(t.obj) || (t.deadline >= 0 && t.deadline <= vnow);
  case ON_COND: return (t.notified || (t.deadline >= 0 && t.deadline <= vnow)) && mutexFree(t.mtx);
  case ON_RW: { Rw &r = rw(t.obj); return t.wantWrite ? (r.writer == 0 && r.readers == 0) : r.writer == 0; }
  case ON_GUARD: return ((volatile char *) t.obj)[1] == 0;
  case ON_ONCE: return (*(volatile int *) t.obj & 1) == 0;
  case SLEEPING: return t.deadline <= vnow;
  default: return false; }
}
static void toController(Status s) { status = s; fwake(&ctlBaton); }
static void newGap() { gap = memAvg ? (int64_t) draw(2 * memAvg) : 0; if(gap == 0) gap = INT64_MAX; }
static int slowTh = -1; static unsigned slowDen = 1;
// choose who runs next; other than me if another one can. Returns nullptr if nobody ever will.
static Th *choose(Th *notMe) {
  for(;;) {
    Th *en[MAXT]; int n = 0;
    for(int i = 0; i < nth; i++) if(&th[i] != notMe && canRun(th[i])) en[n++] = &th[i];
    // one thread may be slow: the others go first nearly always
    for(int i = 0; i < n; i++) if(en[i]->id == slowTh) {
      if(n == 1 && !(notMe && canRun(*notMe))) break;
      if(draw(slowDen) == slowDen - 1) break;
      en[i] = en[--n]; break;
    }
    if(n) return en[draw(n)];
    if(notMe && canRun(*notMe)) return notMe;
    if(notMe) { notMe = nullptr; continue; }
    bool left = false; int64_t d = INT64_MAX;
    for(int i = 0; i < nth; i++) { Th &t = th[i]; if(t.st == FINISHED || t.st == IDLE) continue; left = true; if(t.deadline >= 0 && (t.st == ON_COND || t.st == SLEEPING || t.st == ON_MUTEX) && !t.notified && t.deadline < d) d = t.deadline; }
    if(!left) { status = DONE; return nullptr; }
    if(cfg.idle) { Th *me = self; if(me) me->ignore++; cfg.idle(); if(me) me->ignore--; }
    if(stopping) { status = STOPPED; return nullptr; }
    if(d == INT64_MAX || d > cfg.horizon || d <= vnow) { status = QUIESCENT; return nullptr; }
    vnow = d;
  }
}
static void pass(Th *me, Th *t) {     // hand over the baton and wait for it
  if(t == me) return;
  nswitch++; consec = 0;
  if(t) fwake(&t->baton); else fwake(&ctlBaton);
  if(me->st == FINISHED) return;
  fwait(&me->baton);
}
static void block(Th *me) {           // state of me has been set
  if(gap == INT64_MAX && memAvg) newGap();
  Th *t = choose(nullptr);
  pass(me, t);
  me->st = RUNNABLE;
}
static void halt(Th *me, Status s) { toController(s); fwait(&me->baton); for(;;) pause(); }
static void environment() {
  if(spurDen) { bool any = false; for(int i = 0; i < nth; i++) if(th[i].st == ON_COND && !th[i].notified) any = true;
    if(any && draw(spurDen) == spurDen - 1) { int k = (int) draw(nth); for(int i = 0; i < nth; i++) { Th &t = th[(k + i) % nth]; if(t.st == ON_COND && !t.notified) { t.notified = true; t.timedout = false; break; } } } }
  if(jumpDen && cfg.jumps && draw(jumpDen) == jumpDen - 1) {
    int64_t d = INT64_MAX; for(int i = 0; i < nth; i++) { Th &t = th[i]; if(t.deadline > vnow && (t.st == ON_COND || t.st == SLEEPING) && t.deadline < d) d = t.deadline; }
    int64_t step = 0;
    switch(draw(3)) { case 0: step = (int64_t) draw(3000000); break; case 1: step = (int64_t) draw(200) * 1000000; break; default: if(d != INT64_MAX) step = d - vnow; }
    if(step > cfg.maxJump) step = cfg.maxJump;
    if(vnow <= cfg.horizon - step) vnow += step;
  }
}
static void point(bool sync) {
  Th *me = self; if(!me || me->st == FINISHED) return;
  if(stopping) halt(me, STOPPED);
  if(++nsteps > cfg.stepLimit) halt(me, RUNAWAY);
  bool go = false;
  if(sync) { environment(); if(syncDen && draw(syncDen) == syncDen - 1) go = true; }
  else if(--gap <= 0) { go = true; newGap(); }
  if(++consec > 3000) { consec = 0; go = true; }
  if(!go) return;
  Th *t = choose(me); if(t == me || !t) return;
  npreempt++;
  pass(me, t);
}

static void acquire(Th *me, const VC &v) { join(me->vc, v); }
static void release(Th *me, VC &v) { join(v, me->vc); me->vc.c[me->id]++; }

// ------------------------------------------------------------ races

static void setMask(Clk &c, uint8_t &m, Clk now, uint8_t mask) { if(c == now) m |= mask; else { c = now; m = mask; } }
static void conflict(Th *me, Th &o, uintptr_t g, bool w, bool ow, bool at, bool oat) {
  if(!raceMsg.empty()) return;
  char b[300]; snprintf(b, sizeof b, "data race: %s%s by thread %d and %s%s by thread %d of the same memory, not ordered by any synchronisation", at ? "atomic " : "", w ? "write" : "read", me->id, oat ? "atomic " : "", ow ? "write" : "read", o.id);
  me->ignore++; raceMsg = b; me->ignore--;
}
static void access(Th *me, uintptr_t a, unsigned size, bool write, bool atomic) {
  while(size) {
    uintptr_t g = a & ~(uintptr_t) 7; unsigned off = a & 7, n = 8 - off < size ? 8 - off : size; uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
    Acc *s = shadow.get(g);
    if(s && s->n < nth) { Acc1 *b = acc1s(nth + 4); if(b && s->n) memcpy((void *) b, (void *) s->t, s->n * sizeof(Acc1)); s->t = b; s->n = b ? nth + 4 : 0; }
    if(s && s->t) {
      int id = me->id;
      for(int u = 0; u < nth; u++) {
        if(u == id) continue;
        Clk seen = me->vc.c[u]; const Acc1 &o = s->t[u];
        if(o.w > seen && (o.mw & mask)) conflict(me, th[u], g, write, true, atomic, false);
        if(write && o.r > seen && (o.mr & mask)) conflict(me, th[u], g, write, false, atomic, false);
        if(!atomic && o.aw > seen && (o.maw & mask)) conflict(me, th[u], g, write, true, atomic, true);
        if(!atomic && write && o.ar > seen && (o.mar & mask)) conflict(me, th[u], g, write, false, atomic, true);
      }
      Clk now = me->vc.c[id]; Acc1 &my = s->t[id];
      if(atomic) { if(write) setMask(my.aw, my.maw, now, mask); else setMask(my.ar, my.mar, now, mask); }
      else if(write) setMask(my.w, my.mw, now, mask); else setMask(my.r, my.mr, now, mask);
    }
    a += n; size -= n;
  }
}
static inline void mem(const void *p, unsigned size, bool write) {
  Th *me = self; if(!me || me->ignore) return;
  uintptr_t a = (uintptr_t) p; if(a >= me->lo && a < me->hi) { if(cfg.stackPoints) point(false); return; }
  point(false);
  access(me, a, size, write, false);
}
static void forget(void *p, size_t n) {
  if(!shadow.used && !atoms.used) return;
  uintptr_t a = (uintptr_t) p & ~(uintptr_t) 7, e = (uintptr_t) p + n;
  for(; a < e; a += 8) { if(Acc *s = shadow.find(a)) if(s->t) memset((void *) s->t, 0, s->n * sizeof(Acc1)); if(Sy *y = atoms.find(a)) memset((void *) y, 0, sizeof *y); }
}
static void atomicBefore(const void *p, unsigned size, bool write) { Th *me = self; if(!me || me->ignore) return; point(false); access(me, (uintptr_t) p, size, write, true); }
static void atomicSync(const void *p, bool acq, bool rel) {
  Th *me = self; if(!me) return;
  if(me->fenced) acq = rel = true;
  if(!acq && !rel) return;
  Sy *y = atoms.get((uintptr_t) p & ~(uintptr_t) 7); if(!y) return;
  if(acq) acquire(me, y->vc);
  if(rel) release(me, y->vc);
}

// ------------------------------------------------------------ threads

static void *poolMain(void *arg) {
  Th *me = (Th *) arg;
  // the watchdog's handler is instrumented, too: it must not run on a simulated thread
  sigset_t sg; sigemptyset(&sg); sigaddset(&sg, SIGPROF); sigaddset(&sg, SIGALRM); pthread_sigmask(SIG_BLOCK, &sg, nullptr);
  pthread_attr_t at; void *base = nullptr; size_t sz = 0;
  if(pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &base, &sz); pthread_attr_destroy(&at); }
  me->lo = (uintptr_t) base; me->hi = me->lo + sz;
  for(;;) {
    fwait(&me->baton);
    self = me; me->st = RUNNABLE;
    me->job();
    me->ignore = 1; me->st = FINISHED;
    Th *t = choose(nullptr);
    self = nullptr; nswitch++; consec = 0;
    if(t) fwake(&t->baton); else fwake(&ctlBaton);
  }
  return nullptr;
}
static int (*realCreate)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

void begin(const Config &c) {
  cfg = c; vnow = 0; nsteps = nswitch = npreempt = consec = 0; why.clear(); raceMsg.clear(); misuseMsg.clear(); stopping = false; nth = 0;
  mutexes.clear(); rws.clear(); shadow.clear(); atoms.clear(); arenaUsed = 0;
  memset(&ctlVC, 0, sizeof ctlVC); ctlVC.c[MAXT] = 1;
  if(poolPid != getpid()) { poolPid = getpid(); poolSize = 0; for(int i = 0; i < MAXT; i++) { th[i].baton = 0; th[i].st = IDLE; } }
  static const unsigned ma[] = { 0, 100, 30, 10, 4 }, sd[] = { 0, 8, 3, 2 }, sp[] = { 0, 0, 12, 4 }, jd[] = { 0, 30, 6 };
  memAvg = ma[draw(5)]; syncDen = sd[draw(4)]; spurDen = sp[draw(4)]; jumpDen = cfg.jumps ? jd[draw(3)] : 0;
  static const unsigned sl[] = { 16, 256, 8192 };
  slowTh = draw(5) == 4 ? (int) draw(4) : -1; if(slowTh >= 0) slowDen = sl[draw(3)];
  if(cfg.slow >= 0) { slowTh = cfg.slow; slowDen = 65536; }
  gap = INT64_MAX;
}
void setHorizon(int64_t h) { cfg.horizon = h; }
int spawn(std::function<void()> job) {
  if(nth >= MAXT) { fprintf(stderr, "sim: too many threads\n"); _exit(3); }
  Th &t = th[nth]; t.id = nth; t.job = job; t.ignore = 1; t.fenced = false; t.deadline = -1; t.notified = t.timedout = false; t.obj = t.mtx = nullptr;
  memset(&t.vc, 0, sizeof t.vc); join(t.vc, ctlVC); t.vc.c[nth] = 1; ctlVC.c[MAXT]++;
  if(nth >= poolSize) {
    if(!realCreate) realCreate = (decltype(realCreate)) dlsym(RTLD_NEXT, "pthread_create");
    pthread_t p; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); pthread_attr_setstacksize(&a, 1 << 20);
    if(realCreate(&p, &a, poolMain, &t) != 0) { fprintf(stderr, "sim: no thread\n"); _exit(3); }
    pthread_attr_destroy(&a); poolSize = nth + 1;
  }
  t.st = RUNNABLE; nth++;
  return t.id;
}
Status go() {
  if(gap == INT64_MAX) newGap();
  status = DONE; Th *t = choose(nullptr);
  if(!t) return status;
  fwake(&t->baton);
  fwait(&ctlBaton);
  for(int i = 0; i < nth; i++) { join(ctlVC, th[i].vc); }
  if(stopping) status = STOPPED;
  return status;
}
bool finished(int t) { return th[t].st == FINISHED; }
bool blocked(int t) { return th[t].st != FINISHED && th[t].st != RUNNABLE && th[t].st != IDLE; }
int64_t now() { return vnow; }
void stop(const std::string &m) { if(!stopping) { stopping = true; why = m; } }
const std::string &stopReason() { return why; }
const std::string &race() { return raceMsg; }
const std::string &misuse() { return misuseMsg; }
uint64_t steps() { return nsteps; } uint64_t switches() { return nswitch; } uint64_t preemptions() { return npreempt; }
Visible::Visible() { if(self) { point(true); self->ignore = 0; } }
Visible::~Visible() { if(self) { self->ignore = 1; point(true); } }
void sleep(int64_t ns) { Th *me = self; if(!me) return; point(true); me->st = SLEEPING; me->deadline = (ns > INT64_MAX - vnow) ? INT64_MAX : vnow + ns; block(me); me->deadline = -1; }

static void wrong(const char *m) { Th *me = self; if(me) me->ignore++; if(misuseMsg.empty()) misuseMsg = m; if(me) me->ignore--; }

// ------------------------------------------------------------ locks

static bool lockMutex(Th *me, pthread_mutex_t *m, int64_t deadline) {
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if(rec) { Mtx &x = mtx(m); if(x.owner == me->id + 1) { x.depth++; return true; } }
  while(!mutexFree(m)) {
    if(deadline >= 0 && deadline <= vnow) return false;
    me->st = ON_MUTEX; me->obj = m; me->deadline = deadline; block(me); me->deadline = -1;
  }
  Mtx &x = mtx(m); x.owner = me->id + 1; x.depth = 1; acquire(me, x.vc);
  return true;
}
static void unlockMutex(Th *me, pthread_mutex_t *m) {
  Mtx &x = mtx(m);
  if(x.owner != me->id + 1) { wrong("a mutex is unlocked by a thread that does not hold it"); return; }
  if(--x.depth > 0) return;
  release(me, x.vc); x.owner = 0;
}
static int64_t absolute(const struct timespec *ts, clockid_t clk) {
  int64_t base = (clk == CLOCK_REALTIME) ? REAL0 : MONO0;
  if(ts->tv_sec > 9000000000LL) return INT64_MAX - 1;
  int64_t v = (int64_t) ts->tv_sec * 1000000000LL + ts->tv_nsec - base;
  return v < 0 ? 0 : v;
}
static int condWait(Th *me, pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
  point(true);
  Mtx &x = mtx(m); if(x.owner != me->id + 1) wrong("condition wait without holding the mutex");
  int depth = x.depth; x.depth = 1; unlockMutex(me, m);
  me->st = ON_COND; me->obj = c; me->mtx = m; me->deadline = deadline; me->notified = false; me->timedout = false;
  block(me);
  bool timeout = !me->notified; me->notified = false; me->deadline = -1;
  lockMutex(me, m, -1); mtx(m).depth = depth;
  return timeout ? ETIMEDOUT : 0;
}
static void condWake(Th *me, pthread_cond_t *c, bool all) {
  point(true);
  Th *w[MAXT]; int n = 0;
  for(int i = 0; i < nth; i++) if(th[i].st == ON_COND && th[i].obj == c && !th[i].notified) w[n++] = &th[i];
  if(!n) return;
  if(all) for(int i = 0; i < n; i++) w[i]->notified = true; else w[draw(n)]->notified = true;
}
}
using namespace sim;

#define REAL(ret, name, args) static ret (*f) args; if(!f) f = (ret (*) args) dlsym(RTLD_NEXT, #name)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { Th *me = self; if(!me) { REAL(int, pthread_mutex_lock, (pthread_mutex_t *)); return f(m); } point(true); lockMutex(me, m, -1); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { Th *me = self; if(!me) { REAL(int, pthread_mutex_trylock, (pthread_mutex_t *)); return f(m); } point(true); bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; if(!mutexFree(m) && !(rec && mtx(m).owner == me->id + 1)) return EBUSY; lockMutex(me, m, -1); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { Th *me = self; if(!me) { REAL(int, pthread_mutex_timedlock, (pthread_mutex_t *, const struct timespec *)); return f(m, ts); } point(true); return lockMutex(me, m, absolute(ts, CLOCK_REALTIME)) ? 0 : ETIMEDOUT; }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { Th *me = self; if(!me) { REAL(int, pthread_mutex_clocklock, (pthread_mutex_t *, clockid_t, const struct timespec *)); return f(m, c, ts); } point(true); return lockMutex(me, m, absolute(ts, c)) ? 0 : ETIMEDOUT; }
int pthread_mutex_unlock(pthread_mutex_t *m) { Th *me = self; if(!me) { REAL(int, pthread_mutex_unlock, (pthread_mutex_t *)); return f(m); } unlockMutex(me, m); point(true); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { Th *me = self; if(!me) { REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *)); return f(c, m); } return condWait(me, c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { Th *me = self; if(!me) { REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *)); return f(c, m, ts); } return condWait(me, c, m, absolute(ts, CLOCK_REALTIME)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { Th *me = self; if(!me) { REAL(int, pthread_cond_clockwait, (pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)); return f(c, m, k, ts); } return condWait(me, c, m, absolute(ts, k)); }
int pthread_cond_signal(pthread_cond_t *c) { Th *me = self; if(!me) { REAL(int, pthread_cond_signal, (pthread_cond_t *)); return f(c); } condWake(me, c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { Th *me = self; if(!me) { REAL(int, pthread_cond_broadcast, (pthread_cond_t *)); return f(c); } condWake(me, c, true); return 0; }

static int rwLock(Th *me, pthread_rwlock_t *l, bool write, bool wait) {
  point(true);
  for(;;) { Rw &r = rw(l); if(write ? (r.writer == 0 && r.readers == 0) : r.writer == 0) break; if(!wait) return EBUSY; me->st = ON_RW; me->obj = l; me->wantWrite = write; block(me); }
  Rw &r = rw(l); if(write) r.writer = me->id + 1; else r.readers++; acquire(me, r.vc); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { Th *me = self; if(!me) { REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *)); return f(l); } return rwLock(me, l, true, true); }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { Th *me = self; if(!me) { REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *)); return f(l); } return rwLock(me, l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { Th *me = self; if(!me) { REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t *)); return f(l); } return rwLock(me, l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { Th *me = self; if(!me) { REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t *)); return f(l); } return rwLock(me, l, false, false); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { Th *me = self; if(!me) { REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t *)); return f(l); } Rw &r = rw(l); release(me, r.vc); if(r.writer == me->id + 1) r.writer = 0; else if(r.readers > 0) r.readers--; else wrong("a read-write lock is unlocked that is not locked"); point(true); return 0; }

int clock_gettime(clockid_t c, struct timespec *ts) {
  if(!self) return (int) syscall(SYS_clock_gettime, c, ts);
  vnow += 100;
  int64_t t = vnow + ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? REAL0 : MONO0);
  ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if(tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; } return 0; }
int nanosleep(const struct timespec *r, struct timespec *rem) { if(!self) { REAL(int, nanosleep, (const struct timespec *, struct timespec *)); return f(r, rem); } sim::sleep((int64_t) r->tv_sec * 1000000000LL + r->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *rem) { if(!self) { REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *)); return f(c, flags, r, rem); }
  if(flags & TIMER_ABSTIME) { int64_t d = absolute(r, c) - vnow; sim::sleep(d > 0 ? d : 0); } else sim::sleep((int64_t) r->tv_sec * 1000000000LL + r->tv_nsec); return 0; }
int usleep(useconds_t u) { if(!self) { REAL(int, usleep, (useconds_t)); return f(u); } sim::sleep((int64_t) u * 1000); return 0; }
int sched_yield(void) { Th *me = self; if(!me) return (int) syscall(SYS_sched_yield); vnow += 20000; if(++nsteps > cfg.stepLimit) halt(me, RUNAWAY); environment(); Th *t = choose(me); if(t && t != me) pass(me, t); return 0; }

// initialisation of function-local statics
int __cxa_guard_acquire(uint64_t *g) { volatile char *b = (volatile char *) g; if(__atomic_load_n((char *) g, __ATOMIC_ACQUIRE)) return 0; Th *me = self;
  if(me) { while(b[1]) { me->st = ON_GUARD; me->obj = g; block(me); } if(b[0]) return 0; } b[1] = 1; return 1; }
void __cxa_guard_release(uint64_t *g) { volatile char *b = (volatile char *) g; b[1] = 0; __atomic_store_n((char *) g, 1, __ATOMIC_RELEASE); if(self) atomicSync(g, true, true); }
void __cxa_guard_abort(uint64_t *g) { ((volatile char *) g)[1] = 0; }

// std::call_once
int pthread_once(pthread_once_t *o, void (*init)(void)) {
  Th *me = self; if(!me) { REAL(int, pthread_once, (pthread_once_t *, void (*)(void))); return f(o, init); }
  point(true);
  volatile int *w = (volatile int *) o;
  while(*w & 1) { me->st = ON_ONCE; me->obj = o; block(me); }
  if(*w == 2) { atomicSync(o, true, false); return 0; }
  *w = 1;
  try { init(); } catch(...) { *w = 0; throw; }
  *w = 2; atomicSync(o, true, true); return 0;
}
void free(void *p) { if(p) { forget(p, malloc_usable_size(p)); __libc_free(p); } }

// ------------------------------------------------------------ what -fsanitize=thread calls

void __tsan_init(void) {}
void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { mem(p, n, false); } void __tsan_write##n(void *p) { mem(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { mem(p, n, false); } void __tsan_unaligned_write##n(void *p) { mem(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { mem(p, n, false); } void __tsan_volatile_write##n(void *p) { mem(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { mem(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { mem(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if(n) mem(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { if(n) mem(p, n, true); }
void __tsan_vptr_read(void **p) { mem(p, 8, false); }
void __tsan_vptr_update(void **p, void *v) { if(*p != v) mem(p, 8, true); }
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
#define RMW(T, B, op, builtin) T __tsan_atomic##B##_##op(volatile T *p, T v, int mo) { atomicBefore((void *) p, sizeof(T), true); T r = builtin(p, v, __ATOMIC_SEQ_CST); atomicSync((void *) p, acq(mo), rel(mo)); return r; }
#define ATOM(T, B) \
  T __tsan_atomic##B##_load(const volatile T *p, int mo) { atomicBefore((void *) p, sizeof(T), false); T r = __atomic_load_n(p, __ATOMIC_SEQ_CST); atomicSync((void *) p, acq(mo), false); return r; } \
  void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { atomicBefore((void *) p, sizeof(T), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); atomicSync((void *) p, false, rel(mo)); } \
  RMW(T, B, exchange, __atomic_exchange_n) RMW(T, B, fetch_add, __atomic_fetch_add) RMW(T, B, fetch_sub, __atomic_fetch_sub) RMW(T, B, fetch_and, __atomic_fetch_and) \
  RMW(T, B, fetch_or, __atomic_fetch_or) RMW(T, B, fetch_xor, __atomic_fetch_xor) RMW(T, B, fetch_nand, __atomic_fetch_nand) \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { atomicBefore((void *) p, sizeof(T), true); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); atomicSync((void *) p, ok ? acq(mo) : acq(fmo), ok && rel(mo)); return ok; } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOM(a8, 8) ATOM(a16, 16) ATOM(a32, 32) ATOM(a64, 64)
void __tsan_atomic_thread_fence(int) { if(self) self->fenced = true; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ C functions, see sim_mem.hpp

static void rd(const void *p, size_t n) { Th *me = self; if(!me || me->ignore) return; for(const char *c = (const char *) p; n; ) { unsigned k = n < 64 ? (unsigned) n : 64; mem(c, k, false); c += k; n -= k; } }
static void wr(void *p, size_t n) { Th *me = self; if(!me || me->ignore) return; for(char *c = (char *) p; n; ) { unsigned k = n < 64 ? (unsigned) n : 64; mem(c, k, true); c += k; n -= k; } }
// functions with a state of their own: as if they wrote to it
static char stateOfStrtok[8], stateOfLocale[8];
static void usesState(char *st, bool write) { Th *me = self; if(me && !me->ignore) { point(false); access(me, (uintptr_t) st & ~(uintptr_t) 7, 8, write, false); } }
void *sim_memcpy(void *d, const void *s, size_t n) { rd(s, n); wr(d, n); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { rd(s, n); wr(d, n); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { wr(d, n); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { rd(a, n); rd(b, n); return memcmp(a, b, n); }
size_t sim_strlen(const char *s) { size_t n = strlen(s); rd(s, n + 1); return n; }
int sim_strcmp(const char *a, const char *b) { rd(a, 1); rd(b, 1); return strcmp(a, b); }
char *sim_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; rd(s, n); wr(d, n); return (char *) memmove(d, s, n); }
char *sim_strcat(char *d, const char *s) { size_t m = strlen(d), n = strlen(s) + 1; rd(d, m + 1); rd(s, n); wr(d + m, n); memmove(d + m, s, n); return d; }
char *sim_strncpy(char *d, const char *s, size_t n) { rd(s, strnlen(s, n)); wr(d, n); return strncpy(d, s, n); }
char *sim_strtok(char *s, const char *d) { usesState(stateOfStrtok, true); return strtok(s, d); }
char *sim_setlocale(int c, const char *l) { usesState(stateOfLocale, l != nullptr); return setlocale(c, l); }
int sim_vsnprintf(char *b, size_t z, const char *f, va_list a) { Th *me = self; if(me) me->ignore++; int n = vsnprintf(b, z, f, a); if(me) me->ignore--; if(n >= 0 && z) wr(b, (size_t) n < z ? n + 1 : z); return n; }
int sim_snprintf(char *b, size_t z, const char *f, ...) { va_list a; va_start(a, f); int n = sim_vsnprintf(b, z, f, a); va_end(a); return n; }
int sim_sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); Th *me = self; if(me) me->ignore++; int n = vsprintf(b, f, a); if(me) me->ignore--; va_end(a); if(n >= 0) wr(b, n + 1); return n; }
}
