/* Scheduling of threads.  With the plan line "sched SEED MODE RATE ALLOC" every thread of the process runs under a
   baton: exactly one runs, and at every synchronisation operation (and, with ALLOC, at seeded allocations) the seeded
   scheduler decides which thread goes on.  Mutexes, condition variables, read-write locks, once blocks, joins and
   futexes are modelled here and never block in the kernel.
   MODE 0: at each decision another thread is chosen with probability 1/RATE.   MODE 1: strict random priorities that
   change at seeded decisions (about RATE of them).   ALLOC n: every allocation is a decision with probability 1/n.
   The default decision is to stay with the current thread, or else the runnable thread with the lowest number; every
   other decision is logged "S decision thread", and "schedlist d,t,d,t,..." replays exactly these.  Choosing a thread
   that waits on a condition variable or a futex is a spurious wake-up. */
#define _GNU_SOURCE
#include "sim.h"
#include <linux/futex.h>

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
enum { FREE, RUN, WAIT, DONE };
enum { W_MUTEX = 1, W_COND, W_FUTEX, W_RW, W_ONCE, W_JOIN };
typedef struct T { int id, st, kind, timed, woken, detached, go; void *addr; long tid; pthread_t p; void *(*fn)(void *); void *arg; void *ret; unsigned long prio; } T;
#define MAXT 256
static T th[MAXT]; static int nth, cur; static __thread T *me __attribute__((tls_model("initial-exec")));
static uint64_t rs, rsA; static int mode, rate = 4, allocRate; static long decision, deviations, real_; static int li; static long changeAt[64]; static int nChange;
static T *leaving; /* a finished thread whose kernel thread may still be on its way out */
static int noYield; static uint64_t pathHash = 1469598103934665603ULL;
static pthread_key_t endKey;

static unsigned rnd(unsigned n) { return n ? (s_rnd(&rs) >> 20) % n : 0; }
static void fWait(int *a, int v) { raw6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fWake(int *a) { raw6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static T *self(void) {
  if (me) return me;
  if (nth) { s_log("SCHED foreign thread"); s_die(98); }
  T *t = &th[nth]; t->id = nth++; t->st = RUN; t->tid = raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); t->prio = s_rnd(&rs) | 1; t->p = pthread_self(); me = t; cur = 0; return t;
}
static void gone(void) { if (leaving) { T *l = leaving; leaving = 0; long pid = raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); while (raw6(SYS_tgkill, pid, l->tid, 0, 0, 0, 0) == 0) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); } }
static void sleepHere(T *m) { while (!__atomic_load_n(&m->go, __ATOMIC_ACQUIRE)) fWait(&m->go, 0); m->go = 0; gone(); }
static void handTo(T *n, T *m, int wait) {
  if (n == m) return;
  cur = n->id; __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE); fWake(&n->go);
  if (wait) sleepHere(m);
}
static int spur(T *t) { return t->st == WAIT && (t->kind == W_COND || t->kind == W_FUTEX); }
static const char *kindName[] = { "", "mutex", "cond", "futex", "rwlock", "once", "join" };
/* The decision: which thread goes on.  m is the current one (which may have just blocked). */
static T *choose(T *m) {
  T *cand[MAXT]; int n = 0, ns = 0; T *def = m->st == RUN ? m : 0;
  for (int i = 0; i < nth; ++i) { if (th[i].st == RUN) { cand[n++] = &th[i]; if (!def) def = &th[i]; } else if (spur(&th[i])) ns++; }
  if (!def) {
    for (int i = 0; i < nth; ++i) if (th[i].st == WAIT && th[i].timed) { th[i].st = RUN; th[i].woken = 2; return &th[i]; }
    for (int i = 0; i < nth; ++i) if (th[i].st == WAIT) s_log("BLOCKED thread %d on %s", i, kindName[th[i].kind]);
    s_log("DEADLOCK %ld", decision); s_die(97);
  }
  if (n == 1 && !ns) return def;
  decision++; if (n > 1) real_++; s_step();
  T *c = def;
  if (schedList) { /* replay */
    while (li + 1 < nSched && schedList[li] < decision) li += 2;
    if (li + 1 < nSched && schedList[li] == decision) { long k = schedList[li + 1]; li += 2; if (k >= 0 && k < nth && (th[k].st == RUN || spur(&th[k]))) c = &th[k]; }
  } else if (ns && mode == 0 && rnd(rate * 24) == 0) { int k = rnd(ns); for (int i = 0; i < nth; ++i) if (spur(&th[i]) && k-- == 0) c = &th[i];
  } else if (mode == 0) { if (n > 1 && rnd(rate) == 0) c = cand[rnd(n)];
  } else if (n > 1) {
    for (int i = 0; i < nChange; ++i) if (changeAt[i] == real_) def->prio = i + 1;
    for (int i = 0; i < n; ++i) if (cand[i]->prio > c->prio) c = cand[i];
  }
  if (c != def) { s_log(c->st == WAIT ? "S %ld %d spurious" : "S %ld %d preempt", decision, c->id); ++deviations; }
  if (c->st == WAIT) { c->st = RUN; c->woken = 1; }
  pathHash = (pathHash ^ (c->id + 1)) * 1099511628211ULL;
  return c;
}
static void point(void) { T *m = self(); if (nth == 1 || noYield) return; handTo(choose(m), m, 1); }
static void yieldNow(void) { /* prefer anybody else */
  T *m = self(); if (nth == 1 || noYield) return;
  T *c = choose(m); if (c == m) for (int i = 1; i <= nth; ++i) { T *o = &th[(m->id + i) % nth]; if (o->st == RUN) { c = o; break; } }
  handTo(c, m, 1);
}
/* -> 0 woken, 1 spurious, 2 timed out */
static int block(int kind, void *addr, int timed) {
  T *m = self(); m->st = WAIT; m->kind = kind; m->addr = addr; m->timed = timed; m->woken = 0;
  T *c = choose(m); handTo(c, m, 1); int w = m->woken; m->woken = 0; return w;
}
static int wake(int kind, void *addr, int n) { int k = 0; for (int i = 0; i < nth && k < n; ++i) if (th[i].st == WAIT && th[i].kind == kind && th[i].addr == addr) { th[i].st = RUN; th[i].woken = 0; k++; } return k; }

/* ---- locks: only those that are held have an entry */
typedef struct L { void *a; int owner, count, readers; struct L *next; } L;
static L *tab[1024], *fl;
static L *look(void *a, int make) {
  unsigned h = (uint32_t)((uint32_t)((uintptr_t)a >> 3) * 2654435761u) >> 22; for (L *l = tab[h]; l; l = l->next) if (l->a == a) return l;
  if (!make) return 0;
  L *l = fl; if (l) fl = l->next; else l = s_alloc(sizeof *l);
  l->a = a; l->owner = -1; l->count = l->readers = 0; l->next = tab[h]; tab[h] = l; return l;
}
static void drop(void *a) { unsigned h = (uint32_t)((uint32_t)((uintptr_t)a >> 3) * 2654435761u) >> 22; for (L **p = &tab[h]; *p; p = &(*p)->next) if ((*p)->a == a) { L *l = *p; *p = l->next; l->next = fl; fl = l; return; } }

static int (*r_lock)(pthread_mutex_t *), (*r_trylock)(pthread_mutex_t *), (*r_unlock)(pthread_mutex_t *), (*r_cwait)(pthread_cond_t *, pthread_mutex_t *), (*r_csig)(pthread_cond_t *), (*r_cbro)(pthread_cond_t *),
  (*r_ctw)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *), (*r_ccw)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *), (*r_rd)(pthread_rwlock_t *), (*r_wr)(pthread_rwlock_t *),
  (*r_trd)(pthread_rwlock_t *), (*r_twr)(pthread_rwlock_t *), (*r_rwu)(pthread_rwlock_t *), (*r_once)(pthread_once_t *, void (*)(void)), (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *),
  (*r_join)(pthread_t, void **), (*r_detach)(pthread_t);
static void *(*r_new)(size_t);
#define REAL(v, n) (v ? v : (v = dlsym(RTLD_NEXT, n)))
#define ON (schedOn > 0 && simActive)

static int lockM(pthread_mutex_t *m, int try_) {
  T *t = self(); int kind = m->__data.__kind & 3;
  for (;;) {
    L *l = look(m, 1);
    if (l->owner < 0) { l->owner = t->id; l->count = 1; return 0; }
    if (l->owner == t->id) { if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { l->count++; return 0; } if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK; if (try_) return EBUSY; s_log("DEADLOCK %ld: thread %d locks a mutex it holds", decision, t->id); s_die(97); }
    if (try_) return EBUSY;
    block(W_MUTEX, m, 0);
  }
}
static int unlockM(pthread_mutex_t *m) {
  L *l = look(m, 0); if (!l || l->owner != self()->id) return l ? EPERM : 0;
  if (--l->count) return 0;
  drop(m); wake(W_MUTEX, m, MAXT); return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { if (!ON) return REAL(r_lock, "pthread_mutex_lock")(m); point(); return lockM(m, 0); }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!ON) return REAL(r_trylock, "pthread_mutex_trylock")(m); point(); return lockM(m, 1); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!ON) return REAL(r_unlock, "pthread_mutex_unlock")(m); int r = unlockM(m); point(); return r; }

static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int timed) {
  L *l = look(m, 0); int n = l && l->owner == self()->id ? l->count : 1;
  if (l) { l->count = 1; unlockM(m); }
  int w = block(W_COND, c, timed);
  lockM(m, 0); look(m, 1)->count = n; return w == 2 ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!ON) return REAL(r_cwait, "pthread_cond_wait")(c, m); return condWait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!ON) return REAL(r_ctw, "pthread_cond_timedwait")(c, m, t); return condWait(c, m, 1); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!ON) return REAL(r_ccw, "pthread_cond_clockwait")(c, m, k, t); return condWait(c, m, 1); }
int pthread_cond_signal(pthread_cond_t *c) { if (!ON) return REAL(r_csig, "pthread_cond_signal")(c); wake(W_COND, c, 1); point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!ON) return REAL(r_cbro, "pthread_cond_broadcast")(c); wake(W_COND, c, MAXT); point(); return 0; }

static int rw(pthread_rwlock_t *k, int write, int try_) {
  T *t = self();
  for (;;) {
    L *l = look(k, 1);
    if (write ? (l->owner < 0 && !l->readers) : l->owner < 0) { if (write) l->owner = t->id; else l->readers++; return 0; }
    if (try_) return EBUSY;
    if (l->owner == t->id) return EDEADLK;
    block(W_RW, k, 0);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *k) { if (!ON) return REAL(r_rd, "pthread_rwlock_rdlock")(k); point(); return rw(k, 0, 0); }
int pthread_rwlock_wrlock(pthread_rwlock_t *k) { if (!ON) return REAL(r_wr, "pthread_rwlock_wrlock")(k); point(); return rw(k, 1, 0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *k) { if (!ON) return REAL(r_trd, "pthread_rwlock_tryrdlock")(k); point(); return rw(k, 0, 1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *k) { if (!ON) return REAL(r_twr, "pthread_rwlock_trywrlock")(k); point(); return rw(k, 1, 1); }
int pthread_rwlock_unlock(pthread_rwlock_t *k) {
  if (!ON) return REAL(r_rwu, "pthread_rwlock_unlock")(k);
  L *l = look(k, 0); if (!l) return 0;
  if (l->owner >= 0) l->owner = -1; else if (l->readers) l->readers--;
  if (!l->readers) { drop(k); wake(W_RW, k, MAXT); }
  point(); return 0;
}

static void onceEnd(pthread_once_t ***p) { pthread_once_t *c = (pthread_once_t *)*p; drop(c); wake(W_ONCE, c, MAXT); }
int pthread_once(pthread_once_t *c, void (*f)(void)) {
  if (!ON) return REAL(r_once, "pthread_once")(c, f);
  T *t = self();
  for (;;) {
    if (*(volatile int *)c & 2) return 0;
    L *l = look(c, 1);
    if (l->owner < 0) { l->owner = t->id; break; }
    if (l->owner == t->id) { s_log("DEADLOCK %ld: once block entered twice", decision); s_die(97); }
    block(W_ONCE, c, 0);
  }
  { __attribute__((cleanup(onceEnd))) pthread_once_t **guard = (pthread_once_t **)c; (void)guard; f(); *(volatile int *)c = 2; }
  point(); return 0;
}

/* libstdc++ (futures, guards of local statics) waits through syscall(SYS_futex) */
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  long r;
  if (n == SYS_futex && ON) {
    int op = b & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point();
      if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
      int w = block(W_FUTEX, (void *)a, d != 0); if (w == 2) { errno = ETIMEDOUT; return -1; } return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { r = wake(W_FUTEX, (void *)a, (int)c < 0 ? MAXT : (int)c); point(); return r; }
  }
  r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

static void finish(void *v) { /* last destructor of the thread */
  T *m = v; m->st = DONE; wake(W_JOIN, m, MAXT);
  T *c = choose(m); leaving = m; handTo(c, m, 0);
}
static void *entry(void *v) { T *m = v; me = m; m->tid = raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); sleepHere(m); pthread_setspecific(endKey, m); m->ret = m->fn(m->arg); return m->ret; }
int pthread_create(pthread_t *p, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!ON) return REAL(r_create, "pthread_create")(p, at, fn, arg);
  self(); if (nth == MAXT) return EAGAIN;
  if (nth == 1) pthread_key_create(&endKey, finish);
  T *t = &th[nth]; memset(t, 0, sizeof *t); t->id = nth; t->fn = fn; t->arg = arg; t->prio = s_rnd(&rs) | 64;
  int r = REAL(r_create, "pthread_create")(p, at, entry, t); if (r) return r;
  t->p = *p; t->st = RUN; nth++; s_log("THREAD %d", t->id); point(); return 0;
}
int pthread_join(pthread_t p, void **v) {
  if (!ON) return REAL(r_join, "pthread_join")(p, v);
  for (int i = 1; i < nth; ++i) if (th[i].p == p && th[i].st != FREE && !th[i].detached) {
    while (th[i].st != DONE) block(W_JOIN, &th[i], 0);
    th[i].detached = 1; break;
  }
  return REAL(r_join, "pthread_join")(p, v);
}
int sched_yield(void) { if (!ON) return raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); yieldNow(); return 0; }
void schedSleep(void) { if (ON) yieldNow(); }
void schedHold(int d) { noYield += d; }
static void (*r_del)(void *), (*r_dels)(void *, size_t);
static inline int allocPoint(void) { return ON && allocRate && nth > 1 && me && !noYield && (s_rnd(&rsA) >> 20) % allocRate == 0; }
void *_Znwm(size_t n) { if (allocPoint()) point(); return REAL(r_new, "_Znwm")(n); }
void _ZdlPv(void *p) { if (allocPoint()) point(); REAL(r_del, "_ZdlPv")(p); }
void _ZdlPvm(void *p, size_t n) { if (allocPoint()) point(); REAL(r_dels, "_ZdlPvm")(p, n); }
#define AL(sym, ret, decl, use, RET) ret sym decl { static ret (*r) decl; if (allocPoint()) point(); RET REAL(r, #sym) use; }
AL(_Znam, void *, (size_t n), (n), return)
AL(_ZnwmSt11align_val_t, void *, (size_t n, size_t a), (n, a), return)
AL(_ZdaPv, void, (void *p), (p), )
AL(_ZdaPvm, void, (void *p, size_t n), (p, n), )
AL(_ZdlPvSt11align_val_t, void, (void *p, size_t a), (p, a), )
AL(_ZdlPvmSt11align_val_t, void, (void *p, size_t n, size_t a), (p, n, a), )
void schedReport(void) { if (schedOn > 0) s_log("SCHED threads %d decisions %ld choices %ld deviations %ld hash %016lx", nth, decision, real_, deviations, (unsigned long)pathHash); }
static void __attribute__((destructor)) atEnd(void) { schedReport(); }
void schedInit(void) {
  if (schedOn <= 0) return;
  rs = s_mix(schedSeed + 77); rsA = s_mix(schedSeed + 78); mode = schedMode; if (schedRate > 0) rate = schedRate; allocRate = schedAlloc;
  if (mode == 1) for (nChange = rate > 64 ? 64 : rate; li < nChange; ++li) changeAt[li] = 1 + s_rnd(&rs) % (li % 2 ? 300 : 6000);
  li = 0; self();
}
