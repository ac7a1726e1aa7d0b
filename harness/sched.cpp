// Stateless exploration of the real threads of the program under a controlled scheduler.
//
// The program under test is compiled with -fsanitize=thread but linked without libtsan: the calls the compiler inserts at
// memory accesses and atomics end here, and so do the pthread operations, sleeps and clock reads (this file defines those
// symbols in the executable, which take precedence over the C library's). Only one thread runs at a time. Before every
// synchronisation operation the scheduler may switch to another thread; each such choice is enumerated, with at most
// `bound` preemptions (or early timeouts, or spurious wake-ups) in one execution. Every execution runs in a forked child
// with a prefix of recorded choices and pushes the alternatives it finds to a shared stack. States (the partial order of
// the synchronisation events so far, with the pending operation of every thread) which were reached before with no
// higher cost are not explored again; this is sound since every execution is checked for data races.
#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>

#define MAXT 16
#define EXPORT extern "C" __attribute__((visibility("default")))
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
extern "C" char __executable_start;
extern "C" void __libc_free(void*);
extern "C" void* __libc_malloc(size_t);

static inline u64 mix(u64 a, u64 b) { u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; x *= 0x94D049BB133111EBull; x ^= x >> 29; return x; }

// ------------------------------------------------------------------------------------------------ shared exploration state
#define MAXDEV 200
struct Prefix { u16 n; u16 cost; struct { u16 idx; u8 choice; u8 pad; } dev[MAXDEV]; };
#define VIS_BITS 24
#define LEVELS 8
#define FRONT_CAP 200000
struct FailRec { char key[400]; char text[12000]; };
#define MAXFAIL 24
struct Shared {
  volatile int lock;
  volatile int running;  // executions in progress
  volatile int low;      // of them, those within the levels which must be covered
  volatile int stop;
  volatile u64 nfront[LEVELS], execs, states, events, pruned, incomplete, nfail, allfails, outcomes, maxpoints;
  FailRec fails[MAXFAIL];
  u64 outc[1 << 16];
  u64 vis[1u << VIS_BITS];
  Prefix front[LEVELS][FRONT_CAP];  // by cost: executions with fewer deviations first
};
static Shared* S;
extern u64 stk_lo, stk_hi;
static void slock() { int n = 0; while (__sync_lock_test_and_set(&S->lock, 1)) if (++n > 50) { n = 0; syscall(SYS_sched_yield); } }
static void sunlock() { __sync_lock_release(&S->lock); }

// ------------------------------------------------------------------------------------------------ execution state
enum { FREE_SLOT, RUN, WMUTEX, WCV, WSLEEP, WJOIN, WPRED, DONE };
struct Obj { void* addr; int owner, count; u32 vc[MAXT]; u64 last, racc; const char* name; };
struct Thr {
  int st, sig; int64_t deadline; void* wobj; void* wmutex; bool fired, signaled, spurious;
  int (*pred)(void*); void* parg; int jtarget; u64 wseq; int64_t prio;
  u32 vc[MAXT]; u64 last; volatile int go; pthread_t real; void* (*fn)(void*); void* arg; int quiet; int nopre;
  char *slo, *shi; const char *op; void* opobj; const char* name; bool joined, detached; int waiting_shutdown;
  u64 fstk[512]; u64 fhash[512]; int fdepth;
};
static Thr T[MAXT];
static int nT;
static __thread int self_ = -1;
static volatile int active_, multi;
static int64_t now_, idle_;  // idle_: the time which passed while every thread waited
static int64_t* clockp;
static u64 nev, wseq_ctr;
static SchedOptions opt;
static Prefix cur;         // choices to follow
static Prefix path;        // deviations taken so far
static int curcost; static u32 pidx; static int curdev;
static bool past_prefix; static bool replaying;
static struct { const void* lo; u64 size; } ranges[16]; static int nranges;
static int rt_;  // inside the scheduler: its own accesses are not checked
static const char* next_name; static int focus_ = 1;
#define NOBJ 16384
static Obj objs[NOBJ];
struct Ev { u8 tid; const char* op; void* obj; int64_t t; u64 pc; };
#define NTR 512
static Ev trace_[NTR];

static Obj* obj(void* a) {
  u64 h = mix((u64)a, 1) & (NOBJ - 1);
  for (;;) { if (objs[h].addr == a) return &objs[h]; if (!objs[h].addr) { objs[h].addr = a; objs[h].owner = -1; objs[h].last = mix(0x0b1, 0); return &objs[h]; } h = (h + 1) & (NOBJ - 1); }
}
static void futex_wait(volatile int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(volatile int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static u64 off(u64 pc) { return pc - (u64)&__executable_start; }

// ------------------------------------------------------------------------------------------------ failures
static char* put(char* p, char* e, const char* f, ...) { va_list a; va_start(a, f); int n = vsnprintf(p, e - p, f, a); va_end(a); p += n < 0 ? 0 : n; return p > e - 1 ? e - 1 : p; }
static char* put_stack(char* p, char* e, Thr& t, u64 pc) {
  p = put(p, e, "@F:%llx", (unsigned long long)off(pc));
  for (int i = t.fdepth - 1, n = 0; i >= 0 && n < 12; i--, n++) if (i < 512) p = put(p, e, ",%llx", (unsigned long long)off(t.fstk[i] - 1));
  return put(p, e, "@");
}
static const char* tname(int t) { static char b[4][32]; static int k; if (t >= 0 && T[t].name) return T[t].name; k = (k + 1) & 3; snprintf(b[k], 32, "thread%d", t); return b[k]; }
static void finish() { _exit(0); }
static void record_fail(const char* key, const char* text) {
  slock();
  S->allfails++;
  bool dup = false;
  for (u64 i = 0; i < S->nfail; i++) if (!strcmp(S->fails[i].key, key)) dup = true;
  if (!dup && S->nfail < MAXFAIL) {
    FailRec& f = S->fails[S->nfail];
    snprintf(f.key, sizeof f.key, "%s", key);
    char *p = f.text, *e = f.text + sizeof f.text;
    p = put(p, e, "%s\nschedule (choice index:option):%s%s", text, opt.lifo ? " L" : "", opt.spurious ? " S" : "");
    for (int i = 0; i < path.n; i++) p = put(p, e, "%s%d:%d", i ? "," : opt.lifo || opt.spurious ? "," : " ", path.dev[i].idx, path.dev[i].choice);
    p = put(p, e, "\nthreads:\n");
    static const char* sn[] = {"-", "ready", "waits for a mutex", "waits on a condition", "sleeps", "joins", "waits", "ended"};
    for (int i = 0; i < nT; i++) p = put(p, e, "  %s: %s%s%s\n", tname(i), sn[T[i].st], T[i].op ? " at " : "", T[i].op ? T[i].op : "");
    p = put(p, e, "last steps (time ms, thread, operation, object):\n");
    u64 from = nev > 60 ? nev - 60 : 0;
    for (u64 i = from; i < nev; i++) { Ev& v = trace_[i % NTR]; p = put(p, e, "  %.3f %s %s %p\n", v.t / 1e6, tname(v.tid), v.op, v.obj); }
    S->nfail++;
  }
  sunlock();
}
static void fail_end(const char* key, const char* text) {
  if (replaying) { fprintf(stderr, "FAIL %s\n%s\n", key, text); }
  active_ = 0;
  record_fail(key, text);
  finish();
}
EXPORT void sched_fail(const char* key, const char* fmt, ...) {
  static char b[8000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  fail_end(key, b);
}
static void on_signal(int sig) {
  static char k[600], b[2000];
  int me = self_;
  char* p = put(k, k + sizeof k, "crash:%s:", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "SIGFPE" : "signal");
  if (me >= 0) p = put_stack(p, k + sizeof k, T[me], T[me].fdepth ? T[me].fstk[T[me].fdepth - 1] : 0);
  snprintf(b, sizeof b, "the program crashed (signal %d) in thread %s", sig, tname(me));
  fail_end(k, b);
}

// ------------------------------------------------------------------------------------------------ events
static int tracing;
static int write_raw(const char* b, int n) { return syscall(SYS_write, 2, b, n); }
static void ev(Thr& t, Obj* o, const char* op, int kind, bool write = true) {
  u64 h = mix(mix(t.last, kind), now_);
  if (o) {
    if (write) { h = mix(mix(h, o->last), o->racc); o->last = h; o->racc = 0; }
    else { h = mix(h, o->last); o->racc += h; }
  }
  t.last = h;
  Ev& v = trace_[nev % NTR]; v.tid = &t - T; v.op = op; v.obj = o ? o->addr : nullptr; v.t = now_;
  nev++;
  if (replaying && tracing) { char b[300]; int n = snprintf(b, sizeof b, "%u %.3f %s %s %p%s\n", pidx, now_ / 1e6, tname(v.tid), op, v.obj, focus_ ? "" : " (unfocused)"); if (write_raw(b, n)) {} }
  if (nev > opt.max_events) fail_end("hang", "the execution does not come to an end: more synchronisation steps than the limit");
}
static bool enabled(int i) {
  Thr& t = T[i];
  switch (t.st) {
    case RUN: return true;
    case WMUTEX: { Obj* o = obj(t.wobj); return o->owner < 0 || o->owner == i; }
    case WCV: return false;
    case WSLEEP: return t.deadline <= now_;
    case WJOIN: return T[t.jtarget].st == DONE;
    case WPRED: return t.fired || t.pred(t.parg);
  }
  return false;
}
// a waiter which is woken needs its mutex before it goes on
static int64_t pseq;
static void woken(int i) { T[i].prio = ++pseq; if (T[i].st == WCV) { T[i].st = WMUTEX; T[i].wobj = T[i].wmutex; } }
static u64 state_sig(int self, bool self_enabled) {
  u64 s = mix(mix(now_, idle_), self_enabled ? self + 1 : 0);
  for (int i = 0; i < nT; i++) {
    Thr& t = T[i];
    u64 h = mix(mix(t.last, i), t.st * 8 + t.signaled * 4 + t.fired * 2);
    h = mix(h, (u64)(t.deadline - now_));
    h = mix(h, (u64)t.op);
    if (t.st == WPRED) h = mix(h, t.pred(t.parg));
    if (opt.lifo) { int rank = 0; for (int j = 0; j < nT; j++) rank += T[j].prio < t.prio; h = mix(h, rank); }
    s += h;
  }
  return s;
}
// picks one of n options; cost[0] is 0
static int choose(int n, const int* cost, int self, bool self_enabled) {
  if (n <= 1) return 0;
  u32 idx = pidx++;
  if (idx > 65000) fail_end("hang", "too many choices in one execution");
  if (curdev < cur.n) {
    if (cur.dev[curdev].idx == idx) {
      int c = cur.dev[curdev++].choice;
      if (c >= n) fail_end("internal:replay", "the recorded schedule does not fit");
      curcost += cost[c];
      path.dev[path.n].idx = idx; path.dev[path.n].choice = c; path.n++;
      return c;
    }
    return 0;
  }
  if (replaying || !focus_) return 0;
  u64 sig = state_sig(self, self_enabled) | 15;
  u64 want = (sig & ~15ull) | (u64)curcost;
  u64 h = mix(sig, 3) & ((1u << VIS_BITS) - 1);
  for (int probes = 0;; probes++) {
    u64 v = __atomic_load_n(&S->vis[h], __ATOMIC_RELAXED);
    if (!v) {
      if (probes > 4000) { S->incomplete = 1; break; }
      if (__sync_bool_compare_and_swap(&S->vis[h], 0, want)) { __sync_fetch_and_add(&S->states, 1); break; }
      continue;
    }
    if ((v | 15) == sig) {
      if ((int)(v & 15) <= curcost) { __sync_fetch_and_add(&S->pruned, 1); __sync_fetch_and_add(&S->events, nev); finish(); }
      if (__sync_bool_compare_and_swap(&S->vis[h], v, want)) break;
      continue;
    }
    h = (h + 1) & ((1u << VIS_BITS) - 1);
  }
  rt_++;
  for (int c = n - 1; c >= 1; c--) {
    if (curcost + cost[c] > opt.bound) continue;
    if (path.n >= MAXDEV) { S->incomplete = 1; continue; }
    slock();
    int l = curcost + cost[c]; if (l >= LEVELS) l = LEVELS - 1;
    if (S->nfront[l] < FRONT_CAP) {
      Prefix& p = S->front[l][S->nfront[l]++];
      p.n = path.n + 1; p.cost = curcost + cost[c];
      memcpy(p.dev, path.dev, sizeof(path.dev[0]) * path.n);
      p.dev[path.n].idx = idx; p.dev[path.n].choice = c;
    } else S->incomplete = 1;
    sunlock();
  }
  rt_--;
  return 0;
}
static void set_now(int64_t t) { if (t > now_) { now_ = t; if (clockp) __atomic_store_n(clockp, 1000000000000ll + now_, __ATOMIC_RELAXED); } }
static void give(int n) {
  int me = self_;
  if (n == me) return;
  T[n].go = 1; futex_wake(&T[n].go);
  if (T[me].st == DONE) return;
  while (!T[me].go) futex_wait(&T[me].go, 0);
  T[me].go = 0;
}
// the running thread gives way (or, when enabled, may give way)
static void resched(bool self_enabled) {
  int me = self_;
  if (self_enabled && T[me].nopre) return;
  int tid[3 * MAXT], kind[3 * MAXT], cost[3 * MAXT], n = 0;
  if (self_enabled) { tid[n] = me; kind[n] = 0; cost[n++] = 0; }
  for (int k = 1; k <= nT; k++) {
    int i = (me + k) % nT;
    if (i == me && self_enabled) continue;
    if (!enabled(i)) continue;
    tid[n] = i; kind[n] = 0; n++;
  }
  // lifo: the thread which was woken last goes first, one which was held back last
  if (opt.lifo) for (int a = self_enabled ? 1 : 0; a < n; a++) for (int b = a; b > (self_enabled ? 1 : 0) && T[tid[b]].prio > T[tid[b - 1]].prio; b--) { int x = tid[b]; tid[b] = tid[b - 1]; tid[b - 1] = x; }
  for (int a = 0; a < n; a++) cost[a] = a == 0 ? 0 : self_enabled ? 1 : opt.block_cost;
  int64_t md = -1;
  for (int i = 0; i < nT; i++) if ((T[i].st == WCV || T[i].st == WSLEEP || T[i].st == WPRED) && T[i].deadline >= 0 && !enabled(i)) if (md < 0 || T[i].deadline < md) md = T[i].deadline;
  bool none = n == 0;
  if (md >= 0) for (int k = 1; k <= nT; k++) {
    int i = (me + k) % nT;
    if ((T[i].st == WCV || T[i].st == WSLEEP || T[i].st == WPRED) && T[i].deadline == md && !enabled(i)) { tid[n] = i; kind[n] = 1; cost[n] = none ? (n == 0 ? 0 : opt.block_cost) : 1; n++; }
  }
  for (int i = 0; i < nT; i++) if (!none && T[i].st == WCV && T[i].spurious && !enabled(i)) { tid[n] = i; kind[n] = 2; cost[n++] = 1; }
  if (n == 0) {
    bool alldone = true;
    for (int i = 0; i < nT; i++) if (T[i].st != DONE) alldone = false;
    if (alldone) finish();
    fail_end("deadlock", "every thread waits and none can go on");
  }
  int c = choose(n, cost, me, self_enabled);
  int i = tid[c];
  if (c > 0 && !none) T[tid[0]].prio = -(++pseq);
  if (T[i].prio < 0) T[i].prio = 0;
  if (kind[c] == 1) {
    if (none && md > now_) idle_ += md - now_;
    set_now(md);
    if (now_ > 900ll * 1000000000) fail_end("hang", "the execution does not come to an end (900 s of virtual time)");
    for (int j = 0; j < nT; j++) if ((T[j].st == WCV || T[j].st == WPRED) && T[j].deadline >= 0 && T[j].deadline <= now_) { T[j].fired = true; woken(j); }
    for (int j = 0; j < nT; j++) if (T[j].st == WSLEEP && T[j].deadline <= now_ && T[j].prio >= 0) T[j].prio = ++pseq;
  } else if (kind[c] == 2) { T[i].signaled = true; woken(i); }
  if (!enabled(i)) { resched(self_enabled); return; }  // woken, but its mutex is taken
  give(i);
}
static bool on() { return active_ && self_ >= 0 && !T[self_].quiet && multi; }
static void point(const char* op, void* o) { Thr& t = T[self_]; t.op = op; t.opobj = o; resched(true); }
static void acq(Thr& t, Obj* o) { for (int i = 0; i < MAXT; i++) if (o->vc[i] > t.vc[i]) t.vc[i] = o->vc[i]; }
static void rel(Thr& t, Obj* o) { for (int i = 0; i < MAXT; i++) if (t.vc[i] > o->vc[i]) o->vc[i] = t.vc[i]; t.vc[&t - T]++; }
static void check_live(void* p, const char* what);

// ------------------------------------------------------------------------------------------------ pthread operations
static int do_lock(pthread_mutex_t* m, bool try_) {
  if (!active_ || self_ < 0) { return 0; }
  Thr& t = T[self_];
  if (t.quiet) return 0;
  check_live(m, "mutex");
  Obj* o = obj(m);
  bool rec = (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (multi) point(try_ ? "trylock" : "lock", m);
  if (o->owner == self_) {
    if (rec) { o->count++; return 0; }
    if (try_) return EBUSY;
    char k[600]; char* p = put(k, k + sizeof k, "deadlock:self:"); put_stack(p, k + sizeof k, t, t.fdepth ? t.fstk[t.fdepth - 1] : 0);
    fail_end(k, "a thread locks a mutex it already holds");
  }
  if (o->owner >= 0) {
    if (try_) { ev(t, o, "trylock fails", 3); return EBUSY; }
    t.st = WMUTEX; t.wobj = m; t.op = "lock";
    resched(false);
    t.st = RUN;
  }
  o->owner = self_; o->count = 1;
  ev(t, o, "lock", 1); acq(t, o);
  return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { return do_lock(m, false); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) { return do_lock(m, true); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return do_lock(m, false); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return do_lock(m, false); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active_ || self_ < 0) return 0;
  Thr& t = T[self_];
  if (t.quiet) return 0;
  check_live(m, "mutex");
  Obj* o = obj(m);
  if (o->owner != self_) { if (o->owner < 0 && !multi) return 0; fail_end("unlock", "a thread unlocks a mutex it does not hold"); }
  if (--o->count) return 0;
  ev(t, o, "unlock", 2); rel(t, o);
  o->owner = -1;
  return 0;
}
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  if (!active_ || self_ < 0) return 0;
  Thr& t = T[self_];
  check_live(c, "condition variable"); check_live(m, "mutex");
  Obj *oc = obj(c), *om = obj(m);
  point("cond wait", c);
  if (om->owner != self_) fail_end("cond-wait", "wait on a condition with a mutex that is not held");
  ev(t, oc, "wait begins", 4);
  int cnt = om->count;
  ev(t, om, "unlock", 2); rel(t, om); om->owner = -1;
  t.st = WCV; t.wobj = c; t.wmutex = m; t.deadline = deadline; t.fired = t.signaled = false; t.op = "cond wait"; t.wseq = ++wseq_ctr;
  t.spurious = opt.spurious;
  resched(false);
  bool fired = t.fired && !t.signaled;
  t.st = RUN; t.deadline = -1; t.fired = t.signaled = false;
  om->owner = self_; om->count = cnt;
  ev(t, oc, fired ? "wait timed out" : "wait ends", 5 + fired);
  ev(t, om, "lock", 1); acq(t, om);
  return fired ? ETIMEDOUT : 0;
}
static int64_t vt(const struct timespec* ts) { return (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec - 1000000000000ll; }
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cv_wait(c, m, -1); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { int64_t d = vt(ts); return cv_wait(c, m, d < 0 ? 0 : d); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { int64_t d = vt(ts); return cv_wait(c, m, d < 0 ? 0 : d); }
static int cv_signal(pthread_cond_t* c, bool all) {
  if (!active_ || self_ < 0 || !multi) return 0;
  Thr& t = T[self_];
  if (t.quiet) return 0;
  check_live(c, "condition variable");
  point(all ? "notify all" : "notify one", c);
  Obj* o = obj(c);
  ev(t, o, all ? "notify all" : "notify one", 7 + all);
  int w[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (T[i].st == WCV && T[i].wobj == c && !T[i].signaled && !T[i].fired) w[n++] = i;
  if (!n) return 0;
  if (all) { for (int i = 0; i < n; i++) { T[w[i]].signaled = true; woken(w[i]); } return 0; }
  int cost[MAXT] = {0};
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (T[w[j]].wseq < T[w[i]].wseq) { int x = w[i]; w[i] = w[j]; w[j] = x; }
  int c1 = w[choose(n, cost, self_, true)];
  T[c1].signaled = true; woken(c1);
  return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) { return cv_signal(c, false); }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { return cv_signal(c, true); }
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  if (!active_ || self_ < 0) return 0;
  for (int i = 0; i < nT; i++) if (T[i].st == WCV && T[i].wobj == c && !T[i].signaled && !T[i].fired) fail_end("cond-destroyed", "a condition variable is destroyed while a thread waits on it");
  return 0;
}
static void* tramp(void* a) {
  int me = (int)(intptr_t)a;
  self_ = me;
  while (!T[me].go) futex_wait(&T[me].go, 0);
  T[me].go = 0;
  char here; T[me].shi = (char*)(((u64)&here + 65536) & ~4095ull); T[me].slo = &here - (8 << 20); if ((u64)T[me].slo < stk_lo) stk_lo = (u64)T[me].slo; if ((u64)T[me].shi > stk_hi) stk_hi = (u64)T[me].shi;
  ev(T[me], nullptr, "begins", 10);
  void* r = T[me].fn(T[me].arg);
  T[me].st = DONE; T[me].op = nullptr;
  ev(T[me], nullptr, "ends", 11);
  T[me].vc[me]++;
  resched(false);
  return r;
}
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
static int (*real_detach)(pthread_t);
EXPORT int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
  if (!active_ || self_ < 0) return real_create(th, at, fn, arg);
  if (nT >= MAXT) fail_end("internal:threads", "too many threads");
  Thr& t = T[self_];
  if (multi) point("create thread", nullptr);
  rt_++;
  int id = nT++;
  Thr& c = T[id];
  memset(&c, 0, sizeof c);
  c.fn = fn; c.arg = arg; c.st = RUN; c.deadline = -1; c.op = "begin"; c.name = next_name; next_name = nullptr;
  memcpy(c.vc, t.vc, sizeof c.vc); c.vc[id] = 1;
  t.vc[self_]++;  // what the creator does from here on is concurrent with the new thread
  ev(t, nullptr, "create thread", 12);
  c.last = mix(t.last, id + 100);
  rt_--;
  multi = 1;
  int r = real_create(&c.real, nullptr, tramp, (void*)(intptr_t)id);
  if (r) fail_end("internal:create", "pthread_create failed");
  *th = c.real;
  point("thread created", nullptr);
  return 0;
}
EXPORT int pthread_join(pthread_t th, void** ret) {
  if (!real_join) real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
  if (!active_ || self_ < 0) return real_join(th, ret);
  int id = -1;
  for (int i = 0; i < nT; i++) if (pthread_equal(T[i].real, th) && i && !T[i].joined) id = i;
  if (id < 0) fail_end("join", "join of a thread which does not exist");
  if (id == self_) fail_end("join", "a thread joins itself");
  Thr& t = T[self_];
  point("join", nullptr);
  if (T[id].st != DONE) { t.st = WJOIN; t.jtarget = id; t.op = "join"; resched(false); t.st = RUN; }
  ev(t, nullptr, "joined", 13); t.last = mix(t.last, T[id].last);
  for (int i = 0; i < MAXT; i++) if (T[id].vc[i] > t.vc[i]) t.vc[i] = T[id].vc[i];
  T[id].joined = true;
  return real_join(th, ret);
}
EXPORT int pthread_detach(pthread_t th) {
  if (!real_detach) real_detach = (decltype(real_detach))dlsym(RTLD_NEXT, "pthread_detach");
  return real_detach(th);
}
EXPORT void sched_sleep(int64_t ns) {
  if (!active_ || self_ < 0 || !multi) { if (ns > 0) set_now(now_ + ns); return; }
  Thr& t = T[self_];
  if (t.quiet) return;
  ev(t, nullptr, "sleep", 14);
  t.st = WSLEEP; t.deadline = now_ + (ns > 1000 ? ns : 1000); t.op = "sleep";
  resched(false);
  t.st = RUN; t.deadline = -1;
  ev(t, nullptr, "wakes", 15);
}
EXPORT int nanosleep(const struct timespec* a, struct timespec*) { sched_sleep(a->tv_sec * 1000000000ll + a->tv_nsec); return 0; }
EXPORT int clock_nanosleep(clockid_t, int flags, const struct timespec* a, struct timespec*) { sched_sleep(flags & TIMER_ABSTIME ? vt(a) - now_ : a->tv_sec * 1000000000ll + a->tv_nsec); return 0; }
EXPORT int usleep(useconds_t u) { sched_sleep(u * 1000ll); return 0; }
EXPORT unsigned sleep(unsigned s) { sched_sleep(s * 1000000000ll); return 0; }
EXPORT int sched_yield() { sched_sleep(1000); return 0; }
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!active_ || self_ < 0) return syscall(SYS_clock_gettime, c, ts);
  int64_t n = now_ + 1000000000000ll; ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0;
}
// ------------------------------------------------------------------------------------------------ modelled primitives
EXPORT void sched_quiet_begin() { if (self_ >= 0) T[self_].quiet++; }
EXPORT void sched_quiet_end() { if (self_ >= 0) T[self_].quiet--; }
EXPORT int sched_active() { return active_; }
EXPORT int sched_self() { return self_; }
EXPORT int64_t sched_now() { return now_; }
EXPORT void sched_point(const char* what, void* o) { if (!on()) return; point(what, o); ev(T[self_], o ? obj(o) : nullptr, what, 20); }
EXPORT void sched_acquire(void* o) { if (active_ && self_ >= 0) acq(T[self_], obj(o)); }
EXPORT void sched_release(void* o) { if (active_ && self_ >= 0) rel(T[self_], obj(o)); }
EXPORT int sched_block(int (*pred)(void*), void* arg, int64_t timeout, const char* what) {
  Thr& t = T[self_];
  point(what, arg);
  ev(t, arg ? obj(arg) : nullptr, what, 21);
  if (pred(arg)) return 1;
  t.st = WPRED; t.pred = pred; t.parg = arg; t.deadline = timeout < 0 ? -1 : now_ + timeout; t.fired = false; t.op = what;
  resched(false);
  t.st = RUN; t.deadline = -1; t.fired = false;
  int r = pred(arg);
  ev(t, arg ? obj(arg) : nullptr, "goes on", 22 + r);
  return r;
}
EXPORT void sched_atomic_range(const void* lo, uint64_t size) { if (nranges < 16) { ranges[nranges].lo = lo; ranges[nranges++].size = size; } }
EXPORT void sched_name(const char* n) { T[self_].name = n; }
EXPORT void sched_name_next(const char* n) { next_name = n; }
EXPORT void sched_set_clock(void* p) { clockp = (int64_t*)p; *clockp = 1000000000000ll + now_; }
EXPORT int64_t sched_idle() { return idle_; }
EXPORT void sched_focus(int o) { focus_ = o; }
EXPORT int sched_live() { int n = 0; for (int i = 0; i < nT; i++) if (i != self_ && T[i].st != DONE) n++; return n; }
EXPORT void sched_no_preempt(int o) { T[self_].nopre += o ? 1 : -1; }
EXPORT void sched_outcome(uint64_t h) {
  h |= 1;
  u64 i = mix(h, 5) & 0xffff;
  for (int k = 0; k < 64; k++, i = (i + 1) & 0xffff) {
    u64 v = S->outc[i];
    if (v == h) return;
    if (!v && __sync_bool_compare_and_swap(&S->outc[i], 0, h)) { __sync_fetch_and_add(&S->outcomes, 1); return; }
    if (S->outc[i] == h) return;
  }
}
// ------------------------------------------------------------------------------------------------ memory accesses
struct Acc { u32 clk; u8 tid, mask, write, used; u32 dep; };  // 12 bytes
struct Cell { Acc a[5]; u32 freed; };  // 64 bytes
static_assert(sizeof(Cell) == 64, "");
static Cell** l1;
#define L1BITS 24  // address bits 24..47
#define NDEP 65536
struct Dep { u64 pc; u64 fr[8]; };
static Dep deps[NDEP];
static u32 depot(Thr& t, u64 pc) {
  u64 h = mix(pc, t.fdepth ? t.fhash[t.fdepth < 512 ? t.fdepth - 1 : 511] : 0);
  u32 i = h & (NDEP - 1); if (!i) i = 1;
  for (int k = 0; k < 32; k++) {
    Dep& d = deps[i];
    if (!d.pc) { d.pc = pc; for (int j = 0; j < 8; j++) { int x = t.fdepth - 1 - j; d.fr[j] = x >= 0 && x < 512 ? t.fstk[x] : 0; } return i; }
    if (d.pc == pc) { bool same = true; for (int j = 0; j < 8; j++) { int x = t.fdepth - 1 - j; if (d.fr[j] != (x >= 0 && x < 512 ? t.fstk[x] : 0)) { same = false; break; } } if (same) return i; }
    i = (i + 1) & (NDEP - 1); if (!i) i = 1;
  }
  return i;
}
static char* put_dep(char* p, char* e, u32 d) {
  p = put(p, e, "@F:%llx", (unsigned long long)off(deps[d].pc - 1));
  for (int j = 0; j < 8; j++) if (deps[d].fr[j]) p = put(p, e, ",%llx", (unsigned long long)off(deps[d].fr[j] - 1));
  return put(p, e, "@");
}
static Cell* cell(u64 a) {
  u64 hi = a >> 24; if (hi >= (1ull << L1BITS)) return nullptr;
  Cell*& l2 = l1[hi];
  if (!l2) { l2 = (Cell*)mmap(nullptr, sizeof(Cell) << 21, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (l2 == MAP_FAILED) { l2 = nullptr; return nullptr; } }
  return &l2[(a >> 3) & ((1 << 21) - 1)];
}
// what a thread accessed lately, in its current step: nothing new to record
struct Recent { u64 g; u32 clk; u8 r, w, tid; };
static Recent recent[8192];
static Recent& recent_of(int me, u64 g) { return recent[((g >> 3) ^ (me << 10)) & 8191]; }
u64 stk_lo = ~0ull, stk_hi;
static bool on_stack(u64 a) { if (a < stk_lo || a >= stk_hi) return false; for (int i = 0; i < nT; i++) if ((char*)a >= T[i].slo && (char*)a < T[i].shi) return true; return false; }
static void report_race(Acc& o, Thr& t, bool w, u64 pc, u64 addr) {
  static char k[900], b[3000], s1[400], s2[400];
  u32 d = depot(t, pc);
  put_dep(s1, s1 + sizeof s1, o.dep); put_dep(s2, s2 + sizeof s2, d);
  snprintf(k, sizeof k, "race:%s:%s", s1, s2);
  snprintf(b, sizeof b, "unsynchronised access to the same memory:\n  %s by thread %s in %s\n  %s by thread %s in %s", o.write ? "write" : "read", tname(o.tid), s1, w ? "write" : "read", tname(&t - T), s2);
  fail_end(k, b);
}
static inline void access(u64 addr, u64 size, bool w, u64 pc) {
  if (!multi || !active_ || self_ < 0 || rt_) return;
  int me = self_;
  Thr& t = T[me];
  if (t.quiet) return;
  if ((char*)addr >= t.slo && (char*)addr < t.shi) return;
  u64 end = addr + size;
  if (on_stack(addr)) return;
  for (u64 g = addr & ~7ull; g < end; g += 8) {
    u8 m = 0xff;
    if (g < addr) m &= 0xff << (addr - g);
    if (g + 8 > end) m &= 0xff >> (g + 8 - end);
    Recent& rc = recent_of(me, g);
    if (rc.g == g && rc.tid == me && rc.clk == t.vc[me]) { if (!(m & ~(w ? rc.w : (u8)(rc.r | rc.w)))) continue; }
    else { rc.g = g; rc.tid = me; rc.clk = t.vc[me]; rc.r = rc.w = 0; }
    Cell* c = cell(g);
    if (!c) return;
    if (c->freed) {
      static char k[900], b[2000], s1[400], s2[400];
      put_dep(s1, s1 + sizeof s1, c->freed); put_dep(s2, s2 + sizeof s2, depot(t, pc));
      snprintf(k, sizeof k, "use-after-free:%s", s2);
      snprintf(b, sizeof b, "memory is used after it was freed: thread %s in %s; freed in %s", tname(me), s2, s1);
      fail_end(k, b);
    }
    int slot = -1, old = -1; bool done = false;
    for (int i = 0; i < 5; i++) {
      Acc& a = c->a[i];
      if (!a.used) { if (slot < 0) slot = i; continue; }
      if (a.tid == me) {
        if (a.clk == t.vc[me] && (a.mask & m) == m && (a.write || !w)) { done = true; break; }
        if (!(a.mask & ~m) && (w || !a.write)) slot = i;
        else if (old < 0 && a.write == w) old = i;
        continue;
      }
      if ((a.mask & m) && (a.write || w) && a.clk > t.vc[a.tid]) report_race(a, t, w, pc, g);
      if (a.clk <= t.vc[a.tid] && !(a.mask & ~m) && (w || !a.write)) slot = i;
      else if (old < 0 && a.clk <= t.vc[a.tid]) old = i;
    }
    (w ? rc.w : rc.r) |= m;
    if (done) continue;
    if (slot < 0) slot = old >= 0 ? old : (int)(mix(nev, g) % 5);
    Acc& a = c->a[slot];
    a.tid = me; a.clk = t.vc[me]; a.mask = m; a.write = w; a.used = 1; a.dep = depot(t, pc);
  }
}
static void check_live(void* p, const char* what) {
  if (!multi || !l1 || on_stack((u64)p)) return;
  if ((u64)p < 65536) { char k[700]; char* q = put(k, k + sizeof k, "crash:null:"); Thr& t = T[self_]; put_stack(q, k + sizeof k, t, t.fdepth ? t.fstk[t.fdepth - 1] : 0); fail_end(k, "a mutex or condition variable is used which does not exist"); }
  Cell* c = cell((u64)p);
  if (c && c->freed) { char k[700], b[300]; char* q = put(k, k + sizeof k, "use-after-free:"); Thr& t = T[self_]; put_stack(q, k + sizeof k, t, t.fdepth ? t.fstk[t.fdepth - 1] : 0); snprintf(b, sizeof b, "a %s is used after it was destroyed, by thread %s", what, tname(self_)); fail_end(k, b); }
}
#define RA ((u64)__builtin_return_address(0))
#define RW(n) EXPORT void __tsan_read##n(void* a) { access((u64)a, n, false, RA); } EXPORT void __tsan_write##n(void* a) { access((u64)a, n, true, RA); } \
  EXPORT void __tsan_unaligned_read##n(void* a) { access((u64)a, n, false, RA); } EXPORT void __tsan_unaligned_write##n(void* a) { access((u64)a, n, true, RA); } \
  EXPORT void __tsan_volatile_read##n(void* a) { access((u64)a, n, false, RA); } EXPORT void __tsan_volatile_write##n(void* a) { access((u64)a, n, true, RA); } \
  EXPORT void __tsan_read##n##_pc(void* a, void* p) { access((u64)a, n, false, (u64)p); } EXPORT void __tsan_write##n##_pc(void* a, void* p) { access((u64)a, n, true, (u64)p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* a, unsigned long n) { if (n) access((u64)a, n, false, RA); }
EXPORT void __tsan_write_range(void* a, unsigned long n) { if (n) access((u64)a, n, true, RA); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((u64)p, 8, true, RA); }
EXPORT void __tsan_vptr_read(void** p) { access((u64)p, 8, false, RA); }
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void* pc) {
  if (self_ < 0) return;
  Thr& t = T[self_];
  if (t.fdepth < 512) { t.fstk[t.fdepth] = (u64)pc; t.fhash[t.fdepth] = mix(t.fdepth ? t.fhash[t.fdepth - 1] : 7, (u64)pc); }
  t.fdepth++;
}
EXPORT void __tsan_func_exit() { if (self_ >= 0 && T[self_].fdepth > 0) T[self_].fdepth--; }
// atomics
static bool in_range(void* a) { for (int i = 0; i < nranges; i++) if ((char*)a >= (char*)ranges[i].lo && (char*)a < (char*)ranges[i].lo + ranges[i].size) return true; return false; }
static void at_pre(void* a, const char* op, u64 pc) {
  if (!on()) return;
  check_live(a, "atomic");
  if (in_range(a)) point(op, a);
}
static void at_post(void* a, const char* op, int kind, bool w, int mo, bool r) {
  if (!on()) return;
  Obj* o = obj(a); Thr& t = T[self_];
  if (in_range(a)) ev(t, o, op, kind, w);
  if (r && mo != 0 && mo != 3) acq(t, o);
  if (w && mo >= 3) rel(t, o);
}
#define AT(bits, ty) \
  EXPORT ty __tsan_atomic##bits##_load(const volatile ty* a, int mo) { at_pre((void*)a, "load", RA); ty v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_post((void*)a, "load", 30 + (bits <= 32 ? (int)v * 64 : 0), false, mo, true); return v; } \
  EXPORT void __tsan_atomic##bits##_store(volatile ty* a, ty v, int mo) { at_pre((void*)a, "store", RA); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); at_post((void*)a, "store", 31, true, mo, false); } \
  EXPORT ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int mo) { at_pre((void*)a, "exchange", RA); ty r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); at_post((void*)a, "exchange", 32, true, mo, true); return r; } \
  EXPORT ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int mo) { at_pre((void*)a, "add", RA); ty r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); at_post((void*)a, "add", 33, true, mo, true); return r; } \
  EXPORT ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int mo) { at_pre((void*)a, "sub", RA); ty r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); at_post((void*)a, "sub", 34, true, mo, true); return r; } \
  EXPORT ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int mo) { at_pre((void*)a, "and", RA); ty r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); at_post((void*)a, "and", 35, true, mo, true); return r; } \
  EXPORT ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int mo) { at_pre((void*)a, "or", RA); ty r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); at_post((void*)a, "or", 36, true, mo, true); return r; } \
  EXPORT ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int mo) { at_pre((void*)a, "xor", RA); ty r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); at_post((void*)a, "xor", 37, true, mo, true); return r; } \
  EXPORT ty __tsan_atomic##bits##_fetch_nand(volatile ty* a, ty v, int mo) { at_pre((void*)a, "nand", RA); ty r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); at_post((void*)a, "nand", 37, true, mo, true); return r; } \
  EXPORT bool __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* e, ty v, int mo, int fmo) { at_pre((void*)a, "cas", RA); bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_post((void*)a, "cas", 38 + r, true, mo, true); return r; } \
  EXPORT bool __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* e, ty v, int mo, int fmo) { at_pre((void*)a, "cas", RA); bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_post((void*)a, "cas", 38 + r, true, mo, true); return r; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
EXPORT void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
EXPORT void __tsan_atomic_signal_fence(int) {}
// initialisation of local statics
EXPORT int __cxa_guard_acquire(u64* g) {
  volatile char* b = (volatile char*)g;
  if (b[0]) { if (active_ && self_ >= 0) acq(T[self_], obj(g)); return 0; }
  if (b[1] && active_ && self_ >= 0) {
    sched_block([](void* p) -> int { return ((volatile char*)p)[0] || !((volatile char*)p)[1]; }, g, -1, "static initialisation");
    if (b[0]) { acq(T[self_], obj(g)); return 0; }
  }
  b[1] = 1;
  return 1;
}
EXPORT void __cxa_guard_release(u64* g) { volatile char* b = (volatile char*)g; b[0] = 1; b[1] = 0; if (active_ && self_ >= 0) rel(T[self_], obj(g)); }
EXPORT void __cxa_guard_abort(u64* g) { ((volatile char*)g)[1] = 0; }
// memory is never reused once threads exist, so that every later use of it is seen
EXPORT void free(void* p) {
  if (!p) return;
  if (!multi || !active_ || self_ < 0) { if (!multi) __libc_free(p); return; }
  Thr& t = T[self_];
  u64 n = malloc_usable_size(p);
  if (!t.quiet && n <= (1 << 22)) {
    u64 pc = RA;
    access((u64)p, n, true, pc);
    u32 d = depot(t, pc);
    for (u64 g = (u64)p & ~7ull; g < (u64)p + n; g += 8) { Cell* c = cell(g); if (c) c->freed = d; Recent& rc = recent_of(self_, g); if (rc.g == g) rc.g = 0; }
  }
}
EXPORT void* realloc(void* p, size_t n) {
  if (!p) return __libc_malloc(n);
  size_t o = malloc_usable_size(p);
  void* q = __libc_malloc(n);
  if (!q) return q;
  size_t k = o < n ? o : n;
  { void* d = q; const void* s = p; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(k) : : "memory"); }
  free(p);
  return q;
}
EXPORT void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
  if (multi && n) { u64 pc = RA; access((u64)s, n, false, pc); access((u64)d, n, true, pc); }
  void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r;
}
EXPORT void* memmove(void* d, const void* s, size_t n) {
  if (multi && n) { u64 pc = RA; access((u64)s, n, false, pc); access((u64)d, n, true, pc); }
  void* r = d;
  if ((u64)d - (u64)s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else { d = (char*)d + n - 1; s = (const char*)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
  return r;
}
EXPORT void* memset(void* d, int v, size_t n) {
  if (multi && n) access((u64)d, n, true, RA);
  void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r;
}

// ------------------------------------------------------------------------------------------------ exploration
static double real_now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void run_child(void (*body)(int), int scenario) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (!replaying) alarm(30);  // a child which blocks for real, not through the scheduler
  l1 = (Cell**)mmap(nullptr, sizeof(Cell*) << L1BITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_signal);
  self_ = 0; nT = 1;
  memset(&T[0], 0, sizeof T[0]);
  T[0].st = RUN; T[0].deadline = -1; T[0].name = "main"; T[0].vc[0] = 1;
  char here; T[0].shi = (char*)&here + (1 << 20); T[0].slo = &here - (8 << 20); stk_lo = (u64)T[0].slo; stk_hi = (u64)T[0].shi;
  now_ = idle_ = pseq = 0; path.n = 0; curcost = 0; pidx = 0; curdev = 0;
  active_ = 1;
  body(scenario);
  if (!replaying) {
    __sync_fetch_and_add(&S->events, nev);
    u64 m = S->maxpoints; while (pidx > m && !__sync_bool_compare_and_swap(&S->maxpoints, m, (u64)pidx)) m = S->maxpoints;
  }
  active_ = 0;
  finish();
}
static bool waiting(int upto = LEVELS - 1) { for (int l = 0; l <= upto; l++) if (S->nfront[l]) return true; return false; }
static void worker(void (*body)(int), int scenario, double until) {
  for (;;) {
    if (S->stop) return;
    Prefix p; bool have = false;
    slock();
    for (int l = 0; l < LEVELS && !have; l++) if (S->nfront[l]) { p = S->front[l][--S->nfront[l]]; have = true; S->running++; if (l <= opt.must) S->low++; }
    int running = S->running;
    sunlock();
    if (!have) { if (!running) return; struct timespec ts = {0, 300000}; syscall(SYS_nanosleep, &ts, nullptr); continue; }
    pid_t c = fork();
    if (c == 0) { cur = p; run_child(body, scenario); }
    int st = 0;
    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
    __sync_fetch_and_add(&S->execs, 1);
    if (killed) { path = p; nT = 0; nev = 0; record_fail("hang:real", "an execution did not finish within 30 s"); }
    else if (WIFSIGNALED(st)) { char b[100]; snprintf(b, sizeof b, "the execution was ended by signal %d", WTERMSIG(st)); path = p; nT = 0; nev = 0; record_fail("crash:killed", b); }
    else if (WIFEXITED(st) && WEXITSTATUS(st)) { char b[100]; snprintf(b, sizeof b, "the program ended with status %d", WEXITSTATUS(st)); path = p; nT = 0; nev = 0; record_fail("crash:exit", b); }
    static double shown = real_now();
    if (getenv("SCHED_PROGRESS") && real_now() - shown > 3) { shown = real_now(); fprintf(stderr, "execs %lu pruned %lu events %lu fails %lu low %d open", (unsigned long)S->execs, (unsigned long)S->pruned, (unsigned long)S->events, (unsigned long)S->nfail, (int)S->low); for (int l = 0; l < LEVELS; l++) fprintf(stderr, " %lu", (unsigned long)S->nfront[l]); fprintf(stderr, "  prefix cost %d length %d\n", (int)p.cost, (int)p.n); }
    slock(); S->running--; if (p.cost <= opt.must) S->low--;
    if (S->nfail >= MAXFAIL || S->allfails >= 100) S->stop = 1;
    if (real_now() > until && waiting() && (!(waiting(opt.must) || S->low > 0) || real_now() > until + 400)) { S->stop = 1; S->incomplete = 1; }
    sunlock();
  }
}
// "@F:a,b,c@" -> "function (file:line) < caller ...", or only the innermost function of the repository for keys
static std::string addr_chain(const std::string& list, bool key) {
  char exe[500]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return list; exe[n] = 0;
  std::string cmd = std::string("addr2line -i -f -C -e '") + exe + "'";
  size_t i = 0;
  while (i < list.size()) { size_t j = list.find(',', i); if (j == std::string::npos) j = list.size(); cmd += " 0x" + list.substr(i, j - i); i = j + 1; }
  FILE* f = popen(cmd.c_str(), "r"); if (!f) return list;
  std::string out, first; char l1b[4000], l2b[4000]; int k = 0;
  while (fgets(l1b, sizeof l1b, f) && fgets(l2b, sizeof l2b, f)) {
    std::string fn(l1b), loc(l2b); while (!fn.empty() && fn.back() == '\n') fn.pop_back(); while (!loc.empty() && loc.back() == '\n') loc.pop_back();
    bool repo = (loc.find("/avoidance/") != std::string::npos || loc.find("_planner/") != std::string::npos) && loc.find("/shim/") == std::string::npos && loc.find("/harness/") == std::string::npos && loc.find("/build/gen") == std::string::npos && loc.find("/usr/") == std::string::npos;
    size_t par = fn.find('('); std::string sf = fn.substr(0, par);
    size_t sl = loc.rfind('/'); std::string sloc = sl == std::string::npos ? loc : loc.substr(sl + 1);
    if (repo) { if (first.empty()) first = sf; if (k++ < 4) out += (out.empty() ? "" : " < ") + sf + " (" + sloc + ")"; }
  }
  pclose(f);
  if (first.empty()) first = "?";
  if (key) { std::string r; for (char c : first) r += isalnum((unsigned char)c) || c == '_' || c == ':' || c == '~' ? c : '_'; return r; }
  return out.empty() ? "?" : out;
}
static std::string symbolise(const std::string& s, bool key) {
  std::string r; size_t i = 0;
  for (;;) {
    size_t a = s.find("@F:", i);
    if (a == std::string::npos) { r += s.substr(i); return r; }
    size_t e = s.find('@', a + 3);
    if (e == std::string::npos) { r += s.substr(i); return r; }
    r += s.substr(i, a - i); r += addr_chain(s.substr(a + 3, e - a - 3), key); i = e + 1;
  }
}
SchedStats sched_explore(void (*body)(int), int scenario, const SchedOptions& o, sched_report_t report) {
  opt = o;
  if (!real_create) real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
  if (!real_join) real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
  mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 30);
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); _exit(9); }
  S->nfront[0] = 1;  // the empty prefix: no deviation from the default schedule
  double until = real_now() + o.seconds;
  fflush(nullptr);
  std::vector<pid_t> ws;
  for (int i = 0; i < o.workers; i++) { pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(body, scenario, until); _exit(0); } ws.push_back(p); }
  for (pid_t p : ws) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  SchedStats r; r.execs = S->execs; r.states = S->states; r.events = S->events; r.pruned = S->pruned; r.fails = S->nfail; r.outcomes = S->outcomes; r.maxpoints = S->maxpoints; r.complete = !S->incomplete && !waiting();
  r.full = o.bound; for (int l = LEVELS - 1; l >= 0; l--) if (S->nfront[l]) r.full = l - 1;
  for (u64 i = 0; i < S->nfail; i++) {
    std::string k = symbolise(S->fails[i].key, true), t = symbolise(S->fails[i].text, false);
    // both orders of a race are one race
    if (k.compare(0, 5, "race:") == 0) {
      std::string b = k.substr(5); size_t m = std::string::npos;
      for (size_t j = 0; j + 1 < b.size(); j++) if (b[j] == ':' && (j == 0 || b[j - 1] != ':') && b[j + 1] != ':') m = j;
      if (m != std::string::npos) { std::string x = b.substr(0, m), y = b.substr(m + 1); if (y < x) std::swap(x, y); k = "race:" + x + "-" + y; }
    }
    report(k.c_str(), t.c_str());
  }
  munmap(S, sizeof(Shared));
  return r;
}
void sched_replay(void (*body)(int), int scenario, const char* sch) {
  opt = SchedOptions(); replaying = true; tracing = getenv("SCHED_TRACE") != nullptr;
  mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 30);
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cur.n = 0;
  while (*sch == 'L' || *sch == 'S' || *sch == ',' || *sch == ' ') { if (*sch == 'L') opt.lifo = true; if (*sch == 'S') opt.spurious = true; sch++; }
  for (const char* p = sch; *p;) { char* e; long a = strtol(p, &e, 10); if (*e != ':') break; long b = strtol(e + 1, &e, 10); cur.dev[cur.n].idx = a; cur.dev[cur.n++].choice = b; p = *e == ',' ? e + 1 : e; }
  run_child(body, scenario);
}
