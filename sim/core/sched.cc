// Scheduler, time and synchronisation seam. Not instrumented, not sanitised.
#include "sim.h"
#include "intern.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <random>

namespace sim {

const char* const kFaultNames[fKindCount] = {
    "none", "write_eio", "write_enospc", "disk_full", "short_write", "torn_crash", "read_eio", "short_read", "open_fail",
    "close_eio", "truncate_fail", "rename_fail", "unlink_fail", "aio_submit_fail", "aio_error", "aio_short", "slow_io",
    "mkdir_fail", "process_crash", "spurious_wakeup", "clock_jump", "file_truncated", "bit_flip", "garbage_bytes", "eintr",
    "stat_fail", "seek_fail", "aio_reorder", "flush_eio", "preemption", "custom"};

Shared* sh = nullptr;
thread_local int tlNoTrace = 0;

enum TState { Runnable, Blocked, Done };
struct Thread {
  int id = 0;
  TState state = Runnable;
  void* obj = nullptr;
  const char* what = "";
  int64_t wake = INT64_MAX;
  bool timedOut = false;
  bool detached = false;
  int go = 0;
  int tid = 0;
  int ready = 0; // waits in the trampoline
  uint64_t prio = 0;
  pthread_t real{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  bool joined = false;
};

static thread_local Thread* self = nullptr;
static bool gActive = false;
static SchedConfig gCfg;
static std::vector<Thread*>* gThreads = nullptr;
static Rng gRng;
bool gQuiet = false;
static long gPid = 0;
static uint64_t gStep = 0, gNextEvent = ~0ull, gBlocks = 0;
static int64_t gTimeBase = 0;
static int64_t gRealOffset = 1700000000ll * 1000000000ll;
static int gNoPreempt = 0;
static std::vector<uint64_t>* gPctPoints = nullptr;
static size_t gPctIdx = 0;
static uint32_t gInDev = 0;
static uint64_t gMaxSteps = 0;
static uint64_t gLowPrio = 1000000;

bool active() { return gActive; }
bool inSim() { return gActive && self != nullptr; }
int currentTid() { return self ? self->id : -1; }
uint64_t stepCount() { return gStep; }
static uint64_t gStep0 = 0;
int64_t nowNs() { return gTimeBase + (int64_t)(gStep - gStep0) * 10; }
Rng& schedRng() { return gRng; }
void setMaxSteps(uint64_t n) { gMaxSteps = gStep0 + n; }
void clockJump(int64_t ns) { gRealOffset += ns; }
void noPreempt(int d) { gNoPreempt += d; }
void count(int idx, uint64_t n) { sh->counters[idx] += n; }
void nontrivial() { sh->nontrivial = 1; }
void probe(const char* name, uint64_t n) {
  for (auto& p : sh->probes) {
    if (p.name[0] == 0) snprintf(p.name, sizeof p.name, "%s", name);
    if (strncmp(p.name, name, sizeof p.name - 1) == 0) { p.count += n; return; }
  }
}

static void futexWait(int* p) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) {
    syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void futexWake(int* p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool gTolerateHugeAlloc = false;
void finish(int status) {
  if (sh) {
    if (sh->status == kRunning) sh->status = status;
    sh->steps += gStep - gStep0;
    sh->blocks += gBlocks;
    sh->simNs = (uint64_t)(nowNs() - 1000000000ll);
    sh->nthreads += gThreads ? (uint32_t)gThreads->size() : 0;
  }
  _exit(0);
}

static void vfail(int status, const char* fmt, va_list ap) {
  if (sh && sh->status == kRunning) {
    vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap);
    sh->status = status;
    if (sh->verbose) { dprintf(2, "%s: %s\n", status == kViolation ? "violation" : "error", sh->msg); }
  }
  finish(status);
  abort();
}
void fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(kViolation, fmt, ap); abort(); }
void harnessError(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(kHarnessError, fmt, ap); abort(); }

void logf(const char* fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n <= 0) return;
  if (n > (int)sizeof(buf) - 1) n = sizeof(buf) - 1;
  if (sh->verbose) dprintf(2, "[%10.6f t%d #%lu] %s\n", nowNs() * 1e-9, currentTid(), (unsigned long)gStep, buf);
  if (sh->logLen + n + 2 < sizeof(sh->log)) {
    memcpy(sh->log + sh->logLen, buf, n);
    sh->logLen += n;
    sh->log[sh->logLen++] = '\n';
    sh->log[sh->logLen] = 0;
  }
}
void hist(uint64_t v) { sh->histHash = Rng::mix(sh->histHash ^ (v * 0x9e3779b97f4a7c15ull + 0x1234567)); }
void hist(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  hist(h);
}

// ---------- choosing ----------
static void processTimers() {
  int64_t now = nowNs();
  for (Thread* t : *gThreads) {
    if (t->state == Blocked && t->wake <= now) {
      t->state = Runnable;
      t->timedOut = true;
      t->obj = nullptr;
      t->wake = INT64_MAX;
    }
  }
}

static void scheduleNextEvent() {
  if (sh->replay) {
    gNextEvent = gInDev < sh->inDevCount ? sh->inDev[gInDev].step : ~0ull;
    if (gNextEvent <= gStep) gNextEvent = gStep + 1;
  } else if (gCfg.policy == kPct) {
    while (gPctIdx < gPctPoints->size() && (*gPctPoints)[gPctIdx] <= gStep) gPctIdx++;
    gNextEvent = gPctIdx < gPctPoints->size() ? (*gPctPoints)[gPctIdx] : ~0ull;
  } else if (gCfg.meanBlocks > 0) {
    // geometric-ish gap
    double u = gRng.unit();
    uint64_t gap = 1 + (uint64_t)(-(double)gCfg.meanBlocks * __builtin_log(1.0 - u * 0.999999));
    gNextEvent = gStep + gap;
  } else {
    gNextEvent = ~0ull;
  }
  if (gNextEvent > gMaxSteps) gNextEvent = gMaxSteps;
}

static std::string describeThreads() {
  std::string s;
  for (Thread* t : *gThreads) {
    char b[160];
    snprintf(b, sizeof b, "t%d:%s%s%s ", t->id, t->state == Runnable ? "runnable" : t->state == Done ? "done" : "blocked in ",
             t->state == Blocked ? t->what : "", t == self ? "(self)" : "");
    s += b;
  }
  return s;
}

// kind: 0 = block-level event, 1 = seam call, 2 = current blocked/finished
static Thread* choose(bool curRunnable, int kind) {
  Thread* runnable[256];
  int n = 0;
  for (;;) {
    processTimers();
    n = 0;
    for (Thread* t : *gThreads)
      if (t->state == Runnable && (t != self || curRunnable) && n < 256) runnable[n++] = t;
    // the current thread may have been timed out (Blocked -> Runnable) by processTimers
    if (!curRunnable && self && self->state == Runnable) {
      bool in = false;
      for (int i = 0; i < n; i++) in |= runnable[i] == self;
      if (!in && n < 256) {
        runnable[n++] = self;
        std::sort(runnable, runnable + n, [](Thread* a, Thread* b) { return a->id < b->id; });
      }
    }
    if (n) break;
    int64_t next = INT64_MAX;
    for (Thread* t : *gThreads)
      if (t->state == Blocked) next = std::min(next, t->wake);
    if (next == INT64_MAX) {
      fail("deadlock: no thread can make progress: %s", describeThreads().c_str());
    }
    if (next > gCfg.maxSimNs) fail("no progress: simulated time limit reached: %s", describeThreads().c_str());
    gTimeBase += next - nowNs();
  }
  Thread* def = nullptr;
  if (curRunnable)
    def = self;
  else
    def = runnable[0];
  Thread* pick = def;
  if (sh->replay) {
    while (gInDev < sh->inDevCount && sh->inDev[gInDev].step < gStep) gInDev++;
    if (gInDev < sh->inDevCount && sh->inDev[gInDev].step == gStep) {
      for (int i = 0; i < n; i++)
        if (runnable[i]->id == sh->inDev[gInDev].tid) pick = runnable[i];
      gInDev++;
    }
  } else if (n > 1 || pick != runnable[0]) {
    switch (gCfg.policy) {
      case kPct: {
        if (kind == 0) self->prio = --gLowPrio; // change point
        for (int i = 0; i < n; i++)
          if (i == 0 || runnable[i]->prio > pick->prio) pick = runnable[i];
        break;
      }
      case kRunToBlock:
        if (kind == 2) pick = runnable[gRng.below(n)];
        break;
      case kStarve: {
        // everyone but the victim first
        Thread* c[256];
        int m = 0;
        for (int i = 0; i < n; i++)
          if (runnable[i]->id != gCfg.starveTid) c[m++] = runnable[i];
        if (m == 0)
          pick = runnable[0];
        else if (kind == 2 || (curRunnable && self->id == gCfg.starveTid) || gRng.chance(gCfg.pSync))
          pick = c[gRng.below(m)];
        break;
      }
      case kRoundRobin: {
        if (kind == 2 || kind == 1 || kind == 0) {
          int at = 0;
          for (int i = 0; i < n; i++)
            if (runnable[i]->id > (self ? self->id : -1)) { at = i; break; }
          pick = runnable[at];
        }
        break;
      }
      default:
        if (kind == 2 || kind == 0 || gRng.chance(gCfg.pSync)) pick = runnable[gRng.below(n)];
    }
  }
  if (pick != def && !sh->replay) {
    if (sh->outDevCount < kMaxDev)
      sh->dev[sh->outDevCount++] = Deviation{gStep, pick->id, 0};
    else
      sh->devOverflow = 1;
    if (kind == 0) sh->faultCount[fPreempt]++;
  }
  return pick;
}

// The exit of a thread, its destructors of thread local objects and the release of its stack and of what the allocator
// cached for it, happen outside of the simulation: the next thread waits for their end, or addresses would vary.
static int gExiting = 0;
static void waitExiting() {
  if (!gExiting) return;
  int tid = gExiting;
  gExiting = 0;
  while (syscall(SYS_tgkill, gPid, tid, 0) == 0) syscall(SYS_sched_yield);
}
static void switchTo(Thread* t) {
  if (t == self) return;
  sh->switches++;
  sh->schedHash = Rng::mix(sh->schedHash ^ (((uint64_t)t->id << 32) ^ gStep));
  Thread* me = self;
  futexWake(&t->go);
  futexWait(&me->go);
  waitExiting();
}

static void slowEvent() {
  if (gStep >= gMaxSteps) fail("no progress: step limit %lu reached: %s", (unsigned long)gMaxSteps, describeThreads().c_str());
  if (gNoPreempt > 0) {
    gNextEvent = gStep + 1;
    if (sh->replay) { while (gInDev < sh->inDevCount && sh->inDev[gInDev].step <= gStep) gInDev++; scheduleNextEvent(); }
    return;
  }
  Thread* t = choose(true, 0);
  scheduleNextEvent();
  switchTo(t);
}

void preemptPoint(const char* what, uint64_t info) {
  if (!gActive || !self || gQuiet) return;
  (void)what; (void)info;
  gStep++;
  sh->seamCalls++;
  if (gStep >= gMaxSteps) fail("no progress: step limit %lu reached: %s", (unsigned long)gMaxSteps, describeThreads().c_str());
  if (gNoPreempt > 0) return;
  if (sh->replay) {
    if (!(gInDev < sh->inDevCount && sh->inDev[gInDev].step <= gStep)) return;
  }
  Thread* t = choose(true, 1);
  scheduleNextEvent();
  switchTo(t);
}

// self becomes blocked on obj until woken or `wake`; returns true if timed out
static bool block(void* obj, const char* what, int64_t wake) {
  self->state = Blocked;
  self->obj = obj;
  self->what = what;
  self->wake = wake;
  self->timedOut = false;
  gStep++;
  if (gStep >= gMaxSteps) fail("no progress: step limit %lu reached: %s", (unsigned long)gMaxSteps, describeThreads().c_str());
  Thread* t = choose(false, 2);
  scheduleNextEvent();
  switchTo(t);
  return self->timedOut;
}

static int wakeObj(void* obj, int max) {
  processTimers();
  int n = 0;
  Thread* c[256];
  for (Thread* t : *gThreads)
    if (t->state == Blocked && t->obj == obj && n < 256) c[n++] = t;
  int woken = 0;
  while (n > 0 && woken < max) {
    // which waiter gets it is a scheduling choice
    int i = 0;
    if (max < n && n > 1) {
      if (!sh->replay) {
        i = (int)gRng.below(n);
        gStep++;
        if (i != 0) {
          if (sh->outDevCount < kMaxDev) sh->dev[sh->outDevCount++] = Deviation{gStep, 1000 + c[i]->id, 0};
          else sh->devOverflow = 1;
        }
      } else {
        gStep++;
        while (gInDev < sh->inDevCount && sh->inDev[gInDev].step < gStep) gInDev++;
        if (gInDev < sh->inDevCount && sh->inDev[gInDev].step == gStep) {
          for (int k = 0; k < n; k++)
            if (1000 + c[k]->id == sh->inDev[gInDev].tid) i = k;
          gInDev++;
        }
        scheduleNextEvent();
      }
    }
    Thread* t = c[i];
    t->state = Runnable;
    t->obj = nullptr;
    t->wake = INT64_MAX;
    t->timedOut = false;
    for (int k = i; k + 1 < n; k++) c[k] = c[k + 1];
    n--;
    woken++;
  }
  return woken;
}

void blockOn(void* obj, const char* what) { block(obj, what, INT64_MAX); }
void wakeAll(void* obj) { wakeObj(obj, 1 << 30); }
void advance(int64_t ns) { gTimeBase += ns; }
void sleepNs(int64_t ns) {
  if (!inSim()) return;
  if (gNoPreempt > 0) { gTimeBase += ns; return; }
  static int sleepObj;
  block(&sleepObj, "sleep", nowNs() + std::max<int64_t>(ns, 1));
}

void startSim(const SchedConfig& cfg, uint64_t seed) {
  gCfg = cfg;
  gRng.reseed(seed ^ 0x5ced5ced5cedull ^ ((uint64_t)sh->life << 56));
  initFaults(seed);
  gThreads = new std::vector<Thread*>;
  gThreads->reserve(4096);
  gPctPoints = new std::vector<uint64_t>;
  gStep0 = (uint64_t)sh->life << kLifeShift;
  gStep = gStep0;
  gBlocks = 0;
  gTimeBase = 1000000000ll;
  gInDev = 0;
  gMaxSteps = gStep0 + cfg.maxSteps;
  gPctIdx = 0;
  if (cfg.policy == kPct) {
    for (int i = 0; i < cfg.pctDepth; i++) gPctPoints->push_back(gStep0 + 1 + gRng.below(cfg.pctLen));
    std::sort(gPctPoints->begin(), gPctPoints->end());
  }
  Thread* t = new Thread;
  t->id = 0;
  t->real = pthread_self();
  t->prio = 2000000 + gRng.below(1000000);
  gThreads->push_back(t);
  self = t;
  gPid = syscall(SYS_getpid);
  gActive = true;
  scheduleNextEvent();
}

const char* threadWait(int tid) {
  if (!gThreads || tid < 0 || (size_t)tid >= gThreads->size()) return "done";
  Thread* t = (*gThreads)[(size_t)tid];
  return t->state == Done ? "done" : t->state == Blocked ? t->what : "";
}
int liveThreads() {
  int n = 0;
  for (Thread* t : *gThreads)
    if (t != self && t->state != Done) n++;
  return n;
}

void stopSim() {
  gActive = false;
}

static void* trampoline(void* p) {
  Thread* t = (Thread*)p;
  t->tid = (int)syscall(SYS_gettid);
  futexWake(&t->ready);
  futexWait(&t->go);
  waitExiting();
  self = t;
  if (gRaceStart) gRaceStart();
  void* r = t->fn(t->arg);
  // finished
  t->ret = r;
  t->state = Done;
  wakeObj(t, 1 << 30);
  gStep++;
  self->state = Done;
  Thread* nx = choose(false, 2);
  scheduleNextEvent();
  sh->switches++;
  sh->schedHash = Rng::mix(sh->schedHash ^ (((uint64_t)nx->id << 32) ^ gStep));
  self = nullptr;
  gExiting = t->tid;
  futexWake(&nx->go);
  return r;
}

} // namespace sim

using namespace sim;

#define REAL(name) ((decltype(&name))realSym(#name))

namespace sim {
struct RealCache { const char* n; void* p; };
void* realSym(const char* name) {
  // small linear cache, keyed by literal address first
  static RealCache cache[256];
  static int n = 0;
  for (int i = 0; i < n; i++)
    if (cache[i].n == name) return cache[i].p;
  void* p = dlsym(RTLD_NEXT, name);
  if (n < 256) { cache[n].n = name; cache[n].p = p; n++; }
  return p;
}
} // namespace sim

extern "C" {

// ---------- coverage / preemption ----------
void __sanitizer_cov_trace_pc(void) {
  if (!gActive || gQuiet) return;
  if (self == nullptr) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  sh->cov[(pc ^ (pc >> 16)) & (kCov - 1)] = 1;
  gBlocks++;
  if (++gStep >= gNextEvent) slowEvent();
}

// ---------- threads ----------
int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!inSim()) return REAL(pthread_create)(th, attr, fn, arg);
  if (gThreads->size() >= 4000) harnessError("too many threads");
  Thread* t = new Thread;
  t->id = (int)gThreads->size();
  t->fn = fn;
  t->arg = arg;
  t->prio = 2000000 + (sh->replay ? 0 : gRng.below(1000000));
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 1 << 20);
  if (attr) {
    int ds;
    if (pthread_attr_getdetachstate(attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) {
      t->detached = true;
      pthread_attr_setdetachstate(&a, ds);
    }
  }
  gThreads->push_back(t);
  if (gRaceCreate) gRaceCreate(t->id);
  int r = REAL(pthread_create)(&t->real, &a, trampoline, t);
  pthread_attr_destroy(&a);
  if (r != 0) harnessError("real pthread_create failed %d", r);
  futexWait(&t->ready);
  *th = t->real;
  preemptPoint("pthread_create");
  return 0;
}
static Thread* findThread(pthread_t th) {
  for (auto it = gThreads->rbegin(); it != gThreads->rend(); ++it)
    if (pthread_equal((*it)->real, th) && !(*it)->joined) return *it;
  return nullptr;
}
int pthread_join(pthread_t th, void** ret) {
  if (!inSim()) return REAL(pthread_join)(th, ret);
  Thread* t = findThread(th);
  if (!t) return ESRCH;
  preemptPoint("pthread_join");
  while (t->state != Done) block(t, "pthread_join", INT64_MAX);
  t->joined = true;
  if (gRaceJoin) gRaceJoin(t->id);
  int r = REAL(pthread_join)(th, nullptr);
  if (ret) *ret = t->ret;
  return r;
}
int pthread_detach(pthread_t th) {
  if (inSim()) {
    Thread* t = findThread(th);
    if (t) { t->detached = true; t->joined = t->state == Done; }
  }
  return REAL(pthread_detach)(th);
}

// ---------- mutexes ----------
struct MX { int lock; unsigned count; int owner; unsigned nusers; int kind; };
static inline int mxKind(MX* m) { return m->kind & 3; }
static int simLock(pthread_mutex_t* pm, int64_t deadline = INT64_MAX) {
  MX* m = (MX*)pm;
  int me = self->id + 1;
  if (m->lock && m->owner == me) {
    if (mxKind(m) == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
    if (mxKind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  while (m->lock) {
    if (block(m, m->owner == me ? "mutex lock (already owned by this thread)" : "mutex lock", deadline) && deadline != INT64_MAX && m->lock) return ETIMEDOUT;
  }
  m->lock = 1;
  m->owner = me;
  m->count = 1;
  raceAcquire(m);
  return 0;
}
static void simUnlock(pthread_mutex_t* pm) {
  MX* m = (MX*)pm;
  if (mxKind(m) == PTHREAD_MUTEX_RECURSIVE && m->count > 1) { m->count--; return; }
  raceRelease(m);
  m->lock = 0;
  m->owner = 0;
  m->count = 0;
  wakeObj(m, 1 << 30);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!inSim()) return REAL(pthread_mutex_lock)(m);
  preemptPoint("mutex_lock");
  return simLock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* pm) {
  if (!inSim()) return REAL(pthread_mutex_trylock)(pm);
  preemptPoint("mutex_trylock");
  MX* m = (MX*)pm;
  if (m->lock) {
    if (m->owner == self->id + 1 && mxKind(m) == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
    return EBUSY;
  }
  return simLock(pm);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!inSim()) return REAL(pthread_mutex_unlock)(m);
  MX* x = (MX*)m;
  if (x->lock && x->owner != self->id + 1) fail("mutex unlocked by a thread that does not own it (owner t%d, unlocked by t%d)", x->owner - 1, self->id);
  simUnlock(m);
  preemptPoint("mutex_unlock");
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!inSim()) return REAL(pthread_mutex_timedlock)(m, ts);
  preemptPoint("mutex_timedlock");
  return simLock(m, ts->tv_sec * 1000000000ll + ts->tv_nsec - gRealOffset);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  if (!inSim()) return REAL(pthread_mutex_clocklock)(m, c, ts);
  preemptPoint("mutex_clocklock");
  return simLock(m, ts->tv_sec * 1000000000ll + ts->tv_nsec - (c == CLOCK_REALTIME ? gRealOffset : 0));
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (inSim() && ((MX*)m)->lock) fail("a locked mutex is destroyed");
  return REAL(pthread_mutex_destroy)(m);
}

// rwlocks: word 0 = writer tid+1, word 1 = reader count
struct RW { int writer; int readers; };
int pthread_rwlock_rdlock(pthread_rwlock_t* p) {
  if (!inSim()) return REAL(pthread_rwlock_rdlock)(p);
  preemptPoint("rdlock");
  RW* r = (RW*)p;
  while (r->writer) block(r, "rwlock read", INT64_MAX);
  r->readers++;
  raceAcquire(r);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* p) {
  if (!inSim()) return REAL(pthread_rwlock_wrlock)(p);
  preemptPoint("wrlock");
  RW* r = (RW*)p;
  while (r->writer || r->readers) block(r, "rwlock write", INT64_MAX);
  r->writer = self->id + 1;
  raceAcquire(r);
  raceAcquire(&r->readers); // what readers did before letting go
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* p) {
  if (!inSim()) return REAL(pthread_rwlock_unlock)(p);
  RW* r = (RW*)p;
  raceRelease(r->writer ? (void*)r : (void*)&r->readers);
  if (r->writer) r->writer = 0; else if (r->readers > 0) r->readers--;
  wakeObj(r, 1 << 30);
  preemptPoint("rwunlock");
  return 0;
}

// ---------- condition variables ----------
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  preemptPoint("cond_wait");
  unsigned cnt = ((MX*)m)->count;
  ((MX*)m)->count = 1;
  bool spurious = gCfg.pSpurious > 0 && decideFault({fSpuriousWake}, "", 0).kind == fSpuriousWake;
  simUnlock(m);
  bool to = false;
  if (spurious) {
    preemptPoint("spurious");
  } else {
    to = block(c, deadline == INT64_MAX ? "condition wait" : "timed condition wait", deadline);
  }
  simLock(m);
  ((MX*)m)->count = cnt;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!inSim()) return REAL(pthread_cond_wait)(c, m);
  return condWait(c, m, INT64_MAX);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!inSim()) return REAL(pthread_cond_timedwait)(c, m, ts);
  return condWait(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec - gRealOffset);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  if (!inSim()) return REAL(pthread_cond_clockwait)(c, m, clk, ts);
  return condWait(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec - (clk == CLOCK_REALTIME ? gRealOffset : 0));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!inSim()) return REAL(pthread_cond_signal)(c);
  wakeObj(c, 1);
  preemptPoint("cond_signal");
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!inSim()) return REAL(pthread_cond_broadcast)(c);
  wakeObj(c, 1 << 30);
  preemptPoint("cond_broadcast");
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (inSim()) {
    for (Thread* t : *gThreads)
      if (t->state == Blocked && t->obj == c) fail("a condition variable is destroyed while t%d waits on it", t->id);
    return 0;
  }
  return REAL(pthread_cond_destroy)(c);
}

// ---------- semaphores ----------
int sem_wait(sem_t* s) {
  if (!inSim()) return REAL(sem_wait)(s);
  preemptPoint("sem_wait");
  unsigned* v = (unsigned*)s;
  while (*v == 0) block(s, "semaphore wait", INT64_MAX);
  --*v;
  raceAcquire(s);
  return 0;
}
int sem_trywait(sem_t* s) {
  if (!inSim()) return REAL(sem_trywait)(s);
  preemptPoint("sem_trywait");
  unsigned* v = (unsigned*)s;
  if (*v == 0) { errno = EAGAIN; return -1; }
  --*v;
  raceAcquire(s);
  return 0;
}
static int semTimed(sem_t* s, int64_t deadline) {
  preemptPoint("sem_timedwait");
  unsigned* v = (unsigned*)s;
  while (*v == 0) {
    if (block(s, "timed semaphore wait", deadline) && *v == 0) { errno = ETIMEDOUT; return -1; }
  }
  --*v;
  raceAcquire(s);
  return 0;
}
int sem_timedwait(sem_t* s, const struct timespec* ts) {
  if (!inSim()) return REAL(sem_timedwait)(s, ts);
  return semTimed(s, ts->tv_sec * 1000000000ll + ts->tv_nsec - gRealOffset);
}
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) {
  if (!inSim()) return REAL(sem_clockwait)(s, c, ts);
  return semTimed(s, ts->tv_sec * 1000000000ll + ts->tv_nsec - (c == CLOCK_REALTIME ? gRealOffset : 0));
}
int sem_init(sem_t* s, int p, unsigned val) {
  if (!inSim()) return REAL(sem_init)(s, p, val);
  memset(s, 0, sizeof *s);
  *(unsigned*)s = val;
  return 0;
}
int sem_post(sem_t* s) {
  if (!inSim()) return REAL(sem_post)(s);
  raceRelease(s);
  ++*(unsigned*)s;
  wakeObj(s, 1 << 30);
  preemptPoint("sem_post");
  return 0;
}

// ---------- once / static-local guards ----------
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!inSim()) return REAL(pthread_once)(o, fn);
  volatile int* v = (volatile int*)o;
  for (;;) {
    if (*v == 2) { raceAcquire((void*)o); return 0; }
    if (*v == 0) break;
    block((void*)o, "pthread_once", INT64_MAX);
  }
  *v = 1;
  preemptPoint("once");
  fn();
  *v = 2;
  raceRelease((void*)o);
  wakeObj((void*)o, 1 << 30);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  if (b[0]) { raceAcquire((void*)g); return 0; }
  if (inSim()) {
    while (b[1]) block((void*)g, "static initialisation", INT64_MAX);
    if (b[0]) { raceAcquire((void*)g); return 0; }
    b[1] = (char)1;
    return 1;
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  char* b = (char*)g;
  raceRelease(g);
  b[0] = 1;
  b[1] = 0;
  if (inSim()) wakeObj(g, 1 << 30);
}
void __cxa_guard_abort(uint64_t* g) {
  char* b = (char*)g;
  b[1] = 0;
  if (inSim()) wakeObj(g, 1 << 30);
}

// ---------- time ----------
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!inSim()) return REAL(clock_gettime)(c, ts);
  gStep++;
  int64_t n = nowNs();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) n += gRealOffset;
  ts->tv_sec = n / 1000000000ll;
  ts->tv_nsec = n % 1000000000ll;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  if (!inSim()) return ((int (*)(struct timeval*, void*))realSym("gettimeofday"))(tv, tz);
  int64_t n = nowNs() + gRealOffset;
  tv->tv_sec = n / 1000000000ll;
  tv->tv_usec = n % 1000000000ll / 1000;
  return 0;
}
time_t time(time_t* t) {
  if (!inSim()) return REAL(time)(t);
  time_t r = (nowNs() + gRealOffset) / 1000000000ll;
  if (t) *t = r;
  return r;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!inSim()) return REAL(nanosleep)(ts, rem);
  sleepNs(ts->tv_sec * 1000000000ll + ts->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
  if (!inSim()) return REAL(clock_nanosleep)(c, flags, ts, rem);
  int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (flags & TIMER_ABSTIME) t -= (c == CLOCK_REALTIME ? gRealOffset : 0) + nowNs();
  sleepNs(t);
  return 0;
}
int usleep(useconds_t us) {
  if (!inSim()) return REAL(usleep)(us);
  sleepNs((int64_t)us * 1000);
  return 0;
}
unsigned sleep(unsigned s) {
  if (!inSim()) return REAL(sleep)(s);
  sleepNs((int64_t)s * 1000000000ll);
  return 0;
}
int sched_yield(void) {
  if (!inSim()) return REAL(sched_yield)();
  preemptPoint("yield");
  if (gCfg.policy == kPct && !sh->replay) self->prio = --gLowPrio;
  return 0;
}
int get_nprocs(void) { return 4; }

// ---------- randomness / identity ----------
static uint64_t envRandom() {
  static uint64_t n = 0;
  return Rng::mix((sh ? sh->seed : 1) * 7919 + 0x5eed + n++);
}
ssize_t getrandom(void* buf, size_t n, unsigned flags) {
  if (!inSim()) return REAL(getrandom)(buf, n, flags);
  unsigned char* p = (unsigned char*)buf;
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)envRandom();
  return (ssize_t)n;
}
pid_t getpid(void) {
  if (!inSim()) return REAL(getpid)();
  return 4242;
}
} // extern "C"

// std::random_device uses cpu instructions; take it over.
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (result_type)envRandom(); }
double random_device::_M_getentropy() const noexcept { return 32; }
} // namespace std
namespace sim {
void (*gRaceAcquire)(void*) = nullptr;
void (*gRaceRelease)(void*) = nullptr;
void (*gRaceCreate)(int) = nullptr;
void (*gRaceStart)() = nullptr;
void (*gRaceJoin)(int) = nullptr;
void (*gRaceRange)(const void*, size_t, bool) = nullptr;
bool gRaceMode = false, gRaceFound = false;
void handOver(void* p) { raceRelease(p); }
void takeOver(void* p) { raceAcquire(p); }
int raceTid() { return gActive && self && gNoPreempt == 0 ? self->id : -1; }
} // namespace sim
