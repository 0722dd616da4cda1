// Interposed pthread primitives.
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <sched.h>
#include <unistd.h>
#include "internal.h"

namespace sim {
struct MutexS {
  int owner = -1;
  int count = 0;
  int readers = 0;  // rwlock
  VC vc, rvc;
};
struct CondS {
  int phantom = 0;  // waiters that vanished in a fork
};
static std::map<uintptr_t, MutexS>* g_mu;
static std::map<uintptr_t, CondS>* g_cv;
struct OnceS {
  int runner = -1;
};
static std::map<uintptr_t, OnceS>* g_once;

static MutexS& mu(const void* m) {
  if (!g_mu) g_mu = new std::map<uintptr_t, MutexS>;
  return (*g_mu)[(uintptr_t)m];
}
static CondS& cv(const void* c) {
  if (!g_cv) g_cv = new std::map<uintptr_t, CondS>;
  return (*g_cv)[(uintptr_t)c];
}
void mutex_drop_range(uintptr_t p, size_t n) {
  if (g_mu) g_mu->erase(g_mu->lower_bound(p), g_mu->lower_bound(p + n));
  if (g_cv) g_cv->erase(g_cv->lower_bound(p), g_cv->lower_bound(p + n));
  if (g_once) g_once->erase(g_once->lower_bound(p), g_once->lower_bound(p + n));
}
void mutexes_on_fork_child() {
  // mutexes held by vanished threads stay locked; condition variables keep
  // counting the vanished waiters
  for (Thread* t : W.threads)
    if (t->state == TS::dead && t->wait_obj && g_cv && g_cv->count((uintptr_t)t->wait_obj))
      ++cv(t->wait_obj).phantom;
}

static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static bool errcheck(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK; }

static int lock_mutex(pthread_mutex_t* m, bool try_only, int64_t deadline) {
  Thread* me = tls_self;
  MutexS* s = &mu(m);
  if (s->owner == me->id) {
    if (recursive(m)) {
      ++s->count;
      return 0;
    }
    if (errcheck(m)) return EDEADLK;
    if (try_only) return EBUSY;
  }
  while (s->owner != -1) {
    if (try_only) return EBUSY;
    if (me->noyield) fatal("blocking lock in a no-yield section");
    if (!block(m, "mutex lock", deadline)) return ETIMEDOUT;
    s = &mu(m);
  }
  s->owner = me->id;
  s->count = 1;
  hb_acquire(s->vc);
  return 0;
}
static int unlock_mutex(pthread_mutex_t* m) {
  Thread* me = tls_self;
  MutexS& s = mu(m);
  if (s.owner != me->id) {
    if (W.threads.size() && s.owner >= 0 && W.threads[s.owner]->state == TS::dead) {
      // unlocked by the child of a fork on behalf of a vanished owner: legal for
      // a normal mutex only when it was the forking thread; treat as unlock.
    } else if (errcheck(m) || recursive(m)) {
      return EPERM;
    }
  }
  if (--s.count > 0) return 0;
  s.count = 0;
  s.owner = -1;
  hb_release(s.vc);
  wake_all_on(m);
  return 0;
}
static int64_t abs_to_sim(clockid_t c, const struct timespec* ts) {
  int64_t t = (int64_t)ts->tv_sec * SEC + ts->tv_nsec;
  if (c == CLOCK_REALTIME) t -= system_now() - now();
  else t -= 5000 * SEC;
  // never in the past
  return t < W.t ? W.t : t;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  Thread* me = tls_self;
  MutexS& s = mu(m);
  cv(c);
  int count = s.count;
  s.count = 1;
  unlock_mutex(m);
  bool ok = true;
  if (W.cfg.spurious_wakeup > 0 && chance(FAULT, W.cfg.spurious_wakeup)) {
    fault("spurious_wakeup");
    int64_t d = W.t + (int64_t)choose(FAULT, 5 * MS);
    bool sp = deadline < 0 || d < deadline;
    ok = block(c, "condition wait", sp ? d : deadline);
    if (!ok && sp) ok = true;
  } else {
    ok = block(c, "condition wait", deadline);
  }
  (void)me;
  lock_mutex(m, false, -1);
  mu(m).count = count;
  return ok ? 0 : ETIMEDOUT;
}
}  // namespace sim
using namespace sim;

extern "C" {
// ------------------------------------------------------------------ mutex ---
SIM_API int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  REAL(pthread_mutex_init);
  if (W.active && tls_self) {
    RtGuard g;
    mutex_drop_range((uintptr_t)m, sizeof *m);
  }
  return real_pthread_mutex_init(m, a);
}
SIM_API int pthread_mutex_destroy(pthread_mutex_t* m) {
  REAL(pthread_mutex_destroy);
  if (W.active && tls_self) {
    RtGuard g;
    mutex_drop_range((uintptr_t)m, sizeof *m);
    return 0;
  }
  return real_pthread_mutex_destroy(m);
}
SIM_API int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_mutex_lock);
    return real_pthread_mutex_lock(m);
  }
  sched_point(K_LOCK);
  RtGuard g;
  return lock_mutex(m, false, -1);
}
SIM_API int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_mutex_trylock);
    return real_pthread_mutex_trylock(m);
  }
  sched_point(K_LOCK);
  RtGuard g;
  return lock_mutex(m, true, -1);
}
SIM_API int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!simulated()) {
    REAL(pthread_mutex_timedlock);
    return real_pthread_mutex_timedlock(m, ts);
  }
  sched_point(K_LOCK);
  RtGuard g;
  return lock_mutex(m, false, abs_to_sim(CLOCK_REALTIME, ts));
}
SIM_API int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  sched_point(K_LOCK);
  RtGuard g;
  return lock_mutex(m, false, abs_to_sim(c, ts));
}
SIM_API int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_mutex_unlock);
    return real_pthread_mutex_unlock(m);
  }
  {
    RtGuard g;
    int rc = unlock_mutex(m);
    if (rc) return rc;
  }
  sched_point(K_LOCK);
  return 0;
}
// ------------------------------------------------------------------- cond ---
SIM_API int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  REAL(pthread_cond_init);
  if (W.active && tls_self) {
    RtGuard g;
    mutex_drop_range((uintptr_t)c, sizeof *c);
  }
  return real_pthread_cond_init(c, a);
}
SIM_API int pthread_cond_destroy(pthread_cond_t* c) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_cond_destroy);
    return real_pthread_cond_destroy(c);
  }
  RtGuard g;
  if (cv(c).phantom) {
    log("condition variable destroyed with waiters lost in a fork");
    // glibc waits for them
    for (;;) block(c, "condition variable destruction (waiters lost in fork)", -1);
  }
  mutex_drop_range((uintptr_t)c, sizeof *c);
  return 0;
}
SIM_API int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!simulated()) {
    REAL(pthread_cond_wait);
    return real_pthread_cond_wait(c, m);
  }
  sched_point(K_COND);
  RtGuard g;
  return cond_wait(c, m, -1);
}
SIM_API int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!simulated()) {
    REAL(pthread_cond_timedwait);
    return real_pthread_cond_timedwait(c, m, ts);
  }
  sched_point(K_COND);
  RtGuard g;
  return cond_wait(c, m, abs_to_sim(CLOCK_REALTIME, ts));
}
SIM_API int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k,
                                   const struct timespec* ts) {
  if (!simulated()) {
    REAL(pthread_cond_clockwait);
    return real_pthread_cond_clockwait(c, m, k, ts);
  }
  sched_point(K_COND);
  RtGuard g;
  return cond_wait(c, m, abs_to_sim(k, ts));
}
SIM_API int pthread_cond_signal(pthread_cond_t* c) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_cond_signal);
    return real_pthread_cond_signal(c);
  }
  sched_point(K_COND);
  RtGuard g;
  wake_one_on(c);
  return 0;
}
SIM_API int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_cond_broadcast);
    return real_pthread_cond_broadcast(c);
  }
  sched_point(K_COND);
  RtGuard g;
  wake_all_on(c);
  return 0;
}
// ----------------------------------------------------------------- rwlock ---
static int rw_lock(pthread_rwlock_t* l, bool write, bool try_only) {
  Thread* me = tls_self;
  MutexS* s = &mu(l);
  while (s->owner != -1 || (write && s->readers > 0)) {
    if (try_only) return EBUSY;
    block(l, "rwlock", -1);
    s = &mu(l);
  }
  hb_acquire(s->vc);
  if (write) {
    s->owner = me->id;
    hb_acquire(s->rvc);
  } else {
    ++s->readers;
  }
  return 0;
}
SIM_API int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_rwlock_rdlock);
    return real_pthread_rwlock_rdlock(l);
  }
  sched_point(K_LOCK);
  RtGuard g;
  return rw_lock(l, false, false);
}
SIM_API int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_rwlock_wrlock);
    return real_pthread_rwlock_wrlock(l);
  }
  sched_point(K_LOCK);
  RtGuard g;
  return rw_lock(l, true, false);
}
SIM_API int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_rwlock_tryrdlock);
    return real_pthread_rwlock_tryrdlock(l);
  }
  sched_point(K_LOCK);
  RtGuard g;
  return rw_lock(l, false, true);
}
SIM_API int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_rwlock_trywrlock);
    return real_pthread_rwlock_trywrlock(l);
  }
  sched_point(K_LOCK);
  RtGuard g;
  return rw_lock(l, true, true);
}
SIM_API int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!simulated()) {
    if (W.active) return 0;
    REAL(pthread_rwlock_unlock);
    return real_pthread_rwlock_unlock(l);
  }
  {
    RtGuard g;
    MutexS& s = mu(l);
    if (s.owner == tls_self->id) {
      s.owner = -1;
      hb_release(s.vc);
    } else if (s.readers > 0) {
      --s.readers;
      hb_release(s.rvc);
    }
    wake_all_on(l);
  }
  sched_point(K_LOCK);
  return 0;
}
// ------------------------------------------------------------------- once ---
SIM_API int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!simulated()) {
    if (W.active) {
      if (*(volatile int*)o == 2) return 0;
      *(volatile int*)o = 2;
      f();
      return 0;
    }
    REAL(pthread_once);
    return real_pthread_once(o, f);
  }
  sched_point(K_LOCK);
  {
    RtGuard g;
    if (!g_once) g_once = new std::map<uintptr_t, OnceS>;
    for (;;) {
      if (*(volatile int*)o == 2) {
        hb_acquire(sync_clock(o));
        return 0;
      }
      auto& s = (*g_once)[(uintptr_t)o];
      if (s.runner == -1) {
        s.runner = tls_self->id;
        break;
      }
      block(o, "once", -1);
    }
  }
  struct Undo {
    pthread_once_t* o;
    bool done = false;
    ~Undo() {
      RtGuard g;
      (*g_once)[(uintptr_t)o].runner = -1;
      if (done) {
        *(volatile int*)o = 2;
        hb_release(sync_clock(o));
      }
      wake_all_on(o);
    }
  } u{o};
  f();
  u.done = true;
  return 0;
}
// ----------------------------------------------------- function-local statics
SIM_API int __cxa_guard_acquire(long long* gp) {
  auto* b = (volatile unsigned char*)gp;
  if (!simulated()) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  sched_point(K_ATOMIC);
  RtGuard g;
  for (;;) {
    if (b[0]) {
      hb_acquire(sync_clock(gp));
      return 0;
    }
    if (!b[1]) {
      b[1] = (unsigned char)(tls_self->id + 1);
      return 1;
    }
    if (b[1] == tls_self->id + 1) fail("*", "recursive-init", "recursive static initialisation");
    block(gp, "static initialisation", -1);
  }
}
SIM_API void __cxa_guard_release(long long* gp) {
  auto* b = (volatile unsigned char*)gp;
  b[1] = 0;
  b[0] = 1;
  if (!simulated()) return;
  RtGuard g;
  hb_release(sync_clock(gp));
  wake_all_on(gp);
}
SIM_API void __cxa_guard_abort(long long* gp) {
  auto* b = (volatile unsigned char*)gp;
  b[1] = 0;
  if (!simulated()) return;
  RtGuard g;
  wake_all_on(gp);
}
// ---------------------------------------------------------------- threads ---
SIM_API int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!simulated()) {
    REAL(pthread_create);
    return real_pthread_create(out, a, fn, arg);
  }
  {
    RtGuard g;
    if (W.cfg.thread_create_fail > 0 && chance(FAULT, W.cfg.thread_create_fail)) {
      fault("thread_create_fail");
      return EAGAIN;
    }
    Thread* t = new_thread(fn, arg);
    start_real(t);
    *out = t->real;
    if (a) {
      int ds = 0;
      pthread_attr_getdetachstate(a, &ds);
      t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
  }
  sched_point(K_CREATE);
  return 0;
}
static Thread* by_handle(pthread_t h) {
  for (Thread* t : W.threads)
    if (pthread_equal(t->real, h)) return t;
  return nullptr;
}
SIM_API int pthread_join(pthread_t h, void** ret) {
  if (!simulated()) {
    REAL(pthread_join);
    return real_pthread_join(h, ret);
  }
  sched_point(K_LOCK);
  RtGuard g;
  Thread* t = by_handle(h);
  if (!t) return ESRCH;
  if (t == tls_self) return EDEADLK;
  if (t->detached || t->joined) return EINVAL;
  while (t->state != TS::finished) block(t, "thread join", -1);
  t->joined = true;
  hb_acquire(t->vc);
  if (ret) *ret = t->ret;
  return 0;
}
SIM_API int pthread_detach(pthread_t h) {
  if (!simulated()) {
    REAL(pthread_detach);
    return real_pthread_detach(h);
  }
  RtGuard g;
  Thread* t = by_handle(h);
  if (!t) return ESRCH;
  t->detached = true;
  return 0;
}
SIM_API int sched_yield(void) noexcept {
  if (!simulated()) {
    REAL(sched_yield);
    return real_sched_yield();
  }
  // a yielding thread lets others go first
  {
    RtGuard g;
    W.run_len += 100;
  }
  sched_point(K_LOCK);
  return 0;
}
}
