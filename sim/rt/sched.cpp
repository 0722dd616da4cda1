// Scheduler, simulated time, choices, results.
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <queue>
#include "internal.h"
#include "result.h"

namespace sim {
World W;
Choices C;
Shared* S = nullptr;
std::string g_prop;
__thread Thread* tls_self __attribute__((tls_model("initial-exec"))) = nullptr;
__thread int tls_in_rt __attribute__((tls_model("initial-exec"))) = 0;

static bool g_trace = false;

// ---------------------------------------------------------------- hashing ---
void mix(uint64_t v) {
  W.hash ^= v;
  W.hash *= 1099511628211ull;
  W.hash ^= W.hash >> 29;
}
void mix_str(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (uint8_t)*s) * 1099511628211ull;
  mix(h);
}

// ---------------------------------------------------------------- choices ---
static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t rng_next(Stream s) { return splitmix(C.rng[s]); }
double rng_unit(Stream s) { return (rng_next(s) >> 11) * (1.0 / 9007199254740992.0); }
uint64_t choose(Stream s, uint64_t n) {
  RtGuard g;
  return decide(s, n, [&] { return rng_next(s) % n; });
}
bool chance(Stream s, double p) {
  RtGuard g;
  if (p <= 0) return false;
  return decide(s, 2, [&] { return (uint64_t)(rng_unit(s) < p); }) != 0;
}
uint64_t entropy() {
  uint64_t x = (W.seed ^ W.entropy_salt) * 0x2545F4914F6CDD1Dull + 0x1234567 + (++W.entropy_ctr) * 0x9e3779b97f4a7c15ull;
  return splitmix(x);
}

// ------------------------------------------------------------------- time ---
struct Ev {
  int64_t t;
  uint64_t seq;
  std::shared_ptr<std::function<void()>> f;
};
struct EvLater {
  bool operator()(const Ev& a, const Ev& b) const {
    return a.t != b.t ? a.t > b.t : a.seq > b.seq;
  }
};
static std::priority_queue<Ev, std::vector<Ev>, EvLater>* g_events;
static uint64_t g_evseq;

int64_t now() { return W.t; }
int64_t system_now() { return 1700000000ll * SEC + W.t + W.sys_off; }
void jump_system_clock(int64_t d) {
  W.sys_off += d;
  fault("clock_jump");
}
void at(int64_t t, std::function<void()> f) {
  RtGuard g;
  g_events->push(Ev{std::max(t, W.t), ++g_evseq,
                    std::make_shared<std::function<void()>>(std::move(f))});
}
static bool g_in_event = false;
void run_due_events() {
  if (g_in_event) return;
  g_in_event = true;
  Thread* me = tls_self;
  while (!g_events->empty() && g_events->top().t <= W.t) {
    Ev e = g_events->top();
    g_events->pop();
    int rt = tls_in_rt;
    tls_in_rt = 0;
    ++me->nosim;
    ++me->noyield;
    int64_t fa = me->fail_alloc;
    me->fail_alloc = 0;
    (*e.f)();
    me->fail_alloc = fa;
    --me->nosim;
    --me->noyield;
    tls_in_rt = rt;
  }
  g_in_event = false;
  for (Thread* t : W.threads)
    if (t->state == TS::blocked && t->deadline >= 0 && t->deadline <= W.t) {
      wake(t);
      t->timed_out = true;
    }
}

// -------------------------------------------------------------- futex baton -
static void futex_wait(std::atomic<int>* a, int v) {
  syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
static void futex_wake(std::atomic<int>* a) {
  syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void await_baton(Thread* t) {
  while (t->baton.exchange(0) == 0) futex_wait(&t->baton, 0);
}
static void hand_to(Thread* t) {
  W.cur = t;
  t->baton.store(1);
  futex_wake(&t->baton);
}

// -------------------------------------------------------------- scheduling --
static bool eligible(Thread* t) { return t->state == TS::runnable && t->stalled_until <= W.t; }

// Threads that may run now, starting after the current one.
static void candidates(std::vector<Thread*>& out, bool include_self) {
  out.clear();
  size_t n = W.threads.size();
  size_t base = W.cur ? (size_t)W.cur->id : 0;
  for (size_t i = 1; i <= n; ++i) {
    Thread* t = W.threads[(base + i) % n];
    if (t == W.cur && !include_self) continue;
    if (eligible(t)) out.push_back(t);
  }
}
static std::vector<Thread*> g_cand;

static const char* kind_name(int k) {
  static const char* n[] = {"atomic", "lock", "cond", "syscall", "create", "spin", "user", "block"};
  return n[k];
}

static void note_switch(Thread* to, int why) {
  W.switches++;
  W.run_len = 0;
  W.sched_hash = (W.sched_hash ^ (uint64_t)(to->id * 16 + why)) * 1099511628211ull;
  W.sched_hash ^= W.steps * 0x9e3779b97f4a7c15ull;
  mix((uint64_t)to->id << 32 | (uint64_t)W.steps);
  if (g_trace)
    fprintf(stderr, "[%10.6f] #%llu switch %d -> %d (%s)\n", W.t / 1e9,
            (unsigned long long)W.steps, W.cur ? W.cur->id : -1, to->id, kind_name(why));
}
static void switch_to(Thread* to, int why) {
  Thread* me = tls_self;
  if (to == me) return;
  note_switch(to, why);
  hand_to(to);
  await_baton(me);
}

static void deadlock() {
  std::string d = thread_dump();
  fail("*", "deadlock", "no thread can ever run again:\n%s", d.c_str());
  fatal("deadlock");
}

// Lets time pass until some thread may run; never returns an empty candidate set.
static void idle_until_candidate(bool include_self) {
  for (;;) {
    run_due_events();
    candidates(g_cand, include_self);
    if (!g_cand.empty()) return;
    int64_t next = INT64_MAX;
    if (!g_events->empty()) next = g_events->top().t;
    for (Thread* t : W.threads) {
      if (t->state == TS::blocked && t->deadline >= 0) next = std::min(next, t->deadline);
      if (t->state == TS::runnable && t->stalled_until > W.t) next = std::min(next, t->stalled_until);
    }
    if (next == INT64_MAX) deadlock();
    if (next > W.t) W.t = next;
    if (W.t > W.cfg.time_cap)
      fail("*", "no-progress", "simulated time cap reached:\n%s", thread_dump().c_str());
  }
}

static Thread* pick_candidate() {
  if (W.cfg.mode == 1) {
    size_t best = 0;
    for (size_t i = 1; i < g_cand.size(); ++i)
      if (g_cand[i]->prio > g_cand[best]->prio) best = i;
    uint64_t k = decide(SCHED, g_cand.size(), [&] { return (uint64_t)best; });
    return g_cand[k];
  }
  uint64_t k = decide(SCHED, g_cand.size(), [&] { return rng_next(SCHED) % g_cand.size(); });
  return g_cand[k];
}

static int64_t cost(Kind k) {
  switch (k) {
    case K_ATOMIC: return 30;
    case K_LOCK: case K_COND: return 60;
    case K_SYSCALL: return 700;
    case K_CREATE: return 10000;
    case K_SPIN: return 50000;
    default: return 30;
  }
}

void sched_point(Kind k) {
  if (!tracked()) return;
  Thread* me = tls_self;
  if (me->noyield) return;
  RtGuard g;
  me->plain = 0;
  ++W.steps;
  ++W.run_len;
  W.t += cost(k);
  if ((int64_t)W.steps > W.cfg.step_cap) {
    fail("*", "livelock", "step cap reached:\n%s", thread_dump().c_str());
    fatal("step cap");
  }
  run_due_events();
  if (W.cfg.stall > 0 && chance(FAULT, W.cfg.stall)) {
    int64_t d = 1 + (int64_t)choose(FAULT, (uint64_t)W.cfg.stall_max);
    me->stalled_until = W.t + d;
    fault("thread_stall");
    idle_until_candidate(true);
    switch_to(pick_candidate(), K_BLOCK);
    return;
  }
  candidates(g_cand, false);
  if (g_cand.empty()) return;
  if (W.run_len > 1000) {  // a spinning thread must not starve the others
    if (W.cfg.mode == 1) me->prio = W.next_prio_low--;
    switch_to(g_cand[0], K_SPIN);
    return;
  }
  uint64_t v;
  if (W.cfg.mode == 1) {
    for (auto& p : W.pct_points)
      if (p >= 0 && (int64_t)W.steps >= p) {
        me->prio = W.next_prio_low--;
        p = -1;
      }
    v = decide(SCHED, g_cand.size() + 1, [&]() -> uint64_t {
      size_t best = 0;
      for (size_t i = 1; i < g_cand.size(); ++i)
        if (g_cand[i]->prio > g_cand[best]->prio) best = i;
      return g_cand[best]->prio > me->prio ? best + 1 : 0;
    });
  } else {
    double p = (k == K_ATOMIC) ? W.cfg.preempt : W.cfg.preempt_sync;
    v = decide(SCHED, g_cand.size() + 1, [&]() -> uint64_t {
      if (rng_unit(SCHED) >= p) return 0;
      return 1 + rng_next(SCHED) % g_cand.size();
    });
  }
  if (v) switch_to(g_cand[v - 1], k);
}

bool block(const void* obj, const char* what, int64_t deadline) {
  Thread* me = tls_self;
  RtGuard g;
  ++W.steps;
  if ((int64_t)W.steps > W.cfg.step_cap) {
    fail("*", "livelock", "step cap reached:\n%s", thread_dump().c_str());
    fatal("step cap");
  }
  me->wait_obj = obj;
  me->wait_what = what;
  me->deadline = deadline;
  me->timed_out = false;
  me->plain = 0;
  me->state = TS::blocked;
  idle_until_candidate(true);
  Thread* n = pick_candidate();
  if (n != me) switch_to(n, K_BLOCK);
  else W.run_len = 0;
  return !me->timed_out;
}

void wake(Thread* t) {
  t->state = TS::runnable;
  t->wait_obj = nullptr;
  t->deadline = -1;
  t->timed_out = false;
}
int wake_all_on(const void* obj) {
  int n = 0;
  for (Thread* t : W.threads)
    if (t->state == TS::blocked && t->wait_obj == obj) wake(t), ++n;
  return n;
}
int wake_one_on(const void* obj) {
  std::vector<Thread*> w;
  for (Thread* t : W.threads)
    if (t->state == TS::blocked && t->wait_obj == obj) w.push_back(t);
  if (w.empty()) return -1;
  Thread* t = w[choose(SCHED, w.size())];
  wake(t);
  return t->id;
}
bool any_waiter(const void* obj) {
  for (Thread* t : W.threads)
    if (t->state == TS::blocked && t->wait_obj == obj) return true;
  return false;
}

void yield() { sched_point(K_USER); }
int self() { return tls_self ? tls_self->id : -1; }
uint64_t seq() { return ++W.seqno; }
size_t live_threads() {
  size_t n = 0;
  for (Thread* t : W.threads) n += t->state == TS::runnable || t->state == TS::blocked;
  return n;
}
void sleep_for(int64_t ns) {
  if (!simulated()) return;
  if (tls_self->noyield) return;
  if (ns <= 0) {
    sched_point(K_USER);
    return;
  }
  RtGuard g;
  static char what;
  block(&what + 0 * tls_self->id, "sleep", W.t + ns);
}
bool wait_until(const std::function<bool()>& pred, int64_t timeout, int64_t poll) {
  int64_t end = W.t + timeout;
  for (;;) {
    bool ok;
    {
      Harness h;
      ok = pred();
    }
    if (ok) return true;
    if (W.t >= end) return false;
    sleep_for(std::min(poll, end - W.t));
  }
}
Harness::Harness() {
  if (W.active && tls_self) ++tls_self->nosim, ++tls_self->noyield;
}
Harness::~Harness() {
  if (W.active && tls_self) --tls_self->nosim, --tls_self->noyield;
}
NoYield::NoYield() {
  if (W.active && tls_self) ++tls_self->noyield;
}
NoYield::~NoYield() {
  if (W.active && tls_self) --tls_self->noyield;
}
Config& config() { return W.cfg; }
void fail_alloc_after(int64_t n) {
  if (tls_self) tls_self->fail_alloc = n, tls_self->alloc_fired = false;
}
bool alloc_fail_fired() { return tls_self && tls_self->alloc_fired; }

// ----------------------------------------------------------------- threads --
static pthread_key_t g_exit_key;
static void exit_key_dtor(void* p) {
  Thread* t = static_cast<Thread*>(p);
  if (tls_self != t) return;
  if (t->exit_rounds < 2) {
    ++t->exit_rounds;
    RtGuard g;
    pthread_setspecific(g_exit_key, t);
    return;
  }
  reap_current();
}
void reap_current() {
  Thread* me = tls_self;
  ++tls_in_rt;  // for good
  me->state = TS::finished;
  {
    me->vc.set(me->id, me->vc.get(me->id) + 1);
  }
  wake_all_on(me);
  idle_until_candidate(false);
  Thread* n = pick_candidate();
  note_switch(n, K_BLOCK);
  tls_self = nullptr;
  hand_to(n);
}
static void* thread_main(void* p) {
  Thread* t = static_cast<Thread*>(p);
  ++tls_in_rt;
  t->tid = (int)syscall(SYS_gettid);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = (void*)(kStackBase + (uintptr_t)t->id * kStackSize);
  ss.ss_size = kAltSize;
  sigaltstack(&ss, nullptr);
  await_baton(t);
  pthread_setspecific(g_exit_key, t);
  tls_self = t;
  --tls_in_rt;
  t->ret = t->fn(t->arg);
  return t->ret;
}
Thread* new_thread(void* (*fn)(void*), void* arg) {
  RtGuard g;
  if (W.threads.size() >= (size_t)kMaxThreads) fatal("too many threads");
  auto* t = new Thread;
  t->id = (int)W.threads.size();
  t->fn = fn;
  t->arg = arg;
  if (tls_self) {
    t->vc = tls_self->vc;
    tls_self->vc.set(tls_self->id, tls_self->vc.get(tls_self->id) + 1);
  }
  t->vc.set(t->id, 1);
  if (W.cfg.mode == 1) t->prio = 1 + (int64_t)choose(SCHED, 1000);
  W.threads.push_back(t);
  return t;
}
typedef int (*pthread_create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int start_real(Thread* t) {
  RtGuard g;
  static auto real = (pthread_create_t)dlsym(RTLD_NEXT, "pthread_create");
  pthread_attr_t a;
  pthread_attr_init(&a);
  char* stk = (char*)(kStackBase + (uintptr_t)t->id * kStackSize);
  if (mmap(stk, kStackSize, PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED)
    fatal("stack mmap");
  mprotect(stk + kAltSize, kGuardSize, PROT_NONE);
  pthread_attr_setstack(&a, stk + kAltSize + kGuardSize, kStackSize - kAltSize - kGuardSize);
  pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  int rc = real(&t->real, &a, thread_main, t);
  pthread_attr_destroy(&a);
  if (rc) fatal("pthread_create: %d", rc);
  return 0;
}

struct SpawnArg {
  std::function<void()> f;
};
static void* spawn_main(void* p) {
  auto* a = static_cast<SpawnArg*>(p);
  a->f();
  {
    RtGuard g;
    delete a;
  }
  return nullptr;
}
int spawn(std::function<void()> f) {
  Thread* t;
  {
    RtGuard g;
    auto* a = new SpawnArg{std::move(f)};
    t = new_thread(spawn_main, a);
    start_real(t);
  }
  sched_point(K_CREATE);
  return t->id;
}
void join(int h) {
  Thread* t;
  {
    RtGuard g;
    t = W.threads[h];
    while (t->state != TS::finished) block(t, "join", -1);
    hb_acquire(t->vc);
    t->joined = true;
  }
}

std::string thread_dump() {
  RtGuard g;
  std::string s;
  char b[256];
  for (Thread* t : W.threads) {
    const char* st = t->state == TS::runnable ? "runnable"
                     : t->state == TS::blocked ? "blocked"
                     : t->state == TS::dead ? "dead"
                                            : "finished";
    snprintf(b, sizeof b, "  thread %d: %s%s%s\n", t->id, st, t->state == TS::blocked ? " in " : "",
             t->state == TS::blocked ? t->wait_what : "");
    s += b;
  }
  return s;
}

// -------------------------------------------------------------------- logs --
static std::map<std::string, int64_t>*g_faults, *g_probes;
void log(const char* fmt, ...) {
  RtGuard g;
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  mix_str(b);
  mix((uint64_t)W.t);
  if (S) {
    char* slot = S->logring[S->lognext++ % 256];
    snprintf(slot, 160, "[%.6f] t%d %s", W.t / 1e9, tls_self ? tls_self->id : -1, b);
  }
  if (g_trace)
    fprintf(stderr, "[%10.6f] t%d %s\n", W.t / 1e9, tls_self ? tls_self->id : -1, b);
}
static uint64_t g_nfaults;
void fault(const char* kind) {
  RtGuard g;
  ++g_nfaults;
  ++(*g_faults)[kind];
  log("fault %s", kind);
}
uint64_t fault_total() { return g_nfaults; }
void probe(const char* name, int64_t n) {
  RtGuard g;
  (*g_probes)[name] += n;
}
void state_hash(uint64_t h) {
  RtGuard g;
  if (S && S->nstates < 8192) S->states[S->nstates++] = h;
}
const char* check_prop() { return g_prop.c_str(); }
bool checking(const char* p) { return g_prop == p || g_prop == "*"; }
static std::string* g_detail;
void add_detail(const std::string& t) {
  RtGuard g;
  *g_detail += t;
}

static void write_result(uint32_t status) {
  if (!S) return;
  S->hash = W.hash;
  S->sched_hash = W.sched_hash;
  S->steps = W.steps;
  S->switches = W.switches;
  S->t = W.t;
  for (int i = 0; i < NSTREAM; ++i) {
    size_t n = C.rec[i].size();
    if (n > 400000) n = 400000, S->over = 1;
    S->nrec[i] = (uint32_t)n;
    memcpy(S->recs[i], C.rec[i].data(), n * sizeof(Rec));
  }
  std::string st;
  for (auto& k : *g_faults) st += "F " + k.first + " " + std::to_string(k.second) + "\n";
  for (auto& k : *g_probes) st += "P " + k.first + " " + std::to_string(k.second) + "\n";
  snprintf(S->stats, sizeof S->stats, "%s", st.c_str());
  snprintf(S->detail, sizeof S->detail, "%s", g_detail->c_str());
  S->status = status;
}
[[noreturn]] void end_run() {
  ++tls_in_rt;
  write_result(1);
  _exit(0);
}
[[noreturn]] void fatal(const char* fmt, ...) {
  ++tls_in_rt;
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (S) {
    snprintf(S->cls, sizeof S->cls, "simulator-error");
    snprintf(S->msg, sizeof S->msg, "%s", b);
    write_result(3);
  }
  fprintf(stderr, "simulator error: %s\n", b);
  _exit(3);
}
void fail(const char* prop, const char* cls, const char* fmt, ...) {
  RtGuard g;
  char b[6000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  bool mine = g_prop == "*" || !strcmp(prop, "*") || g_prop == prop;
  if (!mine) {
    log("other property %s: %s", prop, cls);
    return;
  }
  if (S) {
    snprintf(S->prop, sizeof S->prop, "%s", prop);
    snprintf(S->cls, sizeof S->cls, "%s", cls);
    snprintf(S->msg, sizeof S->msg, "%s", b);
    mix_str(cls);
    write_result(2);
  }
  if (g_trace) fprintf(stderr, "FAIL %s %s: %s\n", prop, cls, b);
  _exit(2);
}

// ----------------------------------------------------------------- atfork ---
struct AtFork {
  void (*prep)();
  void (*parent)();
  void (*child)();
};
static std::vector<AtFork>* g_atfork;
static std::vector<std::function<void()>>* g_fork_point;
size_t fork_handlers() { return g_atfork ? g_atfork->size() : 0; }
static void kill_others() {
  for (Thread* t : W.threads)
    if (t != tls_self && t->state != TS::finished) t->state = TS::dead;
  mutexes_on_fork_child();
  net_on_fork_child();
  ++W.fork_epoch;
}
int fork_epoch() { return W.fork_epoch; }
void on_fork_point(std::function<void()> f) {
  RtGuard g;
  g_fork_point->push_back(std::move(f));
}
bool fork_as(bool child) {
  sched_point(K_SYSCALL);
  log("fork as %s", child ? "child" : "parent");
  auto hs = *g_atfork;
  for (size_t i = hs.size(); i-- > 0;)
    if (hs[i].prep) hs[i].prep();
  {
    Harness h;
    auto fp = *g_fork_point;
    for (auto& f : fp) f();
  }
  if (child) {
    RtGuard g;
    kill_others();
  }
  for (auto& h : hs) {
    if (child && h.child) h.child();
    if (!child && h.parent) h.parent();
  }
  return child;
}
typedef pid_t (*fork_t)(void);
std::string fork_real(const std::function<std::string()>& fn) {
  sched_point(K_SYSCALL);
  uint64_t child_seed = choose(WORK, 1ull << 40);
  uint64_t salt = W.entropy_salt * 1000003 + ++W.forks;
  fault("fork");
  auto hs = *g_atfork;
  for (size_t i = hs.size(); i-- > 0;)
    if (hs[i].prep) hs[i].prep();
  int p[2];
  pid_t pid;
  {
    RtGuard g;
    // no kernel thread may be inside the C library's own locks at the split
    for (Thread* t : W.threads) {
      if (t == tls_self || t->state == TS::dead) continue;
      while (!t->tid) syscall(SYS_sched_yield);
      if (t->state == TS::finished)
        while (syscall(SYS_tgkill, syscall(SYS_getpid), (int)t->tid, 0) == 0) syscall(SYS_sched_yield);
    }
    if (syscall(SYS_pipe2, p, 0)) fatal("pipe");
    static auto real = (fork_t)dlsym(RTLD_NEXT, "fork");
    pid = real();
    if (pid < 0) fatal("fork");
  }
  if (pid == 0) {
    {
      RtGuard g;
      syscall(SYS_close, p[0]);
      kill_others();
      W.entropy_salt = splitmix(salt);
      C.derived = true;
      for (int i = 0; i < NSTREAM; ++i) C.rng[i] = child_seed * 4 + (uint64_t)i;
    }
    for (auto& h : hs)
      if (h.child) h.child();
    std::string r = fn();
    RtGuard g;
    const char* d = r.data();
    size_t n = r.size();
    while (n) {
      long k = syscall(SYS_write, p[1], d, n);
      if (k <= 0) break;
      d += k;
      n -= (size_t)k;
    }
    _exit(0);
  }
  for (auto& h : hs)
    if (h.parent) h.parent();
  RtGuard g;
  syscall(SYS_close, p[1]);
  std::string out;
  char buf[4096];
  for (;;) {
    long k = syscall(SYS_read, p[0], buf, sizeof buf);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) break;
    out.append(buf, (size_t)k);
  }
  syscall(SYS_close, p[0]);
  mix_str(out.c_str());
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 2) {
    // a failure inside the child: S already describes it
    _exit(2);
  }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    if (S && S->status) _exit(2);
    fail("*", "child-died", "forked child ended with status %x", st);
    fatal("forked child ended with status %x", st);
  }
  return out;
}

// ------------------------------------------------------------- run a body ---
static std::vector<Scenario>* g_scen;
void register_scenario(const char* n, Body b) {
  RtGuard g;
  if (!g_scen) g_scen = new std::vector<Scenario>;
  g_scen->push_back(Scenario{n, b});
}
static Body find_scenario(const std::string& n) {
  if (g_scen)
    for (auto& s : *g_scen)
      if (n == s.name) return s.body;
  return nullptr;
}
std::vector<Scenario> scenarios() { return g_scen ? *g_scen : std::vector<Scenario>{}; }

static Body g_body;
static void* body_main(void*) {
  g_body();
  end_run();
}

static void run_child(const RunSpec& spec) {
  g_trace = getenv("SIM_TRACE") != nullptr;
  g_prop = spec.prop;
  W.seed = spec.seed;
  uint64_t x = spec.seed;
  for (int i = 0; i < NSTREAM; ++i) {
    C.rng[i] = splitmix(x);
    C.count[i] = 0;
    C.rec[i].clear();
    C.in[i].clear();
    for (auto& r : spec.recs[i]) C.in[i][r.idx] = r.val;
  }
  C.replay = spec.replay;
  g_body = find_scenario(spec.scenario);
  if (!g_body) fatal("no scenario %s", spec.scenario.c_str());
  shadow_reset_all();
  net_reset();
  pthread_key_create(&g_exit_key, exit_key_dtor);
  // fixed scheduler configuration comes from the run itself
  W.cfg = Config{};
  W.cfg.mode = chance(SCHED, 0.35) ? 1 : 0;
  W.cfg.pct_changes = (int)choose(SCHED, 4);
  W.cfg.pct_len = 200 << choose(SCHED, 6);
  W.cfg.preempt = (double[]){0.02, 0.05, 0.15, 0.3}[choose(SCHED, 4)];
  W.cfg.preempt_sync = (double[]){0.1, 0.25, 0.5}[choose(SCHED, 3)];
  for (int i = 0; i < W.cfg.pct_changes; ++i)
    W.pct_points.push_back((int64_t)choose(SCHED, (uint64_t)W.cfg.pct_len));
  Thread* t = new_thread(body_main, nullptr);
  start_real(t);
  crash_handlers_install();
  heap_run_begins();
  W.active = true;
  hand_to(t);
  for (;;) {
    std::atomic<int> never{0};
    futex_wait(&never, 0);
  }
}

static void ensure_globals() {
  static bool done = false;
  if (done) return;
  done = true;
  g_events = new std::priority_queue<Ev, std::vector<Ev>, EvLater>;
  g_faults = new std::map<std::string, int64_t>;
  g_probes = new std::map<std::string, int64_t>;
  g_detail = new std::string;
  g_fork_point = new std::vector<std::function<void()>>;
  if (!g_atfork) g_atfork = new std::vector<AtFork>;
  g_cand.reserve(kMaxThreads);
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                    MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

void run_forked(const RunSpec& spec, double wall_limit) {
  RtGuard g;
  ensure_globals();
  memset(S, 0, offsetof(Shared, stats));
  S->stats[0] = S->detail[0] = 0;
  S->nstates = 0;
  S->lognext = 0;
  static auto real = (fork_t)dlsym(RTLD_NEXT, "fork");
  fflush(stdout);
  pid_t pid = real();
  if (pid < 0) {
    S->status = 3;
    snprintf(S->msg, sizeof S->msg, "fork failed");
    return;
  }
  if (pid == 0) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = SIG_DFL;
    sigaction(SIGALRM, &sa, nullptr);
    run_child(spec);
    _exit(3);
  }
  int st = 0;
  double cpu = 0;
  struct timespec t0, t1;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
  for (;;) {
    struct rusage ru;
    memset(&ru, 0, sizeof ru);
    pid_t r = wait4(pid, &st, 0, &ru);
    cpu = (double)(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec);
    if (r == pid) break;
    if (r < 0 && errno == EINTR) {
      syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) > wall_limit) kill(pid, SIGKILL);
      continue;
    }
    break;
  }
  if (S->status == 0) {
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) {
      S->status = 2;
      snprintf(S->prop, sizeof S->prop, "*");
      snprintf(S->cls, sizeof S->cls, "crash-signal-%d", WTERMSIG(st));
      snprintf(S->msg, sizeof S->msg, "the process died from signal %d", WTERMSIG(st));
    } else if (WIFSIGNALED(st) && cpu > 0.5 * wall_limit) {  // (a starved run isn't a hang)
      S->status = 2;
      snprintf(S->prop, sizeof S->prop, "*");
      snprintf(S->cls, sizeof S->cls, "hang");
      snprintf(S->msg, sizeof S->msg, "the run computes for ever without reaching a point where it could be interrupted");
    } else if (WIFSIGNALED(st)) {
      S->status = 4;  // starved of processor time: says nothing
    } else {
      S->status = 3;
      snprintf(S->msg, sizeof S->msg, "run ended without a result (status %x)", st);
    }
  }
}
}  // namespace sim

extern "C" {
SIM_API int pthread_atfork(void (*prep)(void), void (*parent)(void), void (*child)(void)) {
  sim::RtGuard g;
  if (!sim::g_atfork) sim::g_atfork = new std::vector<sim::AtFork>;
  sim::g_atfork->push_back(sim::AtFork{prep, parent, child});
  return 0;
}
SIM_API int __register_atfork(void (*prep)(void), void (*parent)(void), void (*child)(void), void*) {
  return pthread_atfork(prep, parent, child);
}
}
