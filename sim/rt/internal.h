#pragma once
#include "sim.h"
namespace sim {
[[noreturn]] void fatal(const char* fmt, ...);
}
#include <pthread.h>
#include <atomic>
#include <cerrno>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>

namespace sim {
constexpr int kMaxThreads = 120;

// vector clock
struct VC {
  std::vector<uint32_t> c;
  uint32_t get(int i) const { return i < (int)c.size() ? c[i] : 0; }
  void set(int i, uint32_t v) {
    if (i >= (int)c.size()) c.resize(i + 1, 0);
    c[i] = v;
  }
  void join(const VC& o) {
    if (o.c.size() > c.size()) c.resize(o.c.size(), 0);
    for (size_t i = 0; i < o.c.size(); ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
  void clear() { c.clear(); }
};

enum class TS { runnable, blocked, finished, dead };

struct Thread {
  int id = 0;
  pthread_t real{};
  std::atomic<int> baton{0};
  std::atomic<int> tid{0};  // kernel thread, once it runs
  TS state = TS::runnable;
  const void* wait_obj = nullptr;
  const char* wait_what = "";
  int64_t deadline = -1;  // absolute sim time or -1
  bool timed_out = false;
  int64_t stalled_until = 0;
  bool detached = false;
  bool joined = false;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  VC vc;
  VC fence_acq, fence_rel;
  bool has_fence_rel = false;
  int64_t prio = 0;
  int nosim = 0;    // Harness depth
  int noyield = 0;
  int64_t fail_alloc = 0;
  bool alloc_fired = false;
  bool polls = false;  // runs an event loop
  uint32_t plain = 0;  // plain accesses since the last scheduling point
  int exit_rounds = 0;
};

struct World {
  bool active = false;
  bool script_on = false;
  uint64_t script_seed = 0, script_pos = 0;
  int64_t script_flip = -1;
  uint64_t seed = 0;
  int64_t t = 0;
  int64_t sys_off = 0;
  uint64_t steps = 0;
  uint64_t seqno = 0;
  uint64_t run_len = 0;
  uint64_t hash = 1469598103934665603ull;
  uint64_t sched_hash = 1469598103934665603ull;
  uint64_t switches = 0;
  std::vector<Thread*> threads;
  Thread* cur = nullptr;
  Config cfg;
  int fork_epoch = 0;
  int64_t next_prio_low = -1;
  std::vector<int64_t> pct_points;
  uint64_t entropy_ctr = 0;
  uint64_t entropy_salt = 0;  // differs in every forked process
  uint64_t forks = 0;
};
extern World W;
extern __thread Thread* tls_self __attribute__((tls_model("initial-exec")));
extern __thread int tls_in_rt __attribute__((tls_model("initial-exec")));

// true when the caller is a simulated thread inside a run
inline bool simulated() { return W.active && tls_self != nullptr && tls_in_rt == 0; }
// ... and not inside harness code
inline bool tracked() { return simulated() && tls_self->nosim == 0; }

struct RtGuard {
  RtGuard() { ++tls_in_rt; }
  ~RtGuard() { --tls_in_rt; }
};

enum Kind : int { K_ATOMIC = 0, K_LOCK, K_COND, K_SYSCALL, K_CREATE, K_SPIN, K_USER, K_BLOCK };
void sched_point(Kind k);
// Blocks the current thread; returns false on timeout.
bool block(const void* obj, const char* what, int64_t deadline);
void wake(Thread* t);
int wake_all_on(const void* obj);
int wake_one_on(const void* obj);  // chosen by SCHED stream
bool any_waiter(const void* obj);
void mix(uint64_t v);
void mix_str(const char* s);
[[noreturn]] void end_run();
[[noreturn]] void thread_gone();     // current thread finished: hand over, never return
void reap_current();                 // mark finished & hand over, returns without the baton
Thread* new_thread(void* (*fn)(void*), void* arg);
int start_real(Thread* t);
std::string thread_dump();
void run_due_events();

// race detector hooks
void hb_acquire(const VC& v);
void hb_release(VC& v);        // v = join(v, me); tick
void hb_release_store(VC& v);  // v = me; tick
void shadow_clear(uintptr_t p, size_t n);
VC& sync_clock(const void* obj);
void sync_drop_range(uintptr_t p, size_t n);
void mutex_drop_range(uintptr_t p, size_t n);
void mutexes_on_fork_child();
void shadow_reset_all();
void heap_run_begins();

constexpr uintptr_t kRtBase = 0x100000000000ull;
constexpr size_t kRtSize = 8ull << 30;
constexpr uintptr_t kRunBase = 0x120000000000ull;
constexpr size_t kRunSize = 1ull << 30;
constexpr uintptr_t kStackBase = 0x140000000000ull;
constexpr size_t kStackSize = 1ull << 20;
// the lowest part of each stack: one for signal handlers, then a guard page
constexpr size_t kAltSize = 1ull << 16, kGuardSize = 4096;
void heap_check_access(uintptr_t p, size_t n, bool write, void* pc);
bool heap_check_failed(uintptr_t p, size_t n);
extern uint8_t* g_hshadow;
void crash_handlers_install();
void tsan_rt_init();
const char* describe_addr(uintptr_t p, char* buf, size_t n);

// net
void net_reset();
void net_on_fork_child();

// results
struct Rec {
  uint64_t idx;
  uint64_t val;
};
struct Choices {
  bool derived = false;
  bool replay = false;
  uint64_t rng[NSTREAM];
  uint64_t count[NSTREAM];
  std::vector<Rec> rec[NSTREAM];                       // non-zero choices made
  std::unordered_map<uint64_t, uint64_t> in[NSTREAM];  // replay
};
extern Choices C;
uint64_t rng_next(Stream s);
double rng_unit(Stream s);
template <class G>
uint64_t decide(Stream s, uint64_t n, G&& gen) {
  if (n <= 1) return 0;
  uint64_t i = C.count[s]++;
  uint64_t v = 0;
  if (C.derived) return gen();  // forked process: everything follows from one recorded choice
  if (C.replay) {
    auto it = C.in[s].find(i);
    if (it != C.in[s].end()) v = it->second % n;
  } else {
    v = gen();
  }
  if (v) C.rec[s].push_back(Rec{i, v});
  return v;
}

template <class F>
F real_fn(const char* name);
}  // namespace sim

#include <dlfcn.h>
namespace sim {
template <class F>
F real_fn(const char* name) {
  RtGuard g;
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name) \
  static auto real_##name = ::sim::real_fn<decltype(&::name)>(#name)
}  // namespace sim
