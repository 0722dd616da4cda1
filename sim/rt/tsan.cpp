// The __tsan_* entry points the compiler inserts: atomics become scheduling
// points, plain accesses feed a happens-before race detector and a heap check.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include "internal.h"

namespace sim {
// ------------------------------------------------------------------ clocks --
static std::map<uintptr_t, VC>* g_sync;
VC& sync_clock(const void* o) {
  if (!g_sync) g_sync = new std::map<uintptr_t, VC>;
  return (*g_sync)[(uintptr_t)o];
}
void sync_drop_range(uintptr_t p, size_t n) {
  if (g_sync) g_sync->erase(g_sync->lower_bound(p), g_sync->lower_bound(p + n));
}
void hb_acquire(const VC& v) { tls_self->vc.join(v); }
static void tick() {
  Thread* t = tls_self;
  t->vc.set(t->id, t->vc.get(t->id) + 1);
}
void hb_release(VC& v) {
  v.join(tls_self->vc);
  tick();
}
void hb_release_store(VC& v) {
  v = tls_self->vc;
  tick();
}

// ------------------------------------------------------------------ shadow --
// cell: pc:24 | tid:7 | flags:2 (1 write, 2 atomic) | mask:8 | epoch:23
typedef uint64_t Cell;
static inline Cell mk(uintptr_t pc, int tid, int fl, unsigned mask, uint32_t ep) {
  return ((Cell)(pc & 0xffffff) << 40) | ((Cell)tid << 33) | ((Cell)fl << 31) |
         ((Cell)mask << 23) | (ep & 0x7fffff);
}
static inline unsigned c_pc(Cell c) { return (unsigned)(c >> 40); }
static inline int c_tid(Cell c) { return (int)((c >> 33) & 127); }
static inline int c_fl(Cell c) { return (int)((c >> 31) & 3); }
static inline unsigned c_mask(Cell c) { return (unsigned)((c >> 23) & 255); }
static inline uint32_t c_ep(Cell c) { return (uint32_t)(c & 0x7fffff); }

constexpr uintptr_t kLowEnd = 0x8000000;  // the executable's data, 128 MB
static Cell *g_sh_low, *g_sh_run, *g_sh_stk;
constexpr int kCells = 4;

static Cell* map_sh(uintptr_t at, size_t n) {
  void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) fatal("shadow mmap");
  return (Cell*)p;
}
void shadow_reset_all() {
  g_sh_low = map_sh(0x150000000000ull, kLowEnd * kCells);
  g_sh_run = map_sh(0x160000000000ull, kRunSize * kCells);
  g_sh_stk = map_sh(0x170000000000ull, (size_t)kMaxThreads * kStackSize * kCells);
}
static inline Cell* cells(uintptr_t p) {
  if (p - kRunBase < kRunSize) return g_sh_run + ((p - kRunBase) >> 3) * kCells;
  if (p < kLowEnd) return g_sh_low + (p >> 3) * kCells;
  if (p - kStackBase < (uintptr_t)kMaxThreads * kStackSize)
    return g_sh_stk + ((p - kStackBase) >> 3) * kCells;
  return nullptr;
}
void shadow_clear(uintptr_t p, size_t n) {
  Cell* c = cells(p);
  if (!c || n > kRunSize) return;
  if (n > 65536) {
    // large blocks: drop whole pages lazily
    memset(c, 0, (n >> 3) * kCells * sizeof(Cell));
    return;
  }
  memset(c, 0, ((n + 7) >> 3) * kCells * sizeof(Cell));
}

static void race(uintptr_t p, size_t n, int fl, uintptr_t pc, Cell old) {
  char d[160];
  describe_addr(p, d, sizeof d);
  unsigned p1 = c_pc(old), p2 = (unsigned)pc;
  static const char* kn[] = {"read", "write", "atomic read", "atomic write"};
  char cls[96];
  snprintf(cls, sizeof cls, "race");
  fail("*", cls,
       "data race: %s of %zu bytes by thread %d at pc 0x%x is unordered with %s by thread %d at pc "
       "0x%x (%s)",
       kn[fl], n, tls_self->id, p2, kn[c_fl(old)], c_tid(old), p1, d);
}

static void access1(uintptr_t p, unsigned mask, size_t n, int fl, uintptr_t pc) {
  Cell* c = cells(p);
  if (!c) return;
  Thread* me = tls_self;
  uint32_t ep = me->vc.get(me->id);
  Cell neu = mk(pc, me->id, fl, mask, ep);
  int slot = -1;
  for (int i = 0; i < kCells; ++i) {
    Cell o = c[i];
    if (!o) {
      if (slot < 0) slot = i;
      continue;
    }
    if (c_tid(o) == me->id) {
      if (c_mask(o) == mask && c_fl(o) == fl) slot = i;
      else if (slot < 0 && (c_mask(o) & ~mask) == 0 && ((fl & 1) || !(c_fl(o) & 1)) &&
               (c_fl(o) & 2) >= (fl & 2))
        slot = i;
      continue;
    }
    bool ordered = c_ep(o) <= (me->vc.get(c_tid(o)) & 0x7fffff);
    if (ordered) {
      if (slot < 0 && (c_mask(o) & ~mask) == 0 && ((fl & 1) || !(c_fl(o) & 1))) slot = i;
      continue;
    }
    if (!(c_mask(o) & mask)) continue;
    if (!((c_fl(o) | fl) & 1)) continue;
    if ((c_fl(o) & 2) && (fl & 2)) continue;
    if (W.cfg.races) race(p, n, fl, pc, o);
  }
  if (slot < 0) slot = (int)((pc >> 2) + W.steps) & (kCells - 1);
  c[slot] = neu;
}

static void __attribute__((noinline)) access_slow(uintptr_t p, size_t n, int fl, uintptr_t pc) {
  RtGuard g;
  if (W.cfg.uaf && heap_check_failed(p, n)) {
    char d[160];
    describe_addr(p, d, sizeof d);
    fail("*", "bad-memory-access", "%s of %zu bytes at an invalid heap address by thread %d at pc 0x%x (%s)",
         fl & 1 ? "write" : "read", n, tls_self->id, (unsigned)pc, d);
  }
  uintptr_t q = p;
  size_t left = n;
  while (left) {
    unsigned off = q & 7;
    size_t k = 8 - off;
    if (k > left) k = left;
    access1(q & ~(uintptr_t)7, (((1u << k) - 1) << off) & 255, n, fl, pc);
    q += k;
    left -= k;
  }
}
static inline void access(const void* a, size_t n, int fl, void* ra) {
  if (!tracked() || n == 0) return;
  Thread* me = tls_self;
  access_slow((uintptr_t)a, n, fl, (uintptr_t)ra - 1);
  if (++me->plain > 50000) {
    me->plain = 0;   // (a section that doesn't yield must not pay for every access from here on)
    W.steps += 200;  // so that a loop that never synchronises reaches the step cap, too
    sched_point(K_SPIN);
  }
}
static void atomic_access(const volatile void* a, size_t n, int fl, void* ra) {
  access_slow((uintptr_t)a, n, fl | 2, (uintptr_t)ra - 1);
}
static bool is_acq(int o) {
  return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST;
}
static bool is_rel(int o) {
  return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST;
}
static void on_load(const volatile void* a, int mo) {
  Thread* me = tls_self;
  VC& v = sync_clock((const void*)a);
  if (is_acq(mo)) me->vc.join(v);
  else me->fence_acq.join(v);
}
static void on_store(const volatile void* a, int mo) {
  Thread* me = tls_self;
  VC& v = sync_clock((const void*)a);
  if (is_rel(mo)) hb_release_store(v);
  else if (me->has_fence_rel) v = me->fence_rel;
  else v.clear();
}
static void on_rmw(const volatile void* a, int mo) {
  Thread* me = tls_self;
  VC& v = sync_clock((const void*)a);
  if (is_acq(mo)) me->vc.join(v);
  else me->fence_acq.join(v);
  if (is_rel(mo)) hb_release(v);
  else if (me->has_fence_rel) v.join(me->fence_rel);
}
static void on_fence(int mo) {
  Thread* me = tls_self;
  if (is_acq(mo)) me->vc.join(me->fence_acq);
  if (is_rel(mo)) {
    me->fence_rel = me->vc;
    me->has_fence_rel = true;
    tick();
  }
}
}  // namespace sim
using namespace sim;

#define RA __builtin_return_address(0)
extern "C" {
SIM_API void __tsan_init() {}
SIM_API void __tsan_func_entry(void*) {}
SIM_API void __tsan_func_exit() {}
SIM_API void __tsan_ignore_thread_begin() {}
SIM_API void __tsan_ignore_thread_end() {}
#define RW(n)                                                                             \
  SIM_API void __tsan_read##n(void* p) { access(p, n, 0, RA); }                           \
  SIM_API void __tsan_write##n(void* p) { access(p, n, 1, RA); }                          \
  SIM_API void __tsan_unaligned_read##n(void* p) { access(p, n, 0, RA); }                 \
  SIM_API void __tsan_unaligned_write##n(void* p) { access(p, n, 1, RA); }                \
  SIM_API void __tsan_volatile_read##n(void* p) { access(p, n, 0, RA); }                  \
  SIM_API void __tsan_volatile_write##n(void* p) { access(p, n, 1, RA); }                 \
  SIM_API void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, 0, RA); }        \
  SIM_API void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, 1, RA); }       \
  SIM_API void __tsan_read_write##n(void* p) { access(p, n, 1, RA); }                     \
  SIM_API void __tsan_unaligned_read_write##n(void* p) { access(p, n, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
SIM_API void __tsan_read_range(void* p, size_t n) { access(p, n, 0, RA); }
SIM_API void __tsan_write_range(void* p, size_t n) { access(p, n, 1, RA); }
SIM_API void __tsan_vptr_update(void** p, void* v) {
  if (tracked() && *p != v) access(p, 8, 1, RA);
}
SIM_API void __tsan_vptr_read(void** p) { access(p, 8, 0, RA); }
SIM_API void* __tsan_memcpy(void* d, const void* s, size_t n) {
  access(s, n, 0, RA);
  access(d, n, 1, RA);
  return memcpy(d, s, n);
}
SIM_API void* __tsan_memmove(void* d, const void* s, size_t n) {
  access(s, n, 0, RA);
  access(d, n, 1, RA);
  return memmove(d, s, n);
}
SIM_API void* __tsan_memset(void* d, int c, size_t n) {
  access(d, n, 1, RA);
  return memset(d, c, n);
}

static bool pre(const volatile void* a, size_t n, int fl, void* ra) {
  if (!tracked()) return false;
  sched_point(K_ATOMIC);
  atomic_access(a, n, fl, ra);
  return true;
}
#define ATOMICS(BITS, T)                                                                         \
  SIM_API T __tsan_atomic##BITS##_load(const volatile T* a, int mo) {                            \
    if (pre(a, sizeof(T), 0, RA)) {                                                              \
      RtGuard g;                                                                                 \
      on_load(a, mo);                                                                            \
    }                                                                                            \
    return *a;                                                                                   \
  }                                                                                              \
  SIM_API void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) {                         \
    if (pre(a, sizeof(T), 1, RA)) {                                                              \
      RtGuard g;                                                                                 \
      on_store(a, mo);                                                                           \
    }                                                                                            \
    *a = v;                                                                                      \
  }                                                                                              \
  RMW(BITS, T, exchange, v)                                                                      \
  RMW(BITS, T, fetch_add, (T)(old + v))                                                          \
  RMW(BITS, T, fetch_sub, (T)(old - v))                                                          \
  RMW(BITS, T, fetch_and, (T)(old & v))                                                          \
  RMW(BITS, T, fetch_or, (T)(old | v))                                                           \
  RMW(BITS, T, fetch_xor, (T)(old ^ v))                                                          \
  RMW(BITS, T, fetch_nand, (T) ~(old & v))                                                       \
  static int cas_##BITS(volatile T* a, T* e, T v, int mo, int fmo, bool weak, void* ra) {        \
    if (!tracked()) {                                                                            \
      if (*a == *e) {                                                                            \
        *a = v;                                                                                  \
        return 1;                                                                                \
      }                                                                                          \
      *e = *a;                                                                                   \
      return 0;                                                                                  \
    }                                                                                            \
    sched_point(K_ATOMIC);                                                                       \
    bool ok = *a == *e;                                                                          \
    if (ok && weak && W.cfg.cas_weak_fail > 0 && chance(FAULT, W.cfg.cas_weak_fail)) {           \
      fault("cas_spurious_fail");                                                                \
      ok = false;                                                                                \
    }                                                                                            \
    atomic_access(a, sizeof(T), ok ? 1 : 0, ra);                                                 \
    RtGuard g;                                                                                   \
    if (ok) {                                                                                    \
      on_rmw(a, mo);                                                                             \
      *a = v;                                                                                    \
      return 1;                                                                                  \
    }                                                                                            \
    on_load(a, fmo);                                                                             \
    *e = *a;                                                                                     \
    return 0;                                                                                    \
  }                                                                                              \
  SIM_API int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* e, T v, int mo,    \
                                                            int fmo) {                           \
    return cas_##BITS(a, e, v, mo, fmo, false, RA);                                              \
  }                                                                                              \
  SIM_API int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* e, T v, int mo,      \
                                                          int fmo) {                             \
    return cas_##BITS(a, e, v, mo, fmo, true, RA);                                               \
  }                                                                                              \
  SIM_API T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { \
    /* clang lowers every cmpxchg to this one, so weak failures can't be simulated */            \
    cas_##BITS(a, &e, v, mo, fmo, false, RA);                                                    \
    return e;                                                                                    \
  }
#define RMW(BITS, T, name, expr)                                            \
  SIM_API T __tsan_atomic##BITS##_##name(volatile T* a, T v, int mo) {      \
    if (pre(a, sizeof(T), 1, RA)) {                                         \
      RtGuard g;                                                            \
      on_rmw(a, mo);                                                        \
    }                                                                       \
    T old = *a;                                                             \
    *a = (expr);                                                            \
    return old;                                                             \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
typedef unsigned __int128 u128;
ATOMICS(128, u128)
SIM_API void __tsan_atomic_thread_fence(int mo) {
  if (!tracked()) return;
  sched_point(K_ATOMIC);
  RtGuard g;
  on_fence(mo);
}
SIM_API void __tsan_atomic_signal_fence(int) {}
}

// The libraries below the code aren't instrumented: what their out-of-line
// functions do to a string or a message's field is told on their behalf.
#include <dlfcn.h>
template <class F>
static F next_sym(const char* name) {
  RtGuard g;
  F f = (F)dlsym(RTLD_NEXT, name);
  if (!f) {
    fprintf(stderr, "no %s\n", name);
    abort();
  }
  return f;
}
#define NEXT(F, name) static const F f = next_sym<F>(name)
#define STR(fn) "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE" fn
#define PBI(fn) "_ZN6google8protobuf8internal" fn
#define ASM(name) __asm__(name)
static void touch(const void* p, size_t n, bool write, void* ra) {
  if (n) access((void*)p, n, write ? 1 : 0, ra);
}
#define STRING(name, mangled, ret, args, call, src, n)               \
  SIM_API ret sim_str_##name args ASM(STR(mangled));                 \
  ret sim_str_##name args {                                          \
    typedef ret(*F) args;                                            \
    NEXT(F, STR(mangled));                                           \
    touch(src, n, false, RA);                                        \
    touch(t, 16, true, RA);                                          \
    return f call;                                                   \
  }
STRING(append, "9_M_appendEPKcm", void*, (void* t, const char* s, size_t n), (t, s, n), s, n)
STRING(assign, "9_M_assignERKS4_", void, (void* t, const void* s), (t, s), s, 16)
STRING(replace, "10_M_replaceEmmPKcm", void*, (void* t, size_t a, size_t b, const char* s, size_t n), (t, a, b, s, n), s, n)
STRING(mutate, "9_M_mutateEmmPKcm", void, (void* t, size_t a, size_t b, const char* s, size_t n), (t, a, b, s, n), s, s ? n : 0)
STRING(reserve, "7reserveEm", void, (void* t, size_t n), (t, n), t, 16)
#define FIELD(name, mangled, ret, args, call, size)                  \
  SIM_API ret sim_pb_##name args ASM(PBI(mangled));                  \
  ret sim_pb_##name args {                                           \
    typedef ret(*F) args;                                            \
    NEXT(F, PBI(mangled));                                           \
    touch(t, size, true, RA);                                        \
    return f call;                                                   \
  }
FIELD(add, "20RepeatedPtrFieldBase18AddOutOfLineHelperEPv", void*, (void* t, void* p), (t, p), 24)
FIELD(extend, "20RepeatedPtrFieldBase14InternalExtendEi", void*, (void* t, int n), (t, n), 24)
FIELD(resv, "20RepeatedPtrFieldBase7ReserveEi", void, (void* t, int n), (t, n), 24)
FIELD(set, "14ArenaStringPtr3SetERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPNS0_5ArenaE", void, (void* t, const void* s, void* a), (t, s, a), 8)
FIELD(setm, "14ArenaStringPtr3SetEONSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPNS0_5ArenaE", void, (void* t, void* s, void* a), (t, s, a), 8)
