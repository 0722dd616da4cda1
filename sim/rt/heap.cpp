// malloc family.  Memory allocated by simulated code comes from an arena at a
// fixed address (so that runs are repeatable), with redzones and a quarantine.
#include <errno.h>
#include <execinfo.h>
#include <link.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include "internal.h"

namespace sim {
struct Hdr {
  uint32_t magic;
  uint32_t cls;
  uint64_t size;
};
static_assert(sizeof(Hdr) == 16, "");
constexpr uint32_t kLive = 0xA110C8ED, kFree = 0xF4EEF4EE, kAl = 0xA119A119;
constexpr int kClasses = 40;

constexpr uint32_t kHarness = 1u << 31;  // in cls: allocated by harness code

struct FreeNode {
  FreeNode* next;
};
struct Arena {
  uintptr_t base, end, cur;
  FreeNode* head[kClasses];
  FreeNode* tail[kClasses];
  uint32_t nfree[kClasses];
  std::atomic<int> lk;
};
static Arena g_rt{}, g_run{};
static uintptr_t g_rt_start = 0;  // what lies below was there before the run
void heap_run_begins() { g_rt_start = g_rt.cur; }
uint8_t* g_hshadow = nullptr;  // one byte per 8 bytes of the run arena
static bool g_mapped = false;

static void map_all() {
  g_mapped = true;
  auto m = [](uintptr_t a, size_t n) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) {
      const char e[] = "simulator: cannot map arena\n";
      (void)!write(2, e, sizeof e - 1);
      _exit(3);
    }
  };
  m(kRtBase, kRtSize);
  m(kRunBase, kRunSize);
  g_rt.base = g_rt.cur = kRtBase;
  g_rt.end = kRtBase + kRtSize;
  g_run.base = g_run.cur = kRunBase;
  g_run.end = kRunBase + kRunSize;
  uintptr_t sh = 0x130000000000ull;
  m(sh, kRunSize >> 3);
  g_hshadow = (uint8_t*)sh;
}
static int cls_of(size_t n, size_t* rounded) {
  // classes: multiples of 32 up to 512, then powers of two
  if (n <= 512) {
    int c = (int)((n + 31) / 32);
    if (c == 0) c = 1;
    *rounded = (size_t)c * 32;
    return c;
  }
  size_t r = 1024;
  int c = 17;
  while (r < n) r <<= 1, ++c;
  *rounded = r;
  return c;
}
static void poison(uintptr_t p, size_t n, size_t valid) {
  uint8_t* s = g_hshadow + ((p - kRunBase) >> 3);
  size_t full = valid >> 3;
  memset(s, 8, full);
  size_t tot = n >> 3;
  if (full < tot) {
    s[full] = (uint8_t)(valid & 7);
    if (full + 1 < tot) memset(s + full + 1, 0, tot - full - 1);
  }
}
static int64_t g_live = 0;  // bytes of the code under test
static void* alloc_in(Arena& a, size_t n, bool run) {
  size_t r;
  int c = cls_of(n, &r);
  if (c >= kClasses) return nullptr;
  Hdr* h = nullptr;
  if (!run)
    while (a.lk.exchange(1, std::memory_order_acquire)) {
    }
  uint32_t keep = run ? (uint32_t)W.cfg.quarantine : 0;
  if (a.head[c] && a.nfree[c] > keep) {
    FreeNode* f = a.head[c];
    a.head[c] = f->next;
    if (!a.head[c]) a.tail[c] = nullptr;
    --a.nfree[c];
    h = (Hdr*)((char*)f - sizeof(Hdr));
  } else {
    size_t tot = sizeof(Hdr) + r + 16;
    if (a.cur + tot > a.end) {
      if (!run) a.lk.store(0, std::memory_order_release);
      return nullptr;
    }
    h = (Hdr*)a.cur;
    a.cur += tot;
  }
  h->magic = kLive;
  h->cls = (uint32_t)c | (run && tls_self && tls_self->nosim ? kHarness : 0);
  h->size = n;
  if (run && !(h->cls & kHarness)) g_live += (int64_t)n;
  if (!run) a.lk.store(0, std::memory_order_release);
  void* p = h + 1;
  if (run) {
    poison((uintptr_t)p, r, n);
    RtGuard g;
    static const char* watch = getenv("SIM_WATCH");  // where is this block allocated?
    if (watch && strtoull(watch, nullptr, 16) == (uintptr_t)p) {
      void* bt[40];
      backtrace_symbols_fd(bt, backtrace(bt, 40), 2);
    }
    shadow_clear((uintptr_t)p, r);
  }
  return p;
}
static bool in_run(uintptr_t p) { return p >= kRunBase && p < kRunBase + kRunSize; }
static bool in_rt(uintptr_t p) { return p >= kRtBase && p < kRtBase + kRtSize; }

static Hdr* hdr_of(void* p) {
  Hdr* h = (Hdr*)p - 1;
  if (h->magic == kAl) h = (Hdr*)(uintptr_t)h->size;  // aligned block
  return h;
}
static size_t block_size(void* p) {
  Hdr* h = hdr_of(p);
  return h->size - (size_t)((char*)p - (char*)(h + 1));
}
static void free_in(Arena& a, void* p, bool run) {
  Hdr* h = hdr_of(p);
  if (h->magic != kLive) {
    if (W.active) {
      RtGuard g;
      fail("*", h->magic == kFree ? "double-free" : "bad-free", "free(%p) of %s block", p,
           h->magic == kFree ? "an already freed" : "an unknown");
    }
    abort();
  }
  if (!run)
    while (a.lk.exchange(1, std::memory_order_acquire)) {
    }
  h->magic = kFree;
  if (run && !(h->cls & kHarness)) g_live -= (int64_t)h->size;
  h->cls &= ~kHarness;
  int c = (int)h->cls;
  FreeNode* f = (FreeNode*)(h + 1);
  size_t r;
  cls_of(h->size ? h->size : 1, &r);
  if (run) {
    poison((uintptr_t)f, r, 0);
    RtGuard g;
    mutex_drop_range((uintptr_t)f, r);
    sync_drop_range((uintptr_t)f, r);
    // stale contents must not look alive
    memset(f, 0xDD, r < 4096 ? r : 4096);
  }
  f->next = nullptr;
  if (run && W.cfg.quarantine == 0) {  // immediate LIFO reuse
    f->next = a.head[c];
    a.head[c] = f;
    if (!a.tail[c]) a.tail[c] = f;
  } else {
    if (a.tail[c]) a.tail[c]->next = f;
    else a.head[c] = f;
    a.tail[c] = f;
  }
  ++a.nfree[c];
  if (!run) a.lk.store(0, std::memory_order_release);
}
static bool use_run() { return W.active && tls_self && tls_in_rt == 0; }

static bool g_alloc_failed = false;
static void* do_alloc(size_t n) {
  if (!g_mapped) map_all();
  if (n == 0) n = 1;
  if (use_run()) {
    Thread* t = tls_self;
    if (t->nosim == 0) {
      if (t->fail_alloc > 0 && --t->fail_alloc == 0) {
        t->alloc_fired = g_alloc_failed = true;
        fault("alloc_fail");
        errno = ENOMEM;
        return nullptr;
      }
      if (W.cfg.alloc_fail > 0 && t->polls && chance(FAULT, W.cfg.alloc_fail)) {
        t->alloc_fired = g_alloc_failed = true;
        fault("alloc_fail");
        errno = ENOMEM;
        return nullptr;
      }
    }
    void* p = alloc_in(g_run, n, true);
    if (!p) {
      RtGuard g;
      if (n < (1u << 26)) fatal("run arena exhausted (allocating %zu)", n);
      errno = ENOMEM;
    }
    return p;
  }
  void* p = alloc_in(g_rt, n, false);
  if (!p) errno = ENOMEM;
  return p;
}
static void do_free(void* p) {
  uintptr_t a = (uintptr_t)p;
  if (in_run(a)) {
    if (!tls_self) return;  // a thread that has already left the simulation
    free_in(g_run, p, true);
  } else if (in_rt(a)) {
    free_in(g_rt, p, false);
  } else if (W.active) {
    RtGuard g;
    fail("*", "bad-free", "free(%p) of memory that is no heap block", p);
  }
}
bool heap_check_failed(uintptr_t p, size_t n) {
  if (p < kRunBase || p + n > kRunBase + kRunSize) return false;
  while (n) {
    uint8_t s = g_hshadow[(p - kRunBase) >> 3];
    size_t off = p & 7;
    size_t k = 8 - off;
    if (k > n) k = n;
    if (off + k > s) return true;
    p += k;
    n -= k;
  }
  return false;
}
// Blocks that no global, stack or other block points to (conservatively: any
// word that looks like an address inside of a block keeps it).
static size_t rounded_of(uint32_t c) { return c <= 16 ? (size_t)c * 32 : (size_t)1024 << (c - 17); }
struct Scan {
  std::vector<Hdr*> blocks;
  std::vector<bool> seen;
  std::vector<size_t> todo;
  void mark(size_t i) {
    if (!seen[i]) seen[i] = true, todo.push_back(i);
  }
  void word(uintptr_t v) {
    if (v < kRunBase || v >= g_run.cur) return;
    auto it = std::upper_bound(blocks.begin(), blocks.end(), (Hdr*)v);
    if (it == blocks.begin()) return;
    size_t i = (size_t)(it - blocks.begin()) - 1;
    Hdr* h = blocks[i];
    // one past the end still counts: an empty range may point there
    if (v > (uintptr_t)(h + 1) + rounded_of(h->cls & ~kHarness)) return;
    mark(i);
  }
  void range(uintptr_t a, uintptr_t b) {
    for (a = (a + 7) & ~(uintptr_t)7; a + 8 <= b; a += 8) word(*(uintptr_t*)a);
  }
};
static int scan_segments(dl_phdr_info* info, size_t, void* p) {
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    auto& h = info->dlpi_phdr[i];
    if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
    static_cast<Scan*>(p)->range(info->dlpi_addr + h.p_vaddr, info->dlpi_addr + h.p_vaddr + h.p_memsz);
  }
  return 0;
}
__attribute__((noinline)) size_t leaked_blocks(size_t* bytes, size_t* first) {
  RtGuard g;
  __builtin_unwind_init();
  Scan s;
  for (uintptr_t p = kRunBase; p < g_run.cur;) {
    Hdr* h = (Hdr*)p;
    if (h->magic == kLive) s.blocks.push_back(h);
    p += sizeof(Hdr) + rounded_of(h->cls & ~kHarness) + 16;
  }
  s.seen.resize(s.blocks.size());
  for (size_t i = 0; i < s.blocks.size(); ++i)
    if (s.blocks[i]->cls & kHarness) s.mark(i);
  dl_iterate_phdr(scan_segments, &s);
  s.range(kRtBase, g_rt_start);  // caches of the libraries begin there
  for (auto* t : W.threads) {
    if (t->state != TS::runnable && t->state != TS::blocked) continue;
    uintptr_t stk = kStackBase + (uintptr_t)t->id * kStackSize;
    s.range(t == tls_self ? (uintptr_t)__builtin_frame_address(0) : stk + kAltSize + kGuardSize, stk + kStackSize);
  }
  while (!s.todo.empty()) {
    Hdr* h = s.blocks[s.todo.back()];
    s.todo.pop_back();
    s.range((uintptr_t)(h + 1), (uintptr_t)(h + 1) + std::min<size_t>(h->size, rounded_of(h->cls & ~kHarness)));
  }
  size_t n = 0;
  *bytes = *first = 0;
  for (size_t i = 0; i < s.blocks.size(); ++i) {
    if (s.seen[i]) continue;
    if (!n++) *first = s.blocks[i]->size;
    *bytes += s.blocks[i]->size;
    if (getenv("SIM_LEAKS")) fprintf(stderr, "leaked %p: %llu bytes\n", (void*)(s.blocks[i] + 1), (unsigned long long)s.blocks[i]->size);
  }
  return n;
}
int64_t live_bytes() { return g_live; }
std::string live_sizes() {
  RtGuard g;
  std::map<size_t, std::pair<size_t, uintptr_t>> by;
  for (uintptr_t p = kRunBase; p < g_run.cur;) {
    Hdr* h = (Hdr*)p;
    if (h->magic == kLive && !(h->cls & kHarness)) {
      auto& e = by[h->size];
      ++e.first;
      e.second = (uintptr_t)(h + 1);
    }
    p += sizeof(Hdr) + rounded_of(h->cls & ~kHarness) + 16;
  }
  std::string r;
  char b[80];
  for (auto& e : by)
    if (e.second.first * e.first >= 1500) {
      snprintf(b, sizeof b, " %zux%zu(%lx)", e.second.first, e.first, (unsigned long)e.second.second);
      r += b;
    }
  return r;
}
void check_leaks(const char* prop, const char* when) {
  if (g_alloc_failed) return;  // c-ares and protobuf lose memory when an allocation fails
  size_t bytes, first, n = leaked_blocks(&bytes, &first);
  if (n) fail(prop, "leak", "%zu blocks of %zu bytes are lost %s (one has %zu bytes)", n, bytes, when, first);
}
const char* describe_addr(uintptr_t p, char* buf, size_t n) {
  if (p >= kRunBase && p < kRunBase + kRunSize) {
    // walk back to the closest header
    uintptr_t q = (p & ~(uintptr_t)15);
    for (int i = 0; i < 4096 && q >= kRunBase; ++i, q -= 16) {
      Hdr* h = (Hdr*)q;
      if ((h->magic == kLive || h->magic == kFree) && (h->cls & ~kHarness) > 0 && (h->cls & ~kHarness) < kClasses) {
        snprintf(buf, n, "heap block of %llu bytes%s, offset %lld", (unsigned long long)h->size,
                 h->magic == kFree ? " (freed)" : "", (long long)(p - (q + 16)));
        return buf;
      }
    }
    snprintf(buf, n, "heap");
  } else if (p >= kStackBase && p < kStackBase + kMaxThreads * kStackSize) {
    snprintf(buf, n, "stack of thread %d", (int)((p - kStackBase) / kStackSize));
  } else {
    snprintf(buf, n, "global 0x%llx", (unsigned long long)p);
  }
  return buf;
}
}  // namespace sim
using namespace sim;

extern "C" {
SIM_API void* malloc(size_t n) { return do_alloc(n); }
SIM_API void free(void* p) {
  if (p) do_free(p);
}
SIM_API void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  void* p = do_alloc(n);
  if (p) memset(p, 0, n);
  return p;
}
SIM_API void* realloc(void* p, size_t n) {
  if (!p) return do_alloc(n);
  if (n == 0) {
    free(p);
    return nullptr;
  }
  void* q = do_alloc(n);
  if (!q) return nullptr;
  size_t o = block_size(p);
  memcpy(q, p, o < n ? o : n);
  do_free(p);
  return q;
}
SIM_API int posix_memalign(void** out, size_t al, size_t n) {
  if (al <= 16) {
    *out = do_alloc(n);
    return *out ? 0 : ENOMEM;
  }
  char* p = (char*)do_alloc(n + al + 32);
  if (!p) return ENOMEM;
  uintptr_t a = ((uintptr_t)p + 16 + al - 1) & ~(uintptr_t)(al - 1);
  Hdr* real = hdr_of(p);
  Hdr* h = (Hdr*)a - 1;
  h->magic = kAl;
  h->size = (uint64_t)(uintptr_t)real;
  real->size = (uint64_t)(a - (uintptr_t)p) + n;
  *out = (void*)a;
  return 0;
}
SIM_API void* aligned_alloc(size_t al, size_t n) {
  void* p = nullptr;
  return posix_memalign(&p, al, n) ? nullptr : p;
}
SIM_API void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
SIM_API void* valloc(size_t n) { return aligned_alloc(4096, n); }
SIM_API size_t malloc_usable_size(void* p) { return p ? block_size(p) : 0; }
SIM_API void* reallocarray(void* p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return realloc(p, n);
}
SIM_API char* strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)do_alloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
}
