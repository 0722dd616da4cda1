// Interposed clocks, sleeps, entropy and a few other sources of nondeterminism.
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <random>
#include <stdexcept>
#include "internal.h"
using namespace sim;

static void put(struct timespec* ts, int64_t ns) {
  ts->tv_sec = ns / SEC;
  ts->tv_nsec = ns % SEC;
}
namespace sim {
SIM_API void entropy_script(uint64_t seed, int flip) {
  W.script_on = true;
  W.script_seed = seed;
  W.script_flip = flip;
  W.script_pos = 0;
}
SIM_API int entropy_script_end() {
  W.script_on = false;
  return (int)((W.script_pos + 3) / 4);
}
}
extern "C" {
SIM_API int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (!W.active || !tls_self) return (int)syscall(SYS_clock_gettime, c, ts);
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
    put(ts, system_now());
  else
    put(ts, now() + 5000 * SEC);
  if (simulated()) sched_point(K_ATOMIC);
  return 0;
}
SIM_API int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
SIM_API time_t time(time_t* t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
SIM_API int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!simulated()) return (int)syscall(SYS_nanosleep, a, b);
  sleep_for((int64_t)a->tv_sec * SEC + a->tv_nsec);
  return 0;
}
SIM_API int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b) {
  if (!simulated()) return syscall(SYS_clock_nanosleep, c, flags, a, b) ? errno : 0;
  int64_t d = (int64_t)a->tv_sec * SEC + a->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    struct timespec n;
    clock_gettime(c, &n);
    d -= (int64_t)n.tv_sec * SEC + n.tv_nsec;
  }
  sleep_for(d);
  return 0;
}
SIM_API int usleep(useconds_t u) {
  struct timespec ts;
  put(&ts, (int64_t)u * US);
  return nanosleep(&ts, nullptr);
}
SIM_API unsigned sleep(unsigned s) {
  struct timespec ts;
  put(&ts, (int64_t)s * SEC);
  nanosleep(&ts, nullptr);
  return 0;
}
static void fill(void* p, size_t n) {
  auto* c = (unsigned char*)p;
  if (W.script_on) {
    for (; n; --n, ++W.script_pos) {
      uint64_t w = W.script_pos / 4, x = (W.script_seed + w + 1) * 0x9e3779b97f4a7c15ull;
      x ^= x >> 29;
      x *= 0xbf58476d1ce4e5b9ull;
      x ^= x >> 32;
      *c++ = (unsigned char)((x >> 8 * (W.script_pos % 4)) ^ ((int64_t)w == W.script_flip ? 0x5a : 0));
    }
    return;
  }
  while (n) {
    uint64_t e = entropy();
    size_t k = n < 8 ? n : 8;
    memcpy(c, &e, k);
    c += k;
    n -= k;
  }
}
SIM_API ssize_t getrandom(void* p, size_t n, unsigned f) {
  if (!W.active) return syscall(SYS_getrandom, p, n, f);
  fill(p, n);
  return (ssize_t)n;
}
SIM_API int getentropy(void* p, size_t n) {
  if (!W.active) return syscall(SYS_getrandom, p, n, 0) == (long)n ? 0 : -1;
  fill(p, n);
  return 0;
}
SIM_API void arc4random_buf(void* p, size_t n) noexcept {
  if (!W.active) {
    syscall(SYS_getrandom, p, n, 0);
    return;
  }
  fill(p, n);
}
SIM_API uint32_t arc4random(void) noexcept {
  uint32_t r;
  arc4random_buf(&r, 4);
  return r;
}
SIM_API uint32_t arc4random_uniform(uint32_t n) noexcept { return n ? arc4random() % n : 0; }
// std::random_device
SIM_API unsigned _ZNSt13random_device9_M_getvalEv(void*) {
  if (simulated() && W.cfg.entropy_fail > 0 && chance(FAULT, W.cfg.entropy_fail)) {
    fault("entropy_fail");
    throw std::runtime_error("random_device could not be read");
  }
  uint32_t r;
  getentropy(&r, 4);
  return r;
}
SIM_API pid_t getpid(void) noexcept {
  if (!W.active) return (pid_t)syscall(SYS_getpid);
  return (pid_t)(4242 + (W.entropy_salt ? W.entropy_salt % 1000000 : 0) + (uint64_t)W.fork_epoch);
}
SIM_API int gethostname(char* name, size_t n) noexcept {
  snprintf(name, n, "simhost");
  return 0;
}
SIM_API void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) noexcept {
  const char* b = strrchr(file, '/');
  if (W.active) {
    RtGuard g;
    fail("*", "assert", "assertion failed: %s (%s:%u, %s)", e, b ? b + 1 : file, line, fn);
  }
  fprintf(stderr, "assertion failed: %s (%s:%u %s)\n", e, file, line, fn);
  abort();
}
static FILE* fake_file(const char* path) {
  const char* c = nullptr;
  if (!strcmp(path, "/etc/resolv.conf")) c = "nameserver 10.9.9.9\n";
  else if (!strcmp(path, "/etc/hosts")) c = "127.0.0.1 localhost\n";
  else if (!strcmp(path, "/etc/nsswitch.conf")) c = "hosts: files dns\n";
  else if (!strcmp(path, "/etc/host.conf") || !strcmp(path, "/etc/netsvc.conf") ||
           !strcmp(path, "/etc/svc.conf"))
    c = "\n";
  if (!c) return nullptr;
  return fmemopen((void*)c, strlen(c), "r");
}
SIM_API FILE* fopen(const char* path, const char* mode) {
  REAL(fopen);
  bool faulty = simulated();
  if (W.active) {
    RtGuard g;
    if (faulty && W.cfg.fopen_fail > 0 && !strcmp(mode, "r") && chance(FAULT, W.cfg.fopen_fail)) {
      fault("fopen_fail");
      errno = EMFILE;
      return nullptr;
    }
    if (FILE* f = fake_file(path)) return f;
  }
  RtGuard g;
  return real_fopen(path, mode);
}
SIM_API FILE* fopen64(const char* path, const char* mode) {
  REAL(fopen64);
  bool faulty = simulated();
  if (W.active) {
    RtGuard g;
    if (faulty && W.cfg.fopen_fail > 0 && !strcmp(mode, "r") && chance(FAULT, W.cfg.fopen_fail)) {
      fault("fopen_fail");
      errno = EMFILE;
      return nullptr;
    }
    if (FILE* f = fake_file(path)) return f;
  }
  RtGuard g;
  return real_fopen64(path, mode);
}
}
