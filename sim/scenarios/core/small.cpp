// Small shared pieces under schedules and clock faults.
#include <sys/socket.h>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <thread>
#include "common/atomic_unique_ptr.h"
#include "common/random.h"
#include "common/random_traverser.h"
#include "common/spin_lock_mutex.h"
#include "common/timestamp.h"
#include "kit/kit.h"
#include "lightstep/metrics_observer.h"
#include "network/socket.h"
#include "recorder/metrics_tracker.h"
#include "recorder/serialization/embedded_metrics_message.h"
#include "lightstep-tracer-common/collector.pb.h"
using namespace lightstep;

// ---------------------------------------------------------------- spin lock
SIM_SCENARIO(spin_lock) {
  const char* P = "C11";
  sim::config().step_cap = 300000;
  sim::config().stall = sim::chance(sim::FAULT, 0.4) ? 0.01 : 0;
  sim::config().stall_max = 30 * sim::US;
  SpinLockMutex mutex;
  int inside = 0;       // protected by the lock; the race detector watches it
  int64_t total = 0;
  int n = (int)sim::range(sim::WORK, 2, 4);
  int per = (int)sim::range(sim::WORK, 1, 8);
  std::vector<std::thread> th;
  for (int i = 0; i < n; ++i)
    th.emplace_back([&] {
      for (int k = 0; k < per; ++k) {
        SpinLockGuard guard{mutex};
        if (inside != 0) sim::fail(P, "mutual-exclusion", "two threads hold the lock");
        inside = 1;
        int64_t t = total;
        sim::yield();
        total = t + 1;
        inside = 0;
      }
    });
  for (auto& t : th) t.join();
  if (total != n * per) sim::fail(P, "mutual-exclusion", "%d of %d updates survived", (int)total, n * per);
}

// ------------------------------------------------------- atomic owning pointer
namespace {
std::set<int>* g_live;
struct Owned {
  int id;
  uint64_t check;
  explicit Owned(int i) : id{i}, check{(uint64_t)i * 77 + 5} {
    sim::Harness g;
    g_live->insert(i);
  }
  ~Owned() {
    check = 0;
    sim::Harness g;
    if (!g_live->erase(id)) sim::fail("C05", "double-free", "element %d destroyed twice", id);
  }
};
}  // namespace
SIM_SCENARIO(atomic_ptr) {
  const char* P = "C05";
  g_live = new std::set<int>;
  sim::config().quarantine = sim::chance(sim::WORK, 0.5) ? 0 : 64;
  int next = 0;
  std::map<int, std::string> where;
  {
    AtomicUniquePtr<Owned> slot;
    int n = (int)sim::range(sim::WORK, 2, 4);
    int per = (int)sim::range(sim::WORK, 1, 8);
    std::vector<std::thread> th;
    int64_t put = 0, got = 0;
    std::atomic<int> reset{0};
    std::set<int> taken;
    for (int i = 0; i < n; ++i)
      th.emplace_back([&] {
        for (int k = 0; k < per; ++k) {
          int id;
          {
            sim::Harness g;
            id = ++next;
          }
          std::unique_ptr<Owned> p;
          {
            sim::NoYield ny;
            p.reset(new Owned{id});
          }
          switch (sim::choose(sim::WORK, 3)) {
            case 0: {
              Owned* raw = p.get();
              bool ok = slot.SwapIfNull(p);
              sim::Harness g;
              if (ok && p) sim::fail(P, "ownership", "the swapped in element is still owned by the caller");
              if (!ok && p.get() != raw) sim::fail(P, "ownership", "a failed swap changed the caller's element");
              if (ok) ++put;
              break;
            }
            case 1: {
              slot.Swap(p);
              sim::Harness g;
              ++put;
              if (p) {
                ++got;
                if (p->check != (uint64_t)p->id * 77 + 5) sim::fail(P, "garbage", "swapped out element damaged");
                if (!taken.insert(p->id).second) sim::fail(P, "duplicate", "element %d handed out twice", p->id);
              }
              break;
            }
            default:
              slot.Reset(p.release());
              sim::Harness g;
              ++put;
              break;
          }
        }
      });
    for (auto& t : th) t.join();
    sim::Harness g;
    bool full = !slot.IsNull();
    size_t live = g_live->size();
    if (live != (full ? 1u : 0u)) sim::fail(P, "leak", "%zu elements alive, the slot holds %d", live, full);
    if (full && slot->check != (uint64_t)slot->id * 77 + 5) sim::fail(P, "garbage", "element damaged");
    (void)put;
    (void)got;
  }
  sim::Harness g;
  if (!g_live->empty()) sim::fail(P, "leak", "%zu elements leaked", g_live->size());
}

// ----------------------------------------------------------- metrics counters
namespace {
struct Counter : MetricsObserver {
  std::atomic<int64_t> sent{0}, dropped{0}, flushes{0};
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
  void OnFlush() noexcept override { ++flushes; }
};
}  // namespace
// Threads drop spans while reports carrying the count succeed or fail: every
// drop reaches exactly one successful report (or is still pending), the
// observer hears of each event once.
SIM_SCENARIO(metrics) {
  const char* P = "C15";
  Counter c;
  MetricsTracker m{c};
  int n = (int)sim::range(sim::WORK, 1, 4);
  std::vector<std::thread> th;
  int64_t dropped = 0, sent = 0, flushed = 0, reported = 0;
  for (int i = 0; i < n; ++i)
    th.emplace_back([&] {
      int per = (int)sim::range(sim::WORK, 1, 10);
      for (int k = 0; k < per; ++k) {
        int x = (int)sim::range(sim::WORK, 1, 5);
        switch (sim::choose(sim::WORK, 4)) {
          case 1:
            m.OnSpansSent(x);
            {
              sim::Harness g;
              sent += x;
            }
            break;
          case 2:
            m.OnFlush();
            {
              sim::Harness g;
              ++flushed;
            }
            break;
          default:
            m.OnSpansDropped(x);
            sim::Harness g;
            dropped += x;
        }
      }
    });
  // reporters: connections that put the count in a report and learn its fate
  int reporters = (int)sim::range(sim::WORK, 1, 2);
  for (int r = 0; r < reporters; ++r)
    th.emplace_back([&] {
      int per = (int)sim::range(sim::WORK, 1, 8);
      for (int k = 0; k < per; ++k) {
        int x = m.ConsumeDroppedSpans();
        if (x < 0) sim::fail(P, "negative", "negative drop count %d", x);
        std::unique_ptr<EmbeddedMetricsMessage> msg;
        int carried = x, parsed = -1;
        if (sim::chance(sim::WORK, 0.3)) {
          sim::NoYield ny;
          msg.reset(new EmbeddedMetricsMessage);
          if (sim::chance(sim::WORK, 0.5)) {
            msg->set_num_dropped_spans(7);
            msg->MakeFragment();
          }
          msg->set_num_dropped_spans(x);
          auto f = msg->MakeFragment();
          carried = msg->num_dropped_spans();
          collector::ReportRequest rr;
          if (!rr.ParseFromArray(f.first, f.second) || rr.internal_metrics().counts_size() != 1 ||
              rr.internal_metrics().counts(0).name() != "spans.dropped")
            sim::fail(P, "message", "the report's drop count can't be parsed");
          else
            parsed = (int)rr.internal_metrics().counts(0).int_value();
          if (parsed != x || carried != x) sim::fail(P, "message", "the report says %d dropped spans (%d when asked), not %d", parsed, carried, x);
        }
        sim::yield();
        if (sim::chance(sim::FAULT, 0.4)) {
          sim::fault("report_failed");
          m.UnconsumeDroppedSpans(carried);
        } else {
          sim::Harness g;
          reported += carried;
        }
      }
    });
  for (auto& t : th) t.join();
  sim::Harness g;
  if (reported + m.num_dropped_spans() != dropped)
    sim::fail(P, "conservation", "%d spans dropped, %d reported, %d pending", (int)dropped, (int)reported, m.num_dropped_spans());
  if (c.dropped != dropped || c.sent != sent || c.flushes != flushed)
    sim::fail(P, "observer", "the observer heard of %d dropped, %d sent, %d flushes instead of %d, %d, %d", (int)c.dropped,
              (int)c.sent, (int)c.flushes, (int)dropped, (int)sent, (int)flushed);
  if (m.ConsumeDroppedSpans() != dropped - reported || m.num_dropped_spans() != 0)
    sim::fail(P, "conservation", "the pending count isn't handed out once");
}

// ------------------------------------------------------------------- clocks
namespace {
int64_t sysns() {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
}
int64_t steadyns() {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
}  // namespace
// The conversion between the clocks follows the system clock wherever it jumps
// and stays self-consistent.
SIM_SCENARIO(clock_delta) {
  const char* P = "C16";
  int rounds = (int)sim::range(sim::WORK, 1, 12);
  for (int i = 0; i < rounds; ++i) {
    sim::sleep_for(sim::range(sim::NET, 0, 5000) * sim::MS);
    if (sim::chance(sim::FAULT, 0.5)) {
      int64_t d = sim::pick<int64_t>(sim::FAULT, {sim::SEC, -sim::SEC, 3600 * sim::SEC, -86400 * sim::SEC, 5 * sim::MS,
                                                  -900000000 * sim::SEC, 250000000 * sim::SEC});
      sim::jump_system_clock(d + sim::range(sim::FAULT, 0, 999));
    }
    int64_t s0 = sysns(), t0 = steadyns();
    int64_t delta = ComputeSystemSteadyTimestampDelta();
    int64_t t1 = steadyns(), s1 = sysns();
    // both readings happen inside the call
    if (delta < s0 - t1 || delta > s1 - t0)
      sim::fail(P, "delta", "clock difference %lld outside [%lld, %lld]", (long long)delta, (long long)(s0 - t1), (long long)(s1 - t0));
    auto steady = std::chrono::steady_clock::now();
    auto sys = ToSystemTimestamp(delta, steady);
    int64_t err = std::chrono::duration_cast<std::chrono::nanoseconds>(sys.time_since_epoch()).count() - sysns();
    if (std::llabs(err) > 100 * sim::US) sim::fail(P, "to-system", "the converted time is %lld ns off the system clock", (long long)err);
    auto back = ToSteadyTimestamp(delta, sys);
    if (back != steady) sim::fail(P, "round-trip", "steady -> system -> steady is off by %lld ns", (long long)(back - steady).count());
    auto sysnow = std::chrono::system_clock::now();
    auto st = ToSteadyTimestamp(delta, sysnow);
    int64_t e2 = std::chrono::duration_cast<std::chrono::nanoseconds>(st.time_since_epoch()).count() - steadyns();
    if (std::llabs(e2) > 100 * sim::US) sim::fail(P, "to-steady", "the converted time is %lld ns off the steady clock", (long long)e2);
    // intervals survive conversion
    auto later = steady + std::chrono::nanoseconds{sim::range(sim::WORK, 0, 1000000) * 1001};
    if (ToSystemTimestamp(delta, later) - sys != later - steady)
      sim::fail(P, "interval", "an interval changes its length when converted");
  }
}

// ---------------------------------------------------------- random traversal
// Threads traverse endpoint lists in random order, sharing nothing but the
// generator's implementation, with forks in between.
SIM_SCENARIO(traversal) {
  const char* P = "C20";
  int n = (int)sim::range(sim::WORK, 1, 3);
  std::vector<std::thread> th;
  for (int i = 0; i < n; ++i)
    th.emplace_back([&] {
      int size = (int)sim::pick<int>(sim::WORK, {1, 2, 3, 0, 5, 8});
      RandomTraverser t{size};
      std::vector<int> first(size);
      int rounds = (int)sim::pick<int>(sim::WORK, {1, 3, 10, 60});
      bool stopped_any = false;
      for (int r = 0; r < rounds; ++r) {
        std::vector<int> seen(size);
        int calls = 0;
        int stop = sim::chance(sim::WORK, 0.3) ? (int)sim::range(sim::WORK, 1, size ? size : 1) : -1;
        bool done = t.ForEachIndex([&](int k) {
          if (k < 0 || k >= size) sim::fail(P, "range", "index %d of %d visited", k, size);
          if (seen[k]++) sim::fail(P, "repeat", "index %d visited twice in one round", k);
          if (!calls) ++first[k];
          ++calls;
          return calls != stop;
        });
        bool stopped = stop > 0 && calls == stop;
        stopped_any |= stopped;
        if (stopped == done && size) sim::fail(P, "result", "traversal returned %d although it was%s stopped", done, stopped ? "" : "n't");
        if (!stopped && calls != size) sim::fail(P, "missed", "%d of %d indexes visited", calls, size);
        if (!size && !done) sim::fail(P, "result", "traversal of nothing reports an interruption");
        sim::yield();
      }
      if (rounds == 60 && size > 1)
        for (int k = 0; k < size; ++k)
          if (size <= 3 && first[k] == 0)  // (2/3)^60 < 3e-11
            sim::fail(P, "bias", "index %d never came first in %d rounds", k, rounds);
      // random periods stay in their range
      for (int r = 0; r < 5; ++r) {
        // periods from nanoseconds to weeks
        int64_t unit = sim::pick<int64_t>(sim::WORK, {1000, 1, 1000000, sim::SEC, 3600 * sim::SEC});
        auto a = std::chrono::nanoseconds{sim::range(sim::WORK, 0, 1000) * unit};
        auto b = a + std::chrono::nanoseconds{sim::range(sim::WORK, 0, 1000) * unit};
        auto d = GenerateRandomDuration(a, b);
        if (d < a || d > b)
          sim::fail(P, "duration", "random duration %lld ns outside [%lld, %lld]", (long long)d.count(), (long long)a.count(), (long long)b.count());
        // spread over the range: the chance of 40 draws in one half is 2^-40
        if (b - a > std::chrono::nanoseconds{100} && sim::chance(sim::WORK, 0.05)) {
          auto mid = a + (b - a) / 2;
          int low = 0, high = 0;
          for (int k = 0; k < 40; ++k) {
            auto x = GenerateRandomDuration(a, b);
            if (x < a || x > b) sim::fail(P, "duration", "random duration out of range");
            ++(x <= mid ? low : high);
          }
          if (!low || !high) sim::fail(P, "duration-spread", "40 random durations of one range all lie in the same half");
        }
      }
    });
  for (auto& t : th) t.join();
}

// ------------------------------------------------------- descriptor ownership
SIM_SCENARIO(socket_owner) {
  const char* P = "C22";
  sim::Config& c = sim::config();
  c.socket_fail = sim::pick<double>(sim::FAULT, {0.0, 0.2});
  c.connect_fail = sim::pick<double>(sim::FAULT, {0.0, 0.3});
  c.sockopt_fail = sim::pick<double>(sim::FAULT, {0.0, 0.1});
  c.stdin_closed = sim::chance(sim::WORK, 0.3);
  if (c.stdin_closed) sim::fault("stdin_closed");
  auto sink = std::make_shared<kit::Sink>();
  sim::set_listener([&](const sim::Addr&, sim::Conn&) {
    sim::AcceptDecision d;
    d.peer = sink;
    switch (sim::choose(sim::NET, 3)) {
      case 1: d.what = sim::Accept::refuse; break;
      case 2: d.what = sim::Accept::blackhole; break;
    }
    return d;
  });
  size_t base = sim::open_fds();
  int threads = (int)sim::range(sim::WORK, 1, 2);
  std::vector<std::thread> th;
  for (int i = 0; i < threads; ++i)
    th.emplace_back([&] {
      std::vector<Socket> pool;
      pool.reserve(32);
      int ops = (int)sim::range(sim::WORK, 1, 14);
      for (int k = 0; k < ops; ++k) {
        try {
          switch (sim::choose(sim::WORK, 7)) {
            case 0: pool.emplace_back(); break;
            case 1: {
              IpAddress a{sim::pick<const char*>(sim::WORK, {"10.0.0.1", "::1"}), (uint16_t)sim::range(sim::WORK, 1, 65535)};
              pool.push_back(Connect(a));
              break;
            }
            case 2:
              if (pool.size() > 1) {
                size_t x = (size_t)sim::choose(sim::WORK, pool.size()), y = (size_t)sim::choose(sim::WORK, pool.size());
                if (x != y) pool[x] = std::move(pool[y]);
              }
              break;
            case 3:
              if (!pool.empty()) pool.pop_back();
              break;
            case 4:
              if (!pool.empty()) pool[(size_t)sim::choose(sim::WORK, pool.size())] = Socket{AF_INET, SOCK_DGRAM};
              break;
            case 5:
              if (!pool.empty()) {
                Socket s{std::move(pool.back())};
                if (pool.back().file_descriptor() != InvalidSocket)
                  sim::fail(P, "moved-from", "a moved-from socket still owns a descriptor");
                pool.pop_back();
                pool.push_back(std::move(s));
              }
              break;
            default:
              if (!pool.empty() && pool.back().file_descriptor() != InvalidSocket) {
                pool.back().SetReuseAddress();
                pool.back().SetNonblocking();
              }
          }
        } catch (const std::exception&) {
          sim::probe("socket_exception");
        }
        std::set<int> fds;
        for (auto& s : pool)
          if (s.file_descriptor() != InvalidSocket && !fds.insert(s.file_descriptor()).second)
            sim::fail(P, "shared", "two sockets own descriptor %d", s.file_descriptor());
        sim::sleep_for(sim::range(sim::NET, 0, 3) * 100 * sim::US);
        if (threads == 1 && sim::open_fds() - base != fds.size())
          sim::fail(P, "leak", "%zu descriptors are open but %zu are owned", sim::open_fds() - base, fds.size());
      }
    });
  for (auto& t : th) t.join();
  if (sim::open_fds() != base) sim::fail(P, "leak", "%zu descriptors left open", sim::open_fds() - base);
}
