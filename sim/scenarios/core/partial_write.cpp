// Vectored writes over a socket that takes what it likes: whatever the kernel
// accepts is gone from the streams, byte for byte, and nothing else is.
#include <atomic>
#include <cstring>
#include <thread>
#include "common/composable_fragment_input_stream.h"
#include "common/fragment_array_input_stream.h"
#include "kit/kit.h"
#include "lightstep/metrics_observer.h"
#include "network/socket.h"
#include "network/vector_write.h"
#include "recorder/stream_recorder/span_stream.h"
using namespace lightstep;

namespace {
const char* P = "C08";
uint64_t next_id;

struct Source {
  std::unique_ptr<FragmentInputStream> stream;
  std::vector<std::unique_ptr<std::string>> store;  // backing of array fragments
  std::string expect;
};
Source make_source() {
  Source s;
  int kind = (int)sim::choose(sim::WORK, 3);
  if (kind == 0) {
    std::unique_ptr<FragmentArrayInputStream> a{new FragmentArrayInputStream};
    int n = sim::chance(sim::WORK, 0.12) ? (int)sim::range(sim::WORK, 900, 2600) : (int)sim::range(sim::WORK, 0, 9);
    int big = n > 100 ? 3 : (int)sim::pick<int>(sim::WORK, {1, 3, 40, 700});
    for (int i = 0; i < n; ++i) {
      s.store.emplace_back(new std::string(kit::content(++next_id, (size_t)sim::choose(sim::WORK, (uint64_t)big + 1))));
      auto& t = *s.store.back();
      a->Add({(void*)t.data(), (int)t.size()});
      s.expect += t;
    }
    s.stream = std::move(a);
  } else {
    std::unique_ptr<ChainedStream> head;
    int links = kind == 1 ? 1 : (int)sim::range(sim::WORK, 1, 4);
    for (int i = 0; i < links; ++i) {
      size_t n = (size_t)sim::pick<int>(sim::WORK, {1, 30, 255, 256, 257, 600, 1500, 0});
      if (n > 2 && sim::chance(sim::WORK, 0.5)) n = (size_t)sim::range(sim::WORK, 1, (int64_t)n);
      std::string t = kit::content(++next_id, n);
      s.expect += t;
      auto c = kit::chain(t, sim::chance(sim::WORK, 0.5));
      if (!head) head = std::move(c);
      else head->Append(std::move(c));
    }
    s.stream = std::move(head);
  }
  return s;
}
bool call_write(int fd, std::vector<FragmentInputStream*>& v) {
  switch (v.size()) {
    case 1: return Write(fd, {v[0]});
    case 2: return Write(fd, {v[0], v[1]});
    case 3: return Write(fd, {v[0], v[1], v[2]});
    default: return Write(fd, {v[0], v[1], v[2], v[3]});
  }
}
void faults() {
  sim::Config& c = sim::config();
  c.short_write = sim::pick<double>(sim::FAULT, {0.0, 0.3, 0.8});
  c.eagain_write = sim::pick<double>(sim::FAULT, {0.0, 0.2});
  c.write_error = sim::chance(sim::FAULT, 0.2) ? 0.05 : 0;
}
}  // namespace

SIM_SCENARIO(partial_write) {
  faults();
  next_id = 0;
  auto sink = std::make_shared<kit::Sink>();
  sim::Conn* conn;
  std::vector<Source> src;
  int n = (int)sim::range(sim::WORK, 1, 4);
  std::string expect;
  std::vector<FragmentInputStream*> v;
  for (int i = 0; i < n; ++i) {
    src.push_back(make_source());
    expect += src.back().expect;
  }
  for (auto& s : src) v.push_back(s.stream.get());
  size_t cap = (size_t)sim::pick<int>(sim::WORK, {65536, 7, 100, 1500});
  cap = std::max(cap, expect.size() / 60);
  int fd = sim::make_stream(sink, cap, 50 * sim::US, &conn);
  Socket socket{fd};
  bool dead = false;
  for (int call = 0;; ++call) {
    size_t before = conn->accepted(), space = conn->space();
    uint64_t f0 = sim::fault_total();
    bool done = false, threw = false;
    try {
      done = call_write(fd, v);
    } catch (const std::exception&) {
      threw = true;
    }
    std::string rest;
    {
      sim::NoYield ny;
      for (auto* s : v) rest += kit::text(*s);
    }
    {
    sim::Harness g;
    size_t acc = conn->accepted();
    sim::log("write: accepted %zu -> %zu of %zu, rest %zu, %s", before, acc, expect.size(), rest.size(),
             threw ? "error" : done ? "done" : "blocked");
    if (acc + rest.size() != expect.size())
      sim::fail(P, "consumed", "the socket accepted %zu of %zu bytes but %zu are left", acc, expect.size(), rest.size());
    if (expect.compare(acc, std::string::npos, rest))
      sim::fail(P, "content", "what is left after %zu accepted bytes isn't the rest of the input", acc);
    if (threw && !conn->dead()) sim::fail(P, "throws", "write failed on a healthy connection");
    if (!threw && conn->dead()) sim::fail(P, "hidden-error", "the connection broke but the write reported no error");
    if (!threw && done != rest.empty())
      sim::fail(P, "result", "write returned %d with %zu bytes left", done, rest.size());
    if (threw) {
      dead = true;
      break;
    }
    if (done) break;
    if (acc == before && space && sim::fault_total() == f0)
      sim::fail(P, "no-progress", "nothing written although the socket has room for %zu bytes", space);
    if (call > 20000) sim::fail(P, "no-progress", "still not written after %d calls", call);
    sim::probe("resumed");
    }
    sim::sleep_for(sim::range(sim::NET, 0, 200) * sim::US);
  }
  sim::sleep_for(sim::SEC);
  sim::Harness g;
  if (!dead && sink->got != expect) sim::fail(P, "received", "the peer received something else than was written");
  if (dead && expect.compare(0, sink->got.size(), sink->got))
    sim::fail(P, "received", "what the peer received before the connection broke isn't a prefix of the input");
}

namespace {
struct Observer : MetricsObserver {
  std::atomic<int64_t> sent{0}, dropped{0};
  void OnSpansSent(int n) noexcept override { sent += n; }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
};
}  // namespace

// Producers keep adding spans while the consumer streams them out and carries
// partially written spans over from one write to the next.
SIM_SCENARIO(span_stream) {
  faults();
  sim::config().stall = sim::chance(sim::FAULT, 0.3) ? 0.002 : 0;
  next_id = 0;
  auto sink = std::make_shared<kit::Sink>();
  sim::Conn* conn;
  int fd = sim::make_stream(sink, (size_t)sim::pick<int>(sim::WORK, {65536, 9, 300, 2000}), 50 * sim::US, &conn);
  Socket socket{fd};
  std::unique_ptr<CircularBuffer<ChainedStream>> buffer{new CircularBuffer<ChainedStream>{(size_t)sim::range(sim::WORK, 1, 12)}};
  Observer observer;
  MetricsTracker metrics{observer};
  SpanStream stream{*buffer, metrics};
  const int producers = (int)sim::range(sim::WORK, 1, 3);
  const int per = (int)sim::range(sim::WORK, 1, 10);
  std::atomic<int> running{producers};
  std::vector<std::string> added(producers * per);  // by producer and index
  std::vector<char> accepted_by_queue(producers * per);
  std::vector<std::thread> th;
  for (int p = 0; p < producers; ++p)
    th.emplace_back([&, p] {
      for (int i = 0; i < per; ++i) {
        std::unique_ptr<ChainedStream> s;
        int k = p * per + i;
        {
          sim::NoYield ny;
          size_t n = (size_t)sim::pick<int>(sim::WORK, {12, 255, 256, 257, 700});
          if (sim::chance(sim::WORK, 0.5)) n = (size_t)sim::range(sim::WORK, 9, (int64_t)n + 8);
          char head[16];
          snprintf(head, sizeof head, "<%03d %04zu>", k, n);
          std::string t = head + kit::content((uint64_t)k + 1, n);
          {
            sim::Harness g;
            added[k] = t;
          }
          s = kit::chain(t, sim::chance(sim::WORK, 0.3));
        }
        for (int tries = 0; tries < 3; ++tries) {
          bool ok = buffer->Add(s);
          if (ok) {
            sim::Harness g;
            accepted_by_queue[k] = 1;
            break;
          }
          sim::sleep_for(sim::range(sim::WORK, 0, 300) * sim::US);
        }
      }
      running--;
    });
  std::unique_ptr<ChainedStream> remnant;
  int64_t finished_remnants = 0;
  bool dead = false;
  int idle = 0;
  for (int step = 0; step < 100000; ++step) {
    stream.Allot();
    bool threw = false, had = remnant != nullptr, done = false;
    size_t before = conn->accepted();
    try {
      if (remnant) done = Write(fd, {remnant.get(), &stream});
      else done = Write(fd, {&stream});
    } catch (const std::exception&) {
      threw = true;
    }
    if (remnant && remnant->empty()) {
      remnant.reset();
      ++finished_remnants;
    }
    if (auto r = stream.ConsumeRemnant()) {
      if (remnant) sim::fail(P, "two-remnants", "a new span was started before the previous one was finished");
      if (r->empty()) sim::fail(P, "empty-remnant", "a completely written span is handed back as partially written");
      remnant = std::move(r);
      sim::probe("remnant");
    }
    {
      sim::Harness g;
      sim::log("step: accepted %zu -> %zu had=%d rem=%d done=%d threw=%d sent=%d", before, (size_t)conn->accepted(), had,
               remnant != nullptr, done, threw, (int)observer.sent.load());
      if (done && remnant) sim::fail(P, "result", "write reports everything written with a partial span left");
    }
    if (threw) {
      dead = true;
      break;
    }
    if (!running.load() && done && buffer->empty() && !remnant) {
      if (++idle > 1) break;
    }
    sim::sleep_for(sim::range(sim::NET, 0, 150) * sim::US);
  }
  for (auto& t : th) t.join();
  sim::sleep_for(sim::SEC);
  // parse what arrived: whole spans, each at most once, in per-producer order
  sim::Harness g;
  const std::string& got = sink->got;
  size_t i = 0;
  std::vector<int> last(producers, -1);
  std::vector<char> seen(producers * per);
  int64_t whole = 0;
  size_t whole_bytes = 0;
  while (i < got.size()) {
    int k;
    size_t n;
    if (got.size() - i < 10) break;
    if (sscanf(got.c_str() + i, "<%03d %04zu>", &k, &n) != 2 || k < 0 || k >= producers * per)
      sim::fail(P, "garbled", "the stream is damaged at byte %zu", i);
    const std::string& want = added[k];
    size_t m = std::min(want.size(), got.size() - i);
    if (got.compare(i, m, want, 0, m)) sim::fail(P, "garbled", "span %d is damaged", k);
    if (seen[k]++) sim::fail(P, "duplicate", "span %d was written twice", k);
    if (!accepted_by_queue[k] && !dead) sim::fail(P, "phantom", "span %d was refused by the queue but written", k);
    if (m < want.size()) {
      if (!dead) sim::fail(P, "torn", "span %d was cut short", k);
      break;
    }
    if (k % per <= last[k / per]) sim::fail(P, "order", "spans of one thread out of order");
    last[k / per] = k % per;
    ++whole;
    i += m;
    whole_bytes = i;
  }
  int64_t accepted = 0;
  for (int k = 0; k < producers * per; ++k) {
    accepted += accepted_by_queue[k];
    if (!dead && accepted_by_queue[k] && !seen[k]) sim::fail(P, "lost", "span %d was accepted but never written", k);
  }
  int64_t counted = observer.sent.load() + finished_remnants;
  if (!dead && counted != accepted)
    sim::fail(P, "sent-count", "%d spans were written but %d counted as sent", (int)accepted, (int)counted);
  if (dead) {
    // every span is written (and counted), partially written, or still queued
    int64_t rest = (int64_t)buffer->size() + (remnant ? 1 : 0);
    if (counted + rest != accepted)
      sim::fail(P, "sent-count", "%d spans accepted, %d counted as sent, %d left", (int)accepted, (int)counted, (int)rest);
    if (whole > counted) sim::fail(P, "sent-count", "the peer has %d whole spans but only %d are counted as sent", (int)whole, (int)counted);
  }
  (void)whole_bytes;
}

// The kernel's short counts without a kernel: any sequence of partial
// consumptions of several streams leaves exactly the unconsumed rest.
SIM_SCENARIO(consume) {
  next_id = 0;
  std::vector<Source> src;
  int n = (int)sim::range(sim::WORK, 1, 3);
  std::string expect;
  for (int i = 0; i < n; ++i) {
    src.push_back(make_source());
    expect += src.back().expect;
  }
  size_t pos = 0;
  int cuts = 0;
  while (pos < expect.size() && cuts < 400) {
    size_t left = expect.size() - pos;
    size_t k = (size_t)sim::pick<int>(sim::FAULT, {1, 0, 2, 255, 256, 257, 513, 100000});
    if (sim::chance(sim::FAULT, 0.4)) k = (size_t)sim::choose(sim::FAULT, std::min<size_t>(left, 700) + 1);
    k = std::min(k, left);
    ++cuts;
    sim::fault("short_write");
    bool all;
    switch (n) {
      case 1: all = Consume({src[0].stream.get()}, (int)k); break;
      case 2: all = Consume({src[0].stream.get(), src[1].stream.get()}, (int)k); break;
      default: all = Consume({src[0].stream.get(), src[1].stream.get(), src[2].stream.get()}, (int)k);
    }
    pos += k;
    std::string rest;
    bool empty = true;
    for (auto& s : src) {
      rest += kit::text(*s.stream);
      empty = empty && s.stream->empty();
    }
    if (all && pos != expect.size()) sim::fail(P, "result", "everything reported consumed with %zu bytes left", expect.size() - pos);
    if (pos == expect.size() && !all && !rest.empty()) sim::fail(P, "result", "bytes left after consuming everything");
    if (rest.size() != expect.size() - pos || expect.compare(pos, std::string::npos, rest))
      sim::fail(P, "consumed", "after consuming %zu of %zu bytes the rest is wrong (%zu bytes)", pos, expect.size(), rest.size());
    if (all && !empty) sim::fail(P, "result", "streams not empty after consuming everything");
  }
}
