// Helpers shared by scenarios.
#pragma once
#include <google/protobuf/io/coded_stream.h>
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "common/chained_stream.h"
#include "rt/sim.h"

namespace kit {
// Deterministic content of a given length, distinguishable by id and offset.
inline std::string content(uint64_t id, size_t n) {
  std::string s(n, '\0');
  uint64_t x = id * 0x9e3779b97f4a7c15ull + 12345;
  for (size_t i = 0; i < n; ++i) {
    if (i % 8 == 0) {
      x ^= x << 13;
      x ^= x >> 7;
      x ^= x << 17;
    }
    s[i] = (char)(x >> (8 * (i % 8)));
  }
  return s;
}
// Writes s into a chained stream the way protobuf's coded streams do, with
// arbitrary sizes handed back at the end of a piece.
inline std::unique_ptr<lightstep::ChainedStream> chain(const std::string& s, bool ragged) {
  std::unique_ptr<lightstep::ChainedStream> c{new lightstep::ChainedStream};
  if (!ragged) {
    google::protobuf::io::CodedOutputStream out{c.get()};
    out.WriteRaw(s.data(), (int)s.size());
  } else {
    size_t i = 0;
    for (;;) {
      void* p;
      int n;
      if (!c->Next(&p, &n)) break;
      size_t want = std::min<size_t>((size_t)n, s.size() - i);
      if (want > 1 && sim::chance(sim::WORK, 0.3)) want = (size_t)sim::range(sim::WORK, 1, (int64_t)want);
      memcpy(p, s.data() + i, want);
      i += want;
      if (want < (size_t)n) c->BackUp(n - (int)want);
      if (i == s.size()) break;
    }
    if (sim::chance(sim::WORK, 0.2)) {  // a coded stream that looked ahead
      void* p;
      int n;
      if (c->Next(&p, &n)) c->BackUp(n);
    }
  }
  if (c->ByteCount() != (int64_t)s.size())
    sim::fail("C08", "byte-count", "a stream of %zu bytes reports %d", s.size(), (int)c->ByteCount());
  c->CloseOutput();
  return c;
}
// The same in printable characters.
inline std::string letters(uint64_t id, size_t n) {
  std::string s = content(id, n);
  for (auto& c : s) c = (char)('!' + (unsigned char)c % 90);
  return s;
}
inline std::string text(const lightstep::FragmentInputStream& f) {
  std::string s;
  int n = 0;
  f.ForEachFragment([&](void* d, int size) {
    s.append((const char*)d, (size_t)size);
    ++n;
    return true;
  });
  if (n != f.num_fragments())
    sim::fail("C08", "fragment-count", "a stream announces %d fragments but yields %d", f.num_fragments(), n);
  return s;
}
// What the code under test holds, at its least in an early and in a late part of a life.
class Held {
 public:
  explicit Held(int rounds) : rounds_(rounds) {}
  // Call while nothing is under way.
  void measure(int round) {
    if (round >= rounds_ / 4 && round < rounds_ / 2) early_.least();
    if (round >= rounds_ - rounds_ / 4) late_.least();
  }
  void judge(std::initializer_list<const char*> props, int64_t noise, size_t fds, const char* what) {
    sim::Harness h;
    if (early_.bytes == INT64_MAX || late_.bytes == INT64_MAX) return;
    sim::log("held at least %lld, then %lld bytes; %zu, then %zu descriptors; %zu, then %zu fork handlers; %zu, then %zu threads", (long long)early_.bytes,
             (long long)late_.bytes, early_.fds, late_.fds, early_.handlers, late_.handlers, early_.threads, late_.threads);
    sim::log("%s", sim::live_sizes().c_str());
    sim::probe("growth_measured");
    for (const char* p : props) {
      if (late_.bytes > early_.bytes + noise) sim::fail(p, "growth", "%s held at least %lld bytes early in its life and at least %lld late", what, (long long)early_.bytes, (long long)late_.bytes);
      if (late_.fds > early_.fds + fds) sim::fail(p, "growth", "%s held at least %zu descriptors early in its life and at least %zu late", what, early_.fds, late_.fds);
      if (late_.threads > early_.threads) sim::fail(p, "growth", "%s held at least %zu threads early in its life and at least %zu late", what, early_.threads, late_.threads);
      if (late_.handlers > early_.handlers + 2) sim::fail(p, "growth", "%s had %zu fork handlers registered early in its life and %zu late", what, early_.handlers, late_.handlers);
    }
  }

 private:
  struct Least {
    int64_t bytes = INT64_MAX;
    size_t fds = SIZE_MAX, threads = SIZE_MAX, handlers = SIZE_MAX;
    void least() {
      bytes = std::min(bytes, sim::live_bytes());
      fds = std::min(fds, sim::open_fds());
      threads = std::min(threads, sim::live_threads());
      handlers = std::min(handlers, sim::fork_handlers());
    }
  } early_, late_;
  int rounds_;
};
// A TCP peer that only collects what arrives.
struct Sink : sim::Peer {
  std::string got;
  bool fin = false, reset = false;
  void on_data(sim::Conn&, const char* d, size_t n) override { got.append(d, n); }
  void on_fin(sim::Conn&) override { fin = true; }
  void on_reset(sim::Conn&) override { reset = true; }
};
}  // namespace kit
