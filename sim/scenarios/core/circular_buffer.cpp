// Several producers and one consumer on the span queue; the recorded history is
// checked against a bounded FIFO queue.
#include <algorithm>
#include <map>
#include <memory>
#include <thread>
#include <vector>
#include "common/circular_buffer.h"
#include "rt/sim.h"
using namespace lightstep;

namespace {
struct Item {
  uint64_t id;
  uint64_t check;
  explicit Item(uint64_t i) : id{i}, check{i * 0x9e3779b97f4a7c15ull} {}
  ~Item() { check = 0; }
};
struct AddRec {
  uint64_t id, inv, ret;
  bool ok;
  uint64_t cinv = 0, cret = 0;  // consumption
  bool consumed = false;
  uint64_t order = 0;
};
struct Hist {
  std::vector<AddRec> adds;
  uint64_t consumed = 0, consume_started = 0;
  std::map<uint64_t, size_t> index;
};
const char* P = "C05";
}  // namespace

SIM_SCENARIO(circular_buffer) {
  sim::Config& c = sim::config();
  c.quarantine = sim::chance(sim::WORK, 0.5) ? 0 : 64;  // pointer reuse (ABA) in half of the runs
  c.stall = sim::chance(sim::FAULT, 0.4) ? 0.01 : 0;
  c.stall_max = 50 * sim::US;
  c.step_cap = 400000;
  const size_t cap = (size_t)sim::range(sim::WORK, 1, 5);
  const int producers = (int)sim::range(sim::WORK, 1, 4);
  const int per = (int)sim::range(sim::WORK, 1, 12);
  const int clear_one_in = sim::chance(sim::WORK, 0.2) ? 4 : 0;
  auto buffer = std::unique_ptr<CircularBuffer<Item>>{new CircularBuffer<Item>{cap}};
  Hist h;
  std::atomic<int> running{producers};
  std::vector<std::thread> th;
  uint64_t next = 1;
  for (int p = 0; p < producers; ++p) {
    th.emplace_back([&, p] {
      for (int i = 0; i < per; ++i) {
        size_t slot;
        std::unique_ptr<Item> item;
        Item* raw;
        {
          sim::NoYield ny;
          uint64_t id;
          {
            sim::Harness g;
            id = next++;
          }
          item.reset(new Item{id});
          raw = item.get();
          sim::Harness g;
          slot = h.adds.size();
          h.index[id] = slot;
          h.adds.push_back(AddRec{id, sim::seq(), 0, false});
        }
        bool ok = buffer->Add(item);
        sim::Harness g;
        h.adds[slot].ok = ok;
        h.adds[slot].ret = sim::seq();
        sim::log("add %d -> %d", (int)h.adds[slot].id, ok);
        if (ok && item) sim::fail(P, "accepted-not-taken", "accepted element still owned by the caller");
        if (!ok && item.get() != raw)
          sim::fail(P, "refused-but-taken", "refused element was taken from the caller");
        if (!ok) sim::probe("refused");
      }
      running--;
    });
  }
  // the consumer
  uint64_t order = 0;
  auto consume = [&] {
    uint64_t pinv = sim::seq();
    auto range = buffer->Peek();
    size_t n = range.size();
    {
      sim::Harness g;
      size_t returned = 0, invoked = 0, gone = h.consumed;
      for (auto& a : h.adds) {
        if (a.ret && a.ok && a.ret < pinv) ++returned;
        if (!a.ret || a.ok) ++invoked;
      }
      if (n > invoked - gone)
        sim::fail(P, "phantom", "%zu elements visible but only %zu added", n, invoked - gone);
      if (n + gone < returned)
        sim::fail(P, "invisible", "%zu accepted elements unconsumed but only %zu visible", returned - gone, n);
      if (n > cap) sim::fail(P, "over-capacity", "%zu elements in a buffer of %zu", n, cap);
    }
    uint64_t last = 0;
    bool complete = range.ForEach([&](const AtomicUniquePtr<Item>& p) {
      if (p.IsNull()) {
        sim::fail(P, "null-element", "an element inside the readable range is null");
        return false;
      }
      uint64_t id = p->id, ck = p->check;
      sim::Harness g;
      if (ck != id * 0x9e3779b97f4a7c15ull) sim::fail(P, "garbage", "element content damaged");
      (void)last;
      return true;
    });
    if (!complete) return;
    size_t k = (size_t)sim::choose(sim::WORK, n + 1);
    bool clear = clear_one_in && sim::choose(sim::WORK, (uint64_t)clear_one_in) == 1;
    if (clear) {
      // everything that is in the buffer at this moment goes away unseen
      sim::probe("clear");
    }
    uint64_t cinv = sim::seq();
    size_t seen = 0;
    {
      sim::Harness g;
      h.consume_started += k;
    }
    buffer->Consume(k, [&](CircularBufferRange<AtomicUniquePtr<Item>> r) noexcept {
      r.ForEach([&](AtomicUniquePtr<Item> & p) noexcept {
        ++seen;
        if (p.IsNull()) {
          sim::fail(P, "null-element", "a consumed element is null");
          return true;
        }
        uint64_t id = p->id, ck = p->check;
        {
          sim::Harness g;
          auto it = h.index.find(id);
          if (it == h.index.end() || ck != id * 0x9e3779b97f4a7c15ull)
            sim::fail(P, "garbage", "consumed an element nobody added");
          AddRec& a = h.adds[it->second];
          if (a.consumed) sim::fail(P, "duplicate", "element %d consumed twice", (int)id);
          if (a.ret && !a.ok) sim::fail(P, "refused-consumed", "element %d was refused yet consumed", (int)id);
          a.consumed = true;
          a.cinv = cinv;
          a.order = ++order;
          sim::log("consume %d", (int)id);
        }
        p.Reset();
        return true;
      });
    });
    sim::Harness g;
    if (seen != k) sim::fail(P, "short-consume", "asked for %zu elements, got %zu", k, seen);
    uint64_t cret = sim::seq();
    for (auto& a : h.adds)
      if (a.consumed && !a.cret) a.cret = cret, ++h.consumed;
    // never more elements than room
    size_t lo = 0;
    for (auto& a : h.adds) lo += a.ok && a.ret;
    if (lo > h.consumed + cap)
      sim::fail(P, "over-capacity", "%zu elements accepted and unconsumed in a buffer of %zu",
                lo - (size_t)h.consumed, cap);
  };
  while (running.load() > 0) {
    consume();
    if (sim::chance(sim::WORK, 0.3)) sim::yield();
  }
  for (auto& t : th) t.join();
  for (int i = 0; i < 200 && !buffer->empty(); ++i) consume();
  {
    sim::Harness g;
    if (!buffer->empty() || buffer->size() != 0)
      sim::fail(P, "not-drained", "the buffer can't be emptied");
    std::vector<AddRec*> ok;
    for (auto& a : h.adds) {
      if (a.ok && !a.consumed) sim::fail(P, "lost", "accepted element %d never came out", (int)a.id);
      if (a.ok) ok.push_back(&a);
    }
    // first in, first out, for calls that don't overlap
    for (auto* a : ok)
      for (auto* b : ok)
        if (a->ret < b->inv && a->order > b->order)
          sim::fail(P, "reordered", "element %d was added before %d but came out later", (int)a->id, (int)b->id);
    // a refusal needs a moment during the call at which the buffer may have been full
    for (auto& r : h.adds) {
      if (r.ok) continue;
      size_t best = 0;
      std::vector<uint64_t> pts{r.inv, r.ret};
      for (auto* a : ok) {
        for (uint64_t t : {a->inv, a->ret, a->cinv, a->cret})
          if (t > r.inv && t < r.ret) pts.push_back(t);
      }
      for (uint64_t t : pts) {
        size_t may = 0;
        for (auto* a : ok) may += a->inv <= t && a->cret >= t;
        best = std::max(best, may);
      }
      if (best < cap)
        sim::fail(P, "spurious-full", "element %d refused although at most %zu of %zu places can have been taken during the call",
                  (int)r.id, best, cap);
    }
    if (buffer->production_count() != (int64_t)ok.size() || buffer->consumption_count() != (int64_t)ok.size())
      sim::fail(P, "counts", "production %d consumption %d accepted %d", (int)buffer->production_count(),
                (int)buffer->consumption_count(), (int)ok.size());
  }
  // the drained buffer has its full capacity again
  for (size_t i = 0; i <= cap; ++i) {
    std::unique_ptr<Item> it{new Item{1000000 + i}};
    bool ok = buffer->Add(it);
    if (ok != (i < cap)) sim::fail(P, "capacity-lost", "after draining, add %zu of %zu gave %d", i + 1, cap, ok);
  }
  if (clear_one_in) {
    buffer->Clear();
    if (!buffer->empty()) sim::fail(P, "clear", "buffer not empty after clearing");
    std::unique_ptr<Item> it{new Item{2000000}};
    if (!buffer->Add(it)) sim::fail(P, "clear", "add after clearing refused");
  }
  buffer.reset();
  sim::check_leaks(P, "after the queue was destroyed");
}
