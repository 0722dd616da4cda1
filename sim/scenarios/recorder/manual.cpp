// The recorder without a thread: reports handed to an asynchronous transport
// that completes them at once, late, from any thread, in any order, or fails them.
#include <algorithm>
#include <map>
#include <mutex>
#include <thread>
#include "common/logger.h"
#include "kit/kit.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/metrics_observer.h"
#include "lightstep/transporter.h"
#include "recorder/manual_recorder.h"
#include "tracer/tracer_impl.h"
using namespace lightstep;
using sim::MS;
using sim::SEC;
using sim::US;

namespace {
const char* P = "C13";
#define FAIL_C06(...) (sim::fail(P, __VA_ARGS__), sim::fail("C06", __VA_ARGS__))
#define FAIL_C15(...) (sim::fail(P, __VA_ARGS__), sim::fail("C15", __VA_ARGS__))
struct Rec {
  uint64_t begin = 0, end = UINT64_MAX;
  uint64_t room = 0;  // the transport made room for it by flushing, and was done then
  int dropped = 0, full = 0, report = -1, pos = -1;
  uint64_t trace = 0, span = 0;
  int size = 0, tags = 0, tag_size = 0;
  bool before_fork = false;
};
struct Report {
  uint64_t sent = 0, consumed_from = 0;
  std::unique_ptr<BufferChain> message;
  AsyncTransporter::Callback* callback = nullptr;
  int spans = 0;
  int64_t drops = 0;
  int done = 0;  // 1 success, 2 failure
  bool busy = false, before_fork = false;
  std::string bytes;
};
struct Ctx {
  std::vector<Rec> recs;
  std::vector<std::unique_ptr<Report>> reports;
  std::map<int, int> current;     // thread -> span it is finishing
  std::map<int, int> completing;  // thread -> report it is completing
  std::map<int, uint64_t> flushing;
  std::shared_ptr<LightStepTracer> tracer;
  ManualRecorder* rec = nullptr;
  int64_t sent = 0, dropped = 0, flushes = 0, sends = 0;
  int max = 1;
  double p_sync = 0, p_fail = 0, p_rescue = 0, p_oom = 0;
  bool gone = false;
  int flushers = 0;
  std::mutex queue;  // hands reports from thread to thread, as a transport would
};
Ctx* X;

struct Observer : MetricsObserver {
  void OnSpansSent(int n) noexcept override {
    sim::Harness h;
    X->sent += n;
    auto it = X->completing.find(sim::self());
    if (it == X->completing.end()) FAIL_C15("observer", "%d spans are said to be sent while no report completes", n);
    else if (n != X->reports[(size_t)it->second]->spans)
      FAIL_C15("observer", "report %d holds %d spans but the observer is told of %d", it->second, X->reports[(size_t)it->second]->spans, n);
  }
  void OnSpansDropped(int n) noexcept override {
    sim::Harness h;
    X->dropped += n;
    auto c = X->completing.find(sim::self());
    if (c != X->completing.end()) {
      if (n != X->reports[(size_t)c->second]->spans) FAIL_C15("observer", "report %d with %d spans fails but %d are dropped", c->second, X->reports[(size_t)c->second]->spans, n);
      return;
    }
    auto it = X->current.find(sim::self());
    if (it == X->current.end()) return (void)FAIL_C15("observer", "%d spans are dropped out of nowhere", n);
    X->recs[(size_t)it->second].dropped += n;
  }
  void OnFlush() noexcept override {
    sim::Harness h;
    ++X->flushes;
  }
};

bool collect(void* ctx, const void* d, size_t n) {
  auto v = static_cast<std::pair<std::string, size_t>*>(ctx);
  v->first.append((const char*)d, n);
  ++v->second;
  return true;
}
struct Stop {
  size_t left, calls;
};
bool stop_early(void* ctx, const void*, size_t) {
  auto s = static_cast<Stop*>(ctx);
  ++s->calls;
  return s->left-- > 0;
}
// a report's contents, through every way of reading it
void inspect(size_t me) {
  Report& p = *X->reports[me];
  BufferChain& m = *p.message;
  std::pair<std::string, size_t> all;
  if (!m.ForEachFragment(collect, &all)) sim::fail(P, "iteration", "iterating over report %zu stops early", me);
  if (m.num_bytes() != all.first.size()) sim::fail(P, "num-bytes", "report %zu announces %zu bytes but has %zu", me, m.num_bytes(), all.first.size());
  if (m.num_fragments() != all.second) sim::fail(P, "num-fragments", "report %zu announces %zu fragments but has %zu", me, m.num_fragments(), all.second);
  std::string copy(m.num_bytes() + 16, '#');
  m.CopyOut(&copy[0], copy.size() - (sim::chance(sim::WORK, 0.5) ? 16 : 0));
  if (copy != all.first + std::string(16, '#')) sim::fail(P, "copy", "copying report %zu out yields other bytes than iterating over it", me);
  if (all.second > 1) {
    Stop s{(size_t)sim::choose(sim::WORK, all.second - 1), 0};
    size_t want = s.left + 1;
    if (m.ForEachFragment(stop_early, &s) || s.calls != want) sim::fail(P, "iteration", "iterating over report %zu goes on after it was told to stop", me);
  }
  if (!p.bytes.empty()) {
    if (p.bytes != all.first) sim::fail(P, "mutated", "report %zu changes after it was handed over", me);
    return;
  }
  p.bytes = all.first;
  collector::ReportRequest r;
  if (!r.ParseFromString(all.first)) return sim::fail(P, "garbled", "report %zu doesn't parse", me);
  if (r.auth().access_token() != "tok" || r.reporter().reporter_id() == 0) sim::fail(P, "header", "report %zu has a wrong header", me);
  p.spans = r.spans_size();
  for (auto& c : r.internal_metrics().counts())
    if (c.name() == "spans.dropped") p.drops += c.int_value();
  if (!p.spans && !p.drops) sim::fail(P, "empty", "an empty report is sent");
  sim::log("report %zu: %d spans, %lld dropped", me, p.spans, (long long)p.drops);
  for (int i = 0; i < p.spans; ++i) {
    auto& s = r.spans(i);
    size_t id = (size_t)atoll(s.operation_name().c_str());
    if (id >= X->recs.size()) {
      sim::fail(P, "unknown", "report %zu holds an unknown span", me);
      continue;
    }
    Rec& c = X->recs[id];
    if (s.operation_name() != std::to_string(id) + " " + kit::letters(id, (size_t)c.size) || s.span_context().trace_id() != c.trace ||
        s.span_context().span_id() != c.span || s.tags_size() != c.tags)
      sim::fail(P, "garbled", "span %zu isn't as it was finished", id);
    for (int t = 0; t < s.tags_size(); ++t)
      if (s.tags(t).key() != "t" + std::to_string(t) || s.tags(t).string_value() != kit::letters(id * 100 + (size_t)t, (size_t)c.tag_size))
        sim::fail(P, "garbled", "tag %d of span %zu isn't as it was set", t, id);
    if (c.report >= 0) sim::fail(P, "twice", "span %zu is in reports %d and %zu", id, c.report, me);
    if (c.dropped) sim::fail(P, "dropped-and-sent", "span %zu was dropped but is in report %zu", id, me);
    if (c.before_fork != p.before_fork)
      for (const char* q : {"C09", "C13"}) sim::fail(q, "inherited", "the child reports span %zu, which its parent had finished", id);
    c.report = (int)me;
    c.pos = i;
  }
}

void complete(size_t i) {
  bool ok;
  AsyncTransporter::Callback* cb;
  BufferChain* m;
  {
    sim::Harness h;
    Report& p = *X->reports[i];
    p.busy = true;
    inspect(i);
    ok = !sim::chance(sim::FAULT, X->p_fail);
    if (!ok) sim::fault("report_fails");
    sim::log("report %zu %s", i, ok ? "succeeds" : "fails");
    X->completing[sim::self()] = (int)i;
    cb = p.callback;
    m = p.message.get();
    p.done = ok ? 1 : 2;
  }
  if (ok)
    cb->OnSuccess(*m);
  else
    cb->OnFailure(*m);
  std::unique_ptr<BufferChain> dead;
  {
    sim::Harness h;
    X->completing.erase(sim::self());
    dead = std::move(X->reports[i]->message);
  }
}
// completes one report that is out, if any
void complete_some() {
  size_t i = 0;
  {
    std::lock_guard<std::mutex> lock{X->queue};
    sim::Harness h;
    std::vector<size_t> v;
    for (; i < X->reports.size(); ++i)
      if (!X->reports[i]->busy) v.push_back(i);
    if (v.empty()) return;
    i = v[sim::choose(sim::WORK, v.size())];
    X->reports[i]->busy = true;
  }
  complete(i);
}

void flush() {
  int64_t sends;
  size_t n;
  uint64_t begin;
  {
    sim::Harness h;
    ++X->flushers;
    begin = sim::seq();
    sends = X->sends;
    n = X->recs.size();
  }
  bool alone = X->flushers == 1;
  bool oom = X->p_oom > 0 && sim::chance(sim::FAULT, X->p_oom);
  if (oom) sim::fail_alloc_after(sim::range(sim::FAULT, 1, 3));
  bool ok = X->tracer->FlushWithTimeout(std::chrono::milliseconds(sim::pick<int64_t>(sim::WORK, {1000, 0, 10})));
  oom = sim::alloc_fail_fired();
  sim::fail_alloc_after(0);
  sim::Harness h;
  alone = alone && X->flushers == 1;
  --X->flushers;
  sim::log("flush %s", ok ? "done" : "failed");
  if (!ok && oom) return;
  if (!ok) FAIL_C06("flush", "a flush fails");
  if (alone && X->flushers == 0)  // (others flush inside ours at most from this thread)
    for (size_t i = 0; i < n; ++i) {
      Rec& c = X->recs[i];
      if (c.end < begin && !c.dropped && c.report < 0 && !c.before_fork && X->flushing.empty()) FAIL_C06("left-behind", "span %zu isn't in a report after a flush", i);
    }
  (void)sends;
}

struct Transport : AsyncTransporter {
  ~Transport() override {
    sim::Harness h;
    X->gone = true;
    for (auto& p : X->reports) p->message.reset();
  }
  void OnSpanBufferFull() noexcept override {
    bool go;
    {
      sim::Harness h;
      auto it = X->current.find(sim::self());
      if (it == X->current.end())
        sim::fail(P, "full", "the transport is told of a full buffer though nobody records");
      else
        ++X->recs[(size_t)it->second].full;
      go = sim::chance(sim::WORK, X->p_rescue);
      if (go) X->flushing[sim::self()] = 1;
    }
    if (go) {
      X->tracer->Flush();
      sim::Harness h;
      X->flushing.erase(sim::self());
      auto it = X->current.find(sim::self());
      if (it != X->current.end()) X->recs[(size_t)it->second].room = sim::seq();
    }
  }
  void Send(std::unique_ptr<BufferChain>&& message, Callback& callback) noexcept override {
    size_t i;
    bool now;
    {
      std::lock_guard<std::mutex> lock{X->queue};
      sim::Harness h;
      if (!message) return sim::fail(P, "null", "a null report is sent");
      i = X->reports.size();
      X->reports.emplace_back(new Report);
      Report& p = *X->reports.back();
      p.message = std::move(message);
      p.callback = &callback;
      p.sent = sim::seq();
      ++X->sends;
      inspect(i);
      now = sim::chance(sim::WORK, X->p_sync);
      if (now) p.busy = true;
    }
    if (now) complete(i);
  }
};

void record() {
  std::unique_ptr<opentracing::Span> s;
  size_t id;
  int tags, tag_size;
  {
    sim::Harness h;
    id = X->recs.size();
    X->recs.emplace_back();
    Rec& c = X->recs[id];
    c.size = (int)sim::pick<int64_t>(sim::WORK, {5, 30, 300, 3000});
    c.tags = tags = (int)sim::range(sim::WORK, 0, 3);
    c.tag_size = tag_size = (int)sim::pick<int64_t>(sim::WORK, {1, 10, 1000});
    std::string name = std::to_string(id) + " " + kit::letters(id, (size_t)c.size);
    s = X->tracer->StartSpan(name);
    auto ids = static_cast<const LightStepTracer*>(X->tracer.get())->GetTraceSpanIdsSampled(s->context());
    c.trace = (*ids)[0];
    c.span = (*ids)[1];
  }
  for (int t = 0; t < tags; ++t) s->SetTag("t" + std::to_string(t), kit::letters(id * 100 + (size_t)t, (size_t)tag_size));
  {
    sim::Harness h;
    X->recs[id].begin = sim::seq();
    X->current[sim::self()] = (int)id;
  }
  if (sim::chance(sim::WORK, 0.8))
    s->Finish();
  else
    s.reset();
  sim::Harness h;
  X->current.erase(sim::self());
  Rec& c = X->recs[id];
  c.end = sim::seq();
  sim::log("span %zu finished%s", id, c.dropped ? ": dropped" : "");
  if (c.dropped > 1) sim::fail(P, "count", "one span was dropped %d times", c.dropped);
  if (c.dropped && !c.full) sim::fail(P, "not-told", "span %zu is dropped and the transport wasn't told that the buffer is full", id);
  if (c.full > 1) sim::fail(P, "full", "the transport is told %d times of one span that the buffer is full", c.full);
}

void threads(int n, int ops, bool completers) {
  std::vector<std::thread> th;
  for (int i = 0; i < n; ++i)
    th.emplace_back([&, i] {
      for (int k = 0; k < ops; ++k) switch (sim::choose(sim::WORK, 6)) {
          case 4:
            flush();
            break;
          case 5:
            complete_some();
            break;
          default: record();
        }
    });
  if (completers)
    th.emplace_back([&] {
      for (int k = 0; k < ops; ++k) {
        complete_some();
        std::this_thread::yield();
      }
    });
  for (auto& t : th) t.join();
}
// after quiet: everything the transport was given completes, and a last report says the rest
void settle(uint64_t) {
  {
    sim::Harness h;
    X->p_fail = X->p_oom = 0;
  }
  for (int k = 0; k < 2; ++k) {
    flush();
    for (;;) {
      bool left = false;
      for (auto& p : X->reports) left |= !p->busy;
      if (!left) break;
      complete_some();
    }
  }
  sim::Harness h;
  int64_t refused = 0, ok = 0, failed = 0, drops = 0;
  for (auto& p : X->reports) {
    if (p->before_fork) continue;
    (p->done == 1 ? ok : failed) += p->spans;
    if (p->done == 1) drops += p->drops;
  }
  for (size_t i = 0; i < X->recs.size(); ++i) {
    Rec& a = X->recs[i];
    if (a.before_fork) continue;
    if (a.dropped) {
      ++refused;
      int full = 0;
      for (auto& b : X->recs)
        if (&b != &a && !b.dropped && b.begin < a.end && (b.report < 0 || X->reports[(size_t)b.report]->sent > std::max(a.begin, a.room))) ++full;
      if (full < X->max) sim::fail(P, "refused", "span %zu is dropped though at most %d of %d places were taken%s", i, full, X->max, a.room ? " once the transport had flushed" : "");
    } else if (a.report < 0) {
      sim::fail(P, "lost", "span %zu is in no report and wasn't dropped", i);
    }
  }
  for (auto& a : X->recs)
    for (auto& b : X->recs)
      if (a.report >= 0 && a.report == b.report && a.end < b.begin && a.pos > b.pos) sim::fail(P, "order", "spans of one report are out of order");
  if (drops != refused + failed)
    for (const char* q : {"C13", "C15"}) sim::fail(q, "drop-count", "successful reports count %lld dropped spans, but %lld were refused and %lld were in failed reports", (long long)drops, (long long)refused, (long long)failed);
  if (X->sent != ok) FAIL_C15("observer", "the observer was told of %lld spans sent, but %lld were", (long long)X->sent, (long long)ok);
  if (X->dropped != refused + failed) FAIL_C15("observer", "the observer was told of %lld spans dropped, but %lld were", (long long)X->dropped, (long long)(refused + failed));
  if (X->flushes != X->sends) FAIL_C15("observer", "%lld reports were sent but %lld flushes observed", (long long)X->sends, (long long)X->flushes);
}
}  // namespace

SIM_SCENARIO(manual_recorder) {
  Ctx ctx;
  X = &ctx;
  auto& c = sim::config();
  c.stall = sim::chance(sim::FAULT, 0.3) ? 0.005 : 0;
  c.stall_max = 1 * MS;
  c.quarantine = sim::chance(sim::WORK, 0.5) ? 0 : 64;
  ctx.max = (int)sim::pick<int64_t>(sim::WORK, {3, 1, 2, 10});
  ctx.p_sync = sim::pick<double>(sim::WORK, {0, 0.3, 1});
  ctx.p_fail = sim::pick<double>(sim::FAULT, {0, 0.3, 0.8});
  ctx.p_rescue = sim::pick<double>(sim::WORK, {0, 0.4, 1});
  ctx.p_oom = sim::chance(sim::FAULT, 0.3) ? 0.4 : 0;
  auto logger = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  LightStepTracerOptions o;
  o.access_token = "tok";
  o.max_buffered_spans = (size_t)ctx.max;
  o.metrics_observer.reset(new Observer);
  ctx.rec = new ManualRecorder{*logger, std::move(o), std::unique_ptr<AsyncTransporter>{new Transport}};
  ctx.tracer.reset(new TracerImpl{logger, PropagationOptions{}, std::unique_ptr<Recorder>{ctx.rec}});
  threads((int)sim::range(sim::WORK, 1, 3), (int)sim::range(sim::WORK, 1, 14), sim::chance(sim::WORK, 0.5));
  if (sim::chance(sim::WORK, 0.25)) {
    bool child = sim::chance(sim::WORK, 0.7);
    bool in_child = sim::fork_as(child);
    sim::fault(child ? "fork_child" : "fork_parent");
    sim::log("forked; going on as the %s", in_child ? "child" : "parent");
    if (in_child) {
      sim::Harness h;
      // what its parent gave to the transport is the parent's
      for (auto& r : ctx.recs) r.before_fork = true;
      for (auto& p : ctx.reports) p->before_fork = p->busy = true;
      ctx.sent = ctx.dropped = ctx.flushes = ctx.sends = 0;
    }
    threads((int)sim::range(sim::WORK, 1, 3), (int)sim::range(sim::WORK, 1, 8), sim::chance(sim::WORK, 0.5));
  }
  if (sim::chance(sim::WORK, 0.8)) settle(0);
  if (sim::chance(sim::WORK, 0.3)) ctx.tracer->Close();
  ctx.tracer.reset();
  sim::Harness h;
  if (!ctx.gone) sim::fail(P, "transport-lifetime", "the transport outlives its recorder");
  ctx.reports.clear();
  sim::check_leaks(P, "after the recorder and its reports are gone");
}
