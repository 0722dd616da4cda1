// The older recorder for asynchronous transports: single-threaded, one report in
// flight, completing inside the send, later, or never; sends that throw.
#include <algorithm>
#include <deque>
#include <map>
#include "common/logger.h"
#include "kit/kit.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/metrics_observer.h"
#include "lightstep/transporter.h"
#include "recorder/legacy_manual_recorder.h"
using namespace lightstep;

namespace {
const char* P = "C14";
#define FAIL_C06(...) (sim::fail(P, __VA_ARGS__), sim::fail("C06", __VA_ARGS__))
#define FAIL_C15(...) (sim::fail(P, __VA_ARGS__), sim::fail("C15", __VA_ARGS__))
struct Rec {
  int dropped = 0, report = -1;
  int size = 0;
};
struct Report {
  int spans = 0;
  int64_t drops = 0;
  int done = 0;  // 1 success, 2 failure, 3 the send threw
};
struct Ctx {
  std::deque<Rec> recs;
  std::deque<Report> reports;
  int64_t sent = 0, dropped = 0, flushes = 0;
  int recording = -1, max = 1, completing = -1;
  LegacyManualRecorder* rec = nullptr;
  double p_nest = 0;   // the transport is traced as well
  int64_t nested = 0;  // the flushes heard of meanwhile
  bool nesting = false;
  double p_sync = 0, p_fail = 0, p_throw = 0, p_disable = 0;
  int in_flight = -1;
  bool disabled = false, sends_in_call = false, thrown = false;
  LegacyAsyncTransporter::Callback* callback = nullptr;
  const collector::ReportRequest* request = nullptr;
  collector::ReportResponse* response = nullptr;
  std::string bytes;
  int64_t unreported_drops = 0;
};
Ctx* X;
int pending() {
  int n = 0;
  for (size_t i = 0; i < X->recs.size(); ++i) n += (int)i != X->recording && !X->recs[i].dropped && X->recs[i].report < 0;
  return n;
}

struct Observer : MetricsObserver {
  void OnSpansSent(int n) noexcept override { X->sent += n; }
  void OnSpansDropped(int n) noexcept override {
    X->dropped += n;
    if (X->thrown) {  // the spans of a report whose send threw
      X->thrown = false;
    } else if (X->recording >= 0 && X->completing < 0) {
      X->recs[(size_t)X->recording].dropped += n;
      if (!X->disabled && !(pending() >= X->max && X->in_flight >= 0))
        sim::fail(P, "refused", "span %d is dropped with %d of %d places taken and %s", X->recording, pending(), X->max, X->in_flight >= 0 ? "a report in flight" : "no report in flight");
    }
  }
  void OnFlush() noexcept override { ++X->flushes; }
};

// A response with what a collector may put into it; only some of it disables.
void respond(collector::ReportResponse& r, bool disable) {
  int n = sim::chance(sim::WORK, 0.2) ? (int)sim::range(sim::WORK, 1, 3) : 0, at = (int)sim::range(sim::WORK, 0, n);
  for (int i = 0; i <= n; ++i)
    if (i == at) {
      if (disable) r.add_commands()->set_disable(true);
    } else {
      r.add_commands()->set_disable(false);
    }
  if (!sim::chance(sim::WORK, 0.1)) return;
  r.mutable_receive_timestamp()->set_seconds(5);
  r.add_errors("an error");
  r.add_warnings("a warning");
  r.add_infos("something");
}
void complete(bool ok) {
  int me = X->in_flight;
  X->completing = me;
  if (X->request->SerializeAsString() != X->bytes) sim::fail(P, "mutated", "report %d changes while it is in flight", me);
  sim::log("report %d %s", me, ok ? "succeeds" : "fails");
  X->reports[(size_t)me].done = ok ? 1 : 2;
  X->in_flight = -1;
  X->response->Clear();
  auto cb = X->callback;
  if (ok) {
    X->unreported_drops -= X->reports[(size_t)me].drops;
    bool disable = sim::chance(sim::FAULT, X->p_disable);
    if (disable) sim::fault("disabled");
    respond(*X->response, disable);
    X->disabled |= disable;
    cb->OnSuccess();
  } else {
    sim::fault("report_fails");
    X->unreported_drops += X->reports[(size_t)me].spans;
    cb->OnFailure(std::make_error_code(std::errc::network_unreachable));
  }
  X->completing = -1;
}

void record(LegacyManualRecorder& r);
void flush(LegacyManualRecorder& r);
struct Transport : LegacyAsyncTransporter {
  void Send(const google::protobuf::Message& request, google::protobuf::Message& response, Callback& callback) override {
    X->sends_in_call = true;
    if (X->in_flight >= 0) sim::fail(P, "overlap", "report %zu is sent while report %d is in flight", X->reports.size(), X->in_flight);
    if (X->disabled) sim::fail(P, "after-disable", "a report is sent after the recorder was disabled");
    auto& r = dynamic_cast<const collector::ReportRequest&>(request);
    size_t me = X->reports.size();
    X->reports.emplace_back();
    Report& p = X->reports.back();
    p.spans = r.spans_size();
    for (auto& c : r.internal_metrics().counts())
      if (c.name() == "spans.dropped") p.drops += c.int_value();
    sim::log("report %zu: %d spans, %lld dropped", me, p.spans, (long long)p.drops);
    if (r.auth().access_token() != "tok" || r.reporter().reporter_id() == 0) sim::fail(P, "header", "report %zu has a wrong header", me);
    if (!p.spans) sim::fail(P, "empty", "an empty report is sent");
    if (p.drops != X->unreported_drops) FAIL_C15("drop-count", "report %zu counts %lld dropped spans, but %lld are unreported", me, (long long)p.drops, (long long)X->unreported_drops);
    int last = -1;
    for (auto& s : r.spans()) {
      size_t id = s.span_context().span_id();
      if (id >= X->recs.size()) {
        sim::fail(P, "unknown", "report %zu holds an unknown span", me);
        continue;
      }
      Rec& c = X->recs[id];
      if (s.operation_name() != kit::letters(id, (size_t)c.size)) sim::fail(P, "garbled", "span %zu isn't as it was recorded", id);
      if (c.report >= 0) sim::fail(P, "twice", "span %zu is in reports %d and %zu", id, c.report, me);
      if (c.dropped) sim::fail(P, "dropped-and-sent", "span %zu was dropped but is in report %zu", id, me);
      if ((int)id < last) sim::fail(P, "order", "report %zu is out of order", me);
      last = (int)id;
      c.report = (int)me;
    }
    for (size_t i = 0; i < X->recs.size(); ++i)
      if ((int)i != X->recording && !X->recs[i].dropped && X->recs[i].report < 0) sim::fail(P, "left-behind", "span %zu isn't in the report sent after it was recorded", i);
    X->in_flight = (int)me;
    X->callback = &callback;
    X->request = &r;
    X->response = dynamic_cast<collector::ReportResponse*>(&response);
    X->bytes = r.SerializeAsString();
    if (sim::chance(sim::WORK, X->p_nest) && !X->nesting && (X->recording < 0 || X->recs[(size_t)X->recording].report == (int)me)) {
      int outer = X->recording;
      int64_t told = X->flushes;
      X->nesting = true;
      for (int64_t n = sim::range(sim::WORK, 1, 4); n > 0; --n)
        if (sim::chance(sim::WORK, 0.2)) flush(*X->rec);
        else record(*X->rec);
      X->nesting = false;
      X->nested += X->flushes - told;
      X->recording = outer;
      X->sends_in_call = true;
    }
    bool sync = sim::chance(sim::WORK, X->p_sync), throws = sim::chance(sim::FAULT, X->p_throw);
    if (sync) complete(!sim::chance(sim::FAULT, X->p_fail));
    if (throws) {
      sim::fault("send_throws");
      if (!sync) {
        p.done = 3;
        X->in_flight = -1;
        X->unreported_drops += p.spans;
        X->thrown = true;
      }
      throw std::runtime_error{"send"};
    }
  }
};
void record(LegacyManualRecorder& r) {
  collector::Span s;
  size_t id = X->recs.size();
  X->recs.emplace_back();
  Rec* c = &X->recs[id];
  c->size = (int)sim::range(sim::WORK, 1, 30);
  int waiting = pending() - 1;
  s.mutable_span_context()->set_span_id(id);
  s.set_operation_name(kit::letters(id, (size_t)c->size));
  X->recording = (int)id;
  X->sends_in_call = false;
  int64_t told = X->flushes, nested = X->nested;
  size_t reports = X->reports.size();
  r.RecordSpan(s);
  told = X->flushes - told - (X->nested - nested);
  if (told > 2 || told < (int64_t)(X->reports.size() - reports)) FAIL_C15("observer", "the observer hears of %d flushes while a span is recorded", (int)told);
  X->recording = -1;
  sim::log("span %zu recorded%s", id, c->dropped > 0 ? ": dropped" : "");
  if (c->dropped > 0) ++X->unreported_drops;
  if (pending() > std::max(waiting, X->max)) sim::fail(P, "unbounded", "%d spans wait, with room for %d", pending(), X->max);
  if (c->dropped > 1) sim::fail(P, "count", "one span was dropped %d times", c->dropped);
  if (!X->disabled && pending() >= X->max && X->in_flight < 0 && !c->dropped && !X->sends_in_call)
    sim::fail(P, "full", "the buffer is full, nothing is in flight and no report is sent");
}
void flush(LegacyManualRecorder& r) {
  int before = pending();
  bool flying = X->in_flight >= 0, disabled = X->disabled;
  size_t n = X->reports.size();
  int64_t told = X->flushes, nested = X->nested;
  bool ok = r.FlushWithTimeout(std::chrono::milliseconds(sim::pick<int64_t>(sim::WORK, {0, 1000})));
  told = X->flushes - told - (X->nested - nested);
  sim::log("flush %s", ok ? "done" : "failed");
  bool sent = X->reports.size() > n;
  if (disabled) {
    if (ok || sent) sim::fail(P, "after-disable", "a flush succeeds although the recorder is disabled");
    return;
  }
  if (told != 1) FAIL_C15("observer", "the observer hears of %d flushes when asked for one", (int)told);
  if (sent && flying) return;  // reported above
  if (flying && ok != (before == 0)) FAIL_C06("flush", "a flush with %d spans waiting behind a report %s", before, ok ? "succeeds" : "fails");
  if (!flying && before && !sent) FAIL_C06("flush", "a flush doesn't send the %d spans that wait", before);
  if (!flying && !before && !ok) FAIL_C06("flush", "a flush without anything to send fails");
  if (sent && X->reports.back().done == 3 && ok) FAIL_C06("flush", "a flush whose send threw succeeds");
  if (sent && (X->reports.back().done == 0 || X->reports.back().done == 1) && !ok && !X->p_throw) FAIL_C06("flush", "a flush that sent its report fails");
}
}  // namespace

SIM_SCENARIO(legacy_recorder) {
  Ctx ctx;
  X = &ctx;
  ctx.max = (int)sim::pick<int64_t>(sim::WORK, {3, 1, 2, 8});
  bool dynamic = sim::chance(sim::WORK, 0.3);
  ctx.p_sync = sim::pick<double>(sim::WORK, {0, 0.3, 1});
  ctx.p_fail = sim::pick<double>(sim::FAULT, {0, 0.3, 0.8});
  ctx.p_throw = sim::pick<double>(sim::FAULT, {0, 0, 0.3});
  ctx.p_disable = sim::pick<double>(sim::FAULT, {0, 0, 0, 0.1});
  ctx.p_nest = sim::pick<double>(sim::WORK, {0, 0, 0.4});
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  LightStepTracerOptions o;
  o.access_token = "tok";
  o.max_buffered_spans = std::function<size_t()>{[] { return (size_t)X->max; }};
  o.verbose = sim::chance(sim::WORK, 0.2);
  o.metrics_observer.reset(new Observer);
  std::unique_ptr<LegacyManualRecorder> rec{new LegacyManualRecorder{logger, std::move(o), std::unique_ptr<LegacyAsyncTransporter>{new Transport}}};
  ctx.rec = rec.get();
  int ops = (int)sim::range(sim::WORK, 1, 60);
  for (int k = 0; k < ops; ++k) switch (sim::choose(sim::WORK, 10)) {
      case 6:
      case 7:
        flush(*rec);
        break;
      case 8:
        if (ctx.in_flight >= 0) complete(!sim::chance(sim::FAULT, ctx.p_fail));
        break;
      case 9:
        if (dynamic) {
          ctx.max = (int)sim::range(sim::WORK, 1, 8);
          sim::log("room for %d", ctx.max);
        }
        break;
      default: record(*rec);
    }
  // the transport works from now on
  ctx.p_fail = ctx.p_throw = ctx.p_disable = ctx.p_nest = 0;
  if (ctx.in_flight >= 0) complete(true);
  if (!ctx.disabled) {
    flush(*rec);
    if (ctx.in_flight >= 0) complete(true);
    if (!ctx.disabled) {
      record(*rec);
      flush(*rec);
      if (ctx.in_flight >= 0) complete(true);
      if (ctx.unreported_drops) FAIL_C15("drop-count", "%lld dropped spans were never reported", (long long)ctx.unreported_drops);
      if (pending()) sim::fail(P, "lost", "%d spans were neither reported nor dropped", pending());
    }
  }
  int64_t handed = 0, gone = 0;
  for (auto& p : ctx.reports) {
    handed += p.spans;
    if (p.done >= 2) gone += p.spans;
  }
  for (auto& r : ctx.recs) gone += r.dropped;
  if (ctx.sent != handed) FAIL_C15("observer", "the observer was told of %lld spans sent, but %lld were handed to the transport", (long long)ctx.sent, (long long)handed);
  if (ctx.dropped != gone) FAIL_C15("observer", "the observer was told of %lld spans dropped, but %lld were", (long long)ctx.dropped, (long long)gone);
  if (ctx.flushes < (int64_t)ctx.reports.size()) FAIL_C15("observer", "%zu reports but only %lld flushes were observed", ctx.reports.size(), (long long)ctx.flushes);
  rec.reset();
}
