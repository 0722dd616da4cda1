// The recorder with a background thread and a synchronous transport, under slow,
// failing, throwing and disabling sends.
#include <algorithm>
#include <map>
#include <thread>
#include "common/logger.h"
#include "kit/kit.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/metrics_observer.h"
#include "lightstep/transporter.h"
#include "recorder/auto_recorder.h"
using namespace lightstep;
using sim::MS;
using sim::SEC;
using sim::US;

namespace {
struct Rec {  // one RecordSpan call
  uint64_t begin = 0, end = UINT64_MAX;
  int64_t t_begin = 0, t_end = -1;
  int dropped = 0, report = -1, pos = -1, dropped_by = -1;
  int thread = 0, size = 0;
};
struct Report {
  uint64_t begin = 0, end = UINT64_MAX;
  int64_t t_begin = 0, t_end = -1;
  int spans = 0;
  int64_t drops = 0;
  bool ok = false, threw = false;
};
struct Ctx {
  std::vector<Rec> recs;
  std::vector<Report> reports;
  std::map<int, int> current;  // thread -> its RecordSpan call
  int64_t sent = 0, dropped = 0, failed = 0, flushes = 0, flush_reports = 0;
  int max = 1;
  int64_t period = 0, slack = 0;
  double p_fail = 0, p_slow = 0, p_throw = 0, p_disable = 0;
  int64_t slow = 0;
  bool sending = false, gone = false, stopped = false, destroying = false;
  int64_t stopped_at = -1;
  int pending = 0;          // at most: spans recorded and not seen in a report
  bool tags_ok = true;
  std::vector<std::pair<uint64_t, int>> maxes;  // the room there was, since when
  // The least or most room that the recorder may have reckoned with in a while:
  // it looks up how much there is after every report.
  int room(uint64_t from, uint64_t to, bool most) const {
    uint64_t last = 0, before = 0;
    for (auto& p : reports)
      if (p.end < from) {
        before = last;
        last = p.end;
      }
    int r = most ? 0 : INT32_MAX;
    for (size_t i = 0; i < maxes.size(); ++i)
      if (maxes[i].first < to && (i + 1 == maxes.size() || maxes[i + 1].first >= before)) r = most ? std::max(r, maxes[i].second) : std::min(r, maxes[i].second);
    return r;
  }
  void set_max(int n) {
    max = n;
    maxes.emplace_back(sim::seq(), n);
  }
};
Ctx* X;
const char* P = "C12";
#define FAIL_C07(...) (sim::fail(P, __VA_ARGS__), sim::fail("C07", __VA_ARGS__))
#define FAIL_C06(...) (sim::fail(P, __VA_ARGS__), sim::fail("C06", __VA_ARGS__))
#define FAIL_C15(...) (sim::fail(P, __VA_ARGS__), sim::fail("C15", __VA_ARGS__))

struct Observer : MetricsObserver {
  void OnSpansSent(int n) noexcept override {
    sim::Harness h;
    X->sent += n;
  }
  void OnSpansDropped(int n) noexcept override {
    sim::Harness h;
    X->dropped += n;
    auto it = X->current.find(sim::self());
    if (it != X->current.end()) {
      X->recs[(size_t)it->second].dropped += n;
    } else {
      X->failed += n;
    }
  }
  void OnFlush() noexcept override {
    sim::Harness h;
    ++X->flushes;
  }
};

// A response with what a collector may put into it; only some of it disables.
void respond(collector::ReportResponse& r, bool disable) {
  int n = sim::chance(sim::WORK, 0.2) ? (int)sim::range(sim::WORK, 1, 3) : 0, at = (int)sim::range(sim::WORK, 0, n);
  for (int i = 0; i <= n; ++i)
    if (i == at) {
      if (disable) r.add_commands()->set_disable(true);
    } else {
      r.add_commands()->set_disable(false);
    }
  if (!sim::chance(sim::WORK, 0.1)) return;
  r.mutable_receive_timestamp()->set_seconds(5);
  r.add_errors("an error");
  r.add_warnings("a warning");
  r.add_infos("something");
}
struct Transport : SyncTransporter {
  ~Transport() override {
    sim::Harness h;
    if (X->sending) FAIL_C07("transport-lifetime", "the transport is destroyed while it sends");
    X->gone = true;
  }
  opentracing::expected<void> Send(const google::protobuf::Message& request, google::protobuf::Message& response) override {
    bool ok, throws, disable;
    int64_t t;
    size_t me;
    std::string before;
    {
      sim::Harness h;
      if (X->sending) sim::fail(P, "overlap", "two reports are sent at the same time");
      X->sending = true;
      if (X->stopped) sim::fail(P, "after-disable", "a report is sent after the recorder was disabled");
      auto r = dynamic_cast<const collector::ReportRequest*>(&request);
      if (!r) return sim::fail(P, "type", "the request is not a report"), opentracing::expected<void>{};
      me = X->reports.size();
      X->reports.emplace_back();
      Report& p = X->reports.back();
      p.begin = sim::seq();
      p.t_begin = sim::now();
      p.spans = r->spans_size();
      if (r->auth().access_token() != "tok") sim::fail(P, "preamble", "report %zu has access token '%s'", me, r->auth().access_token().c_str());
      if (r->reporter().tags_size() != 1 || r->reporter().tags(0).key() != "lightstep.guid") sim::fail(P, "preamble", "report %zu has %d reporter tags", me, r->reporter().tags_size());
      if (r->reporter().reporter_id() == 0) sim::fail(P, "preamble", "report %zu has no reporter id", me);
      int64_t drops = 0;
      for (auto& c : r->internal_metrics().counts())
        if (c.name() == "spans.dropped") drops += c.int_value();
      p.drops = drops;
      sim::log("report %zu: %d spans, %lld dropped", me, p.spans, (long long)drops);
      if (!p.spans) sim::fail(P, "empty", "an empty report is sent");
      {
        // they were recorded since the report before was taken
        int room = X->room(me ? X->reports[me - 1].begin : 0, p.begin, true);
        if (p.spans > room) sim::fail(P, "overfull", "a report holds %d spans but only %d may be buffered", p.spans, room);
      }
      for (int i = 0; i < p.spans; ++i) {
        auto& s = r->spans(i);
        uint64_t id = s.span_context().span_id();
        if (id >= X->recs.size()) {
          sim::fail(P, "unknown", "report %zu holds span %llu, which nobody recorded", me, (unsigned long long)id);
          continue;
        }
        Rec& c = X->recs[id];
        if (s.operation_name() != kit::letters(id, (size_t)c.size) || s.tags_size() != 1 || s.tags(0).key() != "k" + std::to_string(id))
          sim::fail(P, "garbled", "span %llu isn't as it was recorded", (unsigned long long)id);
        if (c.report >= 0) sim::fail(P, "twice", "span %llu is in reports %d and %zu", (unsigned long long)id, c.report, me);
        if (c.dropped) sim::fail(P, "dropped-and-sent", "span %llu was dropped but is in report %zu", (unsigned long long)id, me);
        c.report = (int)me;
        c.pos = i;
        --X->pending;
      }
      ok = !sim::chance(sim::FAULT, X->p_fail);
      throws = ok && sim::chance(sim::FAULT, X->p_throw);
      disable = ok && !throws && sim::chance(sim::FAULT, X->p_disable);
      t = sim::chance(sim::FAULT, X->p_slow) ? sim::range(sim::FAULT, 1, X->slow / US) * US : sim::range(sim::WORK, 0, 3) * 100 * US;
      if (!ok) sim::fault("send_fails");
      if (throws) sim::fault("send_throws");
      if (disable) sim::fault("disabled");
      if (t > 5 * MS) sim::fault("slow_send");
      before = request.SerializeAsString();
    }
    if (t) std::this_thread::sleep_for(std::chrono::nanoseconds(t));
    {
      sim::Harness h;
      if (request.SerializeAsString() != before) sim::fail(P, "mutated", "report %zu changes while it is sent", me);
      Report& p = X->reports[me];
      p.end = sim::seq();
      p.t_end = sim::now();
      p.ok = ok && !throws;
      p.threw = throws;
      X->sending = false;
      if (throws || disable) {
        X->stopped = true;
        X->stopped_at = sim::now();
      }
      if (ok && !throws) respond(dynamic_cast<collector::ReportResponse&>(response), disable);
    }
    if (throws) throw std::runtime_error{"transport"};
    if (!ok) return opentracing::make_unexpected(std::make_error_code(std::errc::network_unreachable));
    return {};
  }
};

void record(AutoRecorder& r) {
  collector::Span s;
  size_t id;
  {
    sim::Harness h;
    id = X->recs.size();
    X->recs.emplace_back();
    Rec& c = X->recs[id];
    c.size = (int)sim::range(sim::WORK, 1, 20);
    c.thread = sim::self();
    c.begin = sim::seq();
    c.t_begin = sim::now();
    X->current[sim::self()] = (int)id;
    ++X->pending;
    s.mutable_span_context()->set_span_id(id);
    s.set_operation_name(kit::letters(id, (size_t)c.size));
    s.add_tags()->set_key("k" + std::to_string(id));
  }
  r.RecordSpan(s);
  sim::Harness h;
  X->current.erase(sim::self());
  Rec& c = X->recs[id];
  c.end = sim::seq();
  c.t_end = sim::now();
  if (c.dropped) --X->pending;
  sim::log("span %zu recorded%s", id, c.dropped ? ": dropped" : "");
  if (c.dropped > 1) sim::fail(P, "count", "one span was dropped %d times", c.dropped);
  if (c.t_end - c.t_begin > X->slack) sim::fail(P, "blocked", "recording a span took %lld us", (long long)((c.t_end - c.t_begin) / US));
}

constexpr int64_t FOREVER = INT64_MAX;
void flush(AutoRecorder& r, int64_t timeout, bool must = false) {
  size_t n;
  uint64_t begin;
  int64_t t0;
  bool stopped;
  {
    sim::Harness h;
    n = X->recs.size();
    begin = sim::seq();
    t0 = sim::now();
    stopped = X->stopped;
  }
  bool ok = r.FlushWithTimeout(std::chrono::nanoseconds(timeout));
  sim::Harness h;
  int64_t dt = sim::now() - t0;
  sim::log("flush %s after %lld of %lld us", ok ? "done" : "failed", (long long)(dt / US), (long long)(timeout / US));
  sim::probe(ok ? "flush_true" : "flush_false");
  if (timeout < FOREVER / 4 && dt > std::max<int64_t>(timeout, 0) + X->slack) FAIL_C06("flush-overdue", "a flush with a timeout of %lld us returned after %lld us", (long long)(timeout / US), (long long)(dt / US));
  bool all = true;
  for (size_t i = 0; i < n; ++i) {
    Rec& c = X->recs[i];
    if (c.end >= begin || c.dropped) continue;
    if (c.report < 0 || X->reports[(size_t)c.report].end == UINT64_MAX || X->reports[(size_t)c.report].threw) {
      all = false;
      if (ok) FAIL_C06("flush-early", "a flush succeeds although span %zu, recorded before, has not been sent", i);
    }
  }
  if (!ok && !X->stopped && dt + 2 * US < timeout) FAIL_C06("flush-failure", "a flush with a timeout of %lld us failed after %lld us", (long long)(timeout / US), (long long)(dt / US));
  if (!ok && all && !X->stopped && timeout > X->period + X->slow * 2 + X->slack * 2 && X->p_slow == 0)
    FAIL_C06("flush-false", "a flush fails though everything before it was sent");
  if (must && !ok && !stopped && !X->stopped) FAIL_C06("flush-stuck", "a flush of %lld ms fails though the transport works", (long long)(timeout / MS));
}
}  // namespace

SIM_SCENARIO(auto_recorder) {
  Ctx ctx;
  X = &ctx;
  auto& c = sim::config();
  c.time_cap = 4000 * SEC;
  bool stalls = sim::chance(sim::FAULT, 0.3);
  c.stall = stalls ? 0.005 : 0;
  c.stall_max = 5 * MS;
  c.spurious_wakeup = sim::pick<double>(sim::FAULT, {0, 0.1, 0.3});
  ctx.slack = stalls ? 400 * MS : 3 * MS;
  ctx.set_max((int)sim::pick<int64_t>(sim::WORK, {2, 1, 4, 10}));
  bool varies = sim::chance(sim::WORK, 0.25);
  ctx.period = sim::pick<int64_t>(sim::WORK, {500, 20, 3000}) * MS;
  bool never = sim::chance(sim::WORK, 0.06);  // reports only when the buffer is full
  if (never) ctx.period = sim::pick<int64_t>(sim::WORK, {FOREVER, FOREVER / 2, 24 * 3600 * 4000 * SEC});
  ctx.p_slow = sim::pick<double>(sim::FAULT, {0, 0.3, 0.8});
  ctx.slow = sim::pick<int64_t>(sim::FAULT, {20, 700, 8000}) * MS;
  ctx.p_fail = sim::pick<double>(sim::FAULT, {0, 0.2, 0.6});
  if (sim::chance(sim::FAULT, 0.2)) (sim::chance(sim::FAULT, 0.5) ? ctx.p_throw : ctx.p_disable) = 0.3;
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  LightStepTracerOptions o;
  o.access_token = "tok";
  o.tags["lightstep.guid"] = "x";
  if (varies)
    o.max_buffered_spans = std::function<size_t()>{[] { return (size_t)X->max; }};
  else
    o.max_buffered_spans = (size_t)ctx.max;
  o.reporting_period = std::chrono::nanoseconds(ctx.period);
  if (never) ctx.period = 24 * 3600 * 300 * SEC;
  o.verbose = sim::chance(sim::WORK, 0.2);
  o.metrics_observer.reset(new Observer);
  int64_t born = sim::now();
  std::unique_ptr<AutoRecorder> rec{new AutoRecorder{logger, std::move(o), std::unique_ptr<SyncTransporter>{new Transport}}};
  int n = (int)sim::range(sim::WORK, 1, 3), ops = (int)sim::range(sim::WORK, 1, 14);
  {
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
      th.emplace_back([&, i] {
        for (int k = 0; k < ops; ++k) {
          if (varies && sim::chance(sim::WORK, 0.15)) {
            sim::Harness h;
            ctx.set_max((int)sim::range(sim::WORK, 1, 6));
            sim::log("room for %d", ctx.max);
          }
          switch (sim::choose(sim::WORK, 8)) {
            case 6:
              if (!never && sim::chance(sim::WORK, 0.2))
                flush(*rec, sim::pick<int64_t>(sim::WORK, {FOREVER, FOREVER - SEC, FOREVER / 2, 24 * 3600 * 4000 * SEC}));
              else
                flush(*rec, sim::pick<int64_t>(sim::WORK, {10000, 0, 50, 1000, -5}) * MS);
              break;
            case 7: {
              int64_t t = sim::pick<int64_t>(sim::WORK, {1, 30, 600, 4000}) * MS;
              std::this_thread::sleep_for(std::chrono::nanoseconds(t));
              break;
            }
            default: record(*rec);
          }
        }
      });
    for (auto& t : th) t.join();
  }
  bool settle = !never && sim::chance(sim::WORK, 0.7);
  if (settle) {
    // the transport works from now on: everything is sent or counted
    {
      sim::Harness h;
      ctx.p_fail = ctx.p_throw = ctx.p_disable = ctx.p_slow = 0;
    }
    for (int k = 0; k < 2; ++k) {
      flush(*rec, 2 * ctx.period + 2 * ctx.slow + 2 * ctx.slack + SEC, true);
      record(*rec);
    }
    flush(*rec, 2 * ctx.period + 2 * ctx.slow + 2 * ctx.slack + SEC, true);
  }
  int64_t t0 = sim::now();
  rec.reset();
  sim::Harness h;
  int64_t dt = sim::now() - t0;
  if (dt > (ctx.p_slow || ctx.reports.size() ? ctx.slow : 0) + ctx.slack) FAIL_C07("slow-end", "destroying the recorder took %lld ms", (long long)(dt / MS));
  if (!ctx.gone) FAIL_C07("transport-lifetime", "the transport outlives its recorder");
  if (sim::live_threads() > 1) FAIL_C07("thread-left", "%zu threads stay behind", sim::live_threads() - 1);
  for (const char* q : {"C12", "C07"}) sim::check_leaks(q, "after the recorder was destroyed");

  // ---- the history
  auto& R = ctx.reports;
  int64_t refused = 0, in_ok = 0, in_failed = 0, in_threw = 0, drops_ok = 0, lost = 0;
  for (auto& p : R) {
    (p.ok ? in_ok : p.threw ? in_threw : in_failed) += p.spans;
    if (p.ok) drops_ok += p.drops;
  }
  for (size_t i = 0; i < ctx.recs.size(); ++i) {
    Rec& a = ctx.recs[i];
    if (a.dropped) {
      ++refused;
      if (ctx.stopped && a.t_end >= ctx.stopped_at) continue;
      int full = 0;
      for (auto& b : ctx.recs)
        if (&b != &a && !b.dropped && b.begin < a.end && (b.report < 0 || R[(size_t)b.report].begin > a.begin)) ++full;
      int room = ctx.room(a.begin, a.end, false);
      if (full < room) sim::fail(P, "refused", "span %zu is dropped though at most %d of %d places were taken", i, full, room);
    } else if (a.report < 0) {
      ++lost;
      if (settle && !ctx.stopped) sim::fail(P, "lost", "span %zu is in no report and wasn't dropped", i);
      // due by now?
      if (!ctx.stopped && t0 - a.t_end > ctx.period + ctx.slack) {
        int64_t since = a.t_end;
        for (auto& p : R)
          if (p.t_end > since) since = p.t_end;
        if (!ctx.sending && t0 - since > ctx.period + ctx.slack) sim::fail(P, "overdue", "span %zu isn't reported %lld ms after it was recorded", i, (long long)((t0 - a.t_end) / MS));
      }
    } else {
      // when it had to be reported at the latest
      Report& p = R[(size_t)a.report];
      int64_t since = a.t_end;
      for (auto& q : R)
        if (q.begin < p.begin && q.t_end > since) since = q.t_end;
      if (p.t_begin - since > ctx.period + ctx.slack)
        sim::fail(P, "overdue", "span %zu is reported %lld ms after it could have been", i, (long long)((p.t_begin - since) / MS));
    }
  }
  // promptly when the buffer is full; and in order
  for (size_t k = 0; k < R.size(); ++k) {
    Report& p = R[k];
    if (p.spans >= ctx.room(k ? R[k - 1].begin : 0, p.begin, true)) {
      int64_t since = 0;
      for (auto& a : ctx.recs)
        if (a.report == (int)k) since = std::max(since, a.t_end < 0 ? p.t_begin : a.t_end);
      for (size_t q = 0; q < k; ++q) since = std::max(since, R[q].t_end);
      if (p.t_begin - since > ctx.slack) sim::fail(P, "early", "a full buffer is reported only after %lld ms", (long long)((p.t_begin - since) / MS));
    } else {
      // not before its time
      int64_t prev = k ? R[k - 1].t_end : born;
      (void)prev;
    }
  }
  for (auto& a : ctx.recs)
    for (auto& b : ctx.recs)
      if (a.report >= 0 && b.report >= 0 && a.end < b.begin && (a.report > b.report || (a.report == b.report && a.pos > b.pos)))
        sim::fail(P, "order", "span %zu is reported before span %zu, which was recorded earlier", (size_t)(&b - &ctx.recs[0]), (size_t)(&a - &ctx.recs[0]));
  // conservation
  if (ctx.failed != in_failed) FAIL_C15("observer", "%lld spans of failed reports, but %lld were reported as dropped", (long long)in_failed, (long long)ctx.failed);
  if (ctx.sent != in_ok + in_failed + in_threw) FAIL_C15("observer", "the observer was told of %lld spans sent, but %lld were handed to the transport", (long long)ctx.sent, (long long)(in_ok + in_failed + in_threw));
  int64_t gone = refused + in_failed;
  if (drops_ok > gone) FAIL_C15("drop-count", "reports count %lld dropped spans, but only %lld were", (long long)drops_ok, (long long)gone);
  if (settle && !ctx.stopped && drops_ok != gone) FAIL_C15("drop-count", "reports count %lld dropped spans, but %lld were", (long long)drops_ok, (long long)gone);
  if (ctx.flushes < (int64_t)R.size()) FAIL_C15("observer", "%zu reports but only %lld flushes were observed", R.size(), (long long)ctx.flushes);
  int64_t due = (int64_t)R.size() + 2 + (t0 - born) / ctx.period;  // one per report, and one when a period passes without any
  if (ctx.flushes > due) FAIL_C15("observer", "%lld flushes were observed, at most %lld can have happened", (long long)ctx.flushes, (long long)due);
  (void)lost;
}
