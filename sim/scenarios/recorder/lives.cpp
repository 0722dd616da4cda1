// Long lives of recorders and tracers: threads come and go, reports fail, the
// host forks, tracers follow each other, and what they hold must not grow.
#include <algorithm>
#include <mutex>
#include <sstream>
#include <thread>
#include <unordered_map>
#include "common/logger.h"
#include "kit/kit.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/metrics_observer.h"
#include "lightstep/transporter.h"
#include "recorder/auto_recorder.h"
#include "recorder/legacy_manual_recorder.h"
#include "recorder/manual_recorder.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/propagation/propagation_options.h"
#include "tracer/tracer_impl.h"
using namespace lightstep;
using sim::MS;
using sim::SEC;

namespace {
enum Kind { MANUAL, AUTO, LEGACY };
struct Ctx {
  double p_fail = 0, p_sync = 1;
  std::shared_ptr<Logger> logger;
  std::shared_ptr<LightStepTracer> tracer;
  Kind kind = MANUAL;
  int max = 4;
  int budget = 90;  // threads that a run can still have
  double p_fresh = 1;
  // reports that are out
  std::mutex mutex;
  std::vector<std::pair<std::unique_ptr<BufferChain>, AsyncTransporter::Callback*>> out;
  LegacyAsyncTransporter::Callback* waiting = nullptr;
  double p_throw = 0, p_disable = 0;
  std::vector<PropagationMode> modes;
  bool forks = false, rough = false, nest = false, inject = false;
};
Ctx* X;
bool fails() {
  sim::Harness h;
  bool f = sim::chance(sim::FAULT, X->p_fail);
  if (f) sim::fault("report_fails");
  return f;
}
bool at_once() {
  sim::Harness h;
  return sim::chance(sim::WORK, X->p_sync);
}
struct Observer : MetricsObserver {};
// The transport throws, or the collector disables the tracer.
void troubles(google::protobuf::Message& response) {
  bool throws;
  {
    sim::Harness h;
    throws = sim::chance(sim::FAULT, X->p_throw);
    if (throws) sim::fault("send_throws");
  }
  if (throws) throw std::runtime_error{"transport"};
  if (sim::chance(sim::FAULT, X->p_disable)) {
    sim::fault("disabled");
    dynamic_cast<collector::ReportResponse&>(response).add_commands()->set_disable(true);
  }
}

struct Async : AsyncTransporter {
  void OnSpanBufferFull() noexcept override {
    if (at_once()) X->tracer->Flush();
  }
  void Send(std::unique_ptr<BufferChain>&& message, Callback& callback) noexcept override {
    if (at_once()) {
      if (fails())
        callback.OnFailure(*message);
      else
        callback.OnSuccess(*message);
      message.reset();
      return;
    }
    std::lock_guard<std::mutex> lock{X->mutex};
    sim::Harness h;
    X->out.emplace_back(std::move(message), &callback);
  }
};
struct Sync : SyncTransporter {
  opentracing::expected<void> Send(const google::protobuf::Message&, google::protobuf::Message& response) override {
    if (!at_once()) std::this_thread::sleep_for(std::chrono::milliseconds(3));
    if (fails()) return opentracing::make_unexpected(std::make_error_code(std::errc::network_unreachable));
    troubles(response);
    return {};
  }
};
struct Legacy : LegacyAsyncTransporter {
  void Send(const google::protobuf::Message&, google::protobuf::Message& response, Callback& callback) override {
    response.Clear();
    troubles(response);
    if (!at_once())
      X->waiting = &callback;
    else if (fails())
      callback.OnFailure(std::make_error_code(std::errc::network_unreachable));
    else
      callback.OnSuccess();
  }
};
void complete() {
  if (auto w = X->waiting) {
    X->waiting = nullptr;
    if (fails())
      w->OnFailure(std::make_error_code(std::errc::network_unreachable));
    else
      w->OnSuccess();
  }
  for (;;) {
    std::pair<std::unique_ptr<BufferChain>, AsyncTransporter::Callback*> p;
    {
      std::lock_guard<std::mutex> lock{X->mutex};
      sim::Harness h;
      if (X->out.empty()) return;
      p = std::move(X->out.back());
      X->out.pop_back();
    }
    if (fails())
      p.second->OnFailure(*p.first);
    else
      p.second->OnSuccess(*p.first);
    p.first.reset();
  }
}

struct Map : opentracing::TextMapWriter, opentracing::TextMapReader {
  mutable std::unordered_map<std::string, std::string> m;
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override {
    m[k] = v;
    return {};
  }
  opentracing::expected<void> ForeachKey(std::function<opentracing::expected<void>(opentracing::string_view, opentracing::string_view)> f) const override {
    for (auto& kv : m) {
      auto r = f(kv.first, kv.second);
      if (!r) return r;
    }
    return {};
  }
};

void make(Kind kind) {
  LightStepTracerOptions o;
  o.access_token = "tok";
  o.max_buffered_spans = (size_t)X->max;
  o.reporting_period = std::chrono::milliseconds(50);
  if (sim::chance(sim::WORK, 0.5)) o.metrics_observer.reset(new Observer);
  X->kind = kind;
  o.propagation_modes = X->modes;
  auto propagation = MakePropagationOptions(o);
  std::unique_ptr<Recorder> r;
  if (kind == MANUAL)
    r.reset(new ManualRecorder{*X->logger, std::move(o), std::unique_ptr<AsyncTransporter>{new Async}});
  else if (kind == AUTO)
    r.reset(new AutoRecorder{*X->logger, std::move(o), std::unique_ptr<SyncTransporter>{new Sync}});
  else
    r.reset(new LegacyManualRecorder{*X->logger, std::move(o), std::unique_ptr<LegacyAsyncTransporter>{new Legacy}});
  if (kind == MANUAL)
    X->tracer.reset(new TracerImpl{X->logger, std::move(propagation), std::move(r)});
  else
    X->tracer.reset(new LegacyTracerImpl{X->logger, std::move(propagation), std::move(r)});
}

std::unique_ptr<opentracing::Span> from(opentracing::SpanReferenceType t, const opentracing::SpanContext* c) {
  opentracing::StartSpanOptions o;
  o.references.emplace_back(t, c);
  return X->tracer->StartSpanWithOptions("child", o);
}
void spans(int n) {
  for (int i = 0; i < n; ++i) {
    auto s = X->tracer->StartSpan("operation");
    s->SetTag("key", "value");
    if (i % 2) s->Log({{"event", 1}});
    if (X->nest) {
      s->SetBaggageItem("k", "v");
      from(opentracing::SpanReferenceType::ChildOfRef, &s->context())->Finish();
    }
    if (X->inject) {
      Map m;
      X->tracer->Inject(s->context(), m);
      auto e = X->tracer->Extract(m);
      if (e && *e) from(opentracing::SpanReferenceType::FollowsFromRef, e->get());
    }
    if (X->rough) switch (sim::choose(sim::WORK, 6)) {
        case 0:  // not to be recorded
          s->SetTag("sampling.priority", 0);
          break;
        case 1: {  // a carrier that can't be read
          Map m;
          X->tracer->Inject(s->context(), m);
          for (auto& kv : m.m) kv.second = kv.second.substr(0, kv.second.size() / 2) + "~";
          X->tracer->Extract(m);
          break;
        }
        case 2:
          s->SetBaggageItem("one", "more");
          break;
        case 3: {
          std::ostringstream out;
          X->tracer->Inject(s->context(), out);
          std::istringstream in{out.str().substr(0, out.str().size() - sim::choose(sim::WORK, 2))};
          X->tracer->Extract(in);
          break;
        }
        case 4:
          s->SetOperationName("another name");
          s->Finish();
          s->SetTag("too", "late");
          break;
        default:;
      }
    s->Finish();
  }
}
// One stretch of a tracer's life.
void live() {
  int threads = (int)sim::range(sim::WORK, 1, 2), n = (int)sim::range(sim::WORK, 0, 3);
  if (X->kind == LEGACY) threads = 1;  // made for one thread
  bool fresh = X->budget >= threads && sim::chance(sim::WORK, X->p_fresh);
  if (!fresh) spans(n);
  X->budget -= fresh ? threads : 0;
  std::vector<std::thread> th;
  for (int i = 0; i < threads && fresh; ++i)
    th.emplace_back([&] {
      spans(n);
      if (X->kind != LEGACY && at_once()) X->tracer->Flush();
    });
  for (auto& t : th) t.join();
  complete();
  if (X->forks && sim::chance(sim::WORK, 0.2)) {
    // (a child doesn't have the threads of its parent, nor frees what they held)
    bool child = X->kind != AUTO && sim::chance(sim::WORK, 0.3);
    sim::fork_as(child);
    sim::fault(child ? "fork_child" : "fork_parent");
  }
}
void settle() {
  for (int i = 0; i < 2; ++i) {
    X->tracer->FlushWithTimeout(std::chrono::seconds(10));
    complete();
  }
}
}  // namespace

SIM_SCENARIO(lives) {
  Ctx ctx;
  X = &ctx;
  auto& c = sim::config();
  c.preempt = sim::pick<double>(sim::SCHED, {0.01, 0.05});
  c.step_cap = 20000000;
  c.time_cap = 4000 * SEC;
  ctx.p_fail = sim::pick<double>(sim::FAULT, {0, 0.3, 1});
  ctx.p_sync = sim::pick<double>(sim::WORK, {1, 0.5, 0});
  if (sim::chance(sim::FAULT, 0.15)) ctx.p_throw = 0.1;
  if (sim::chance(sim::FAULT, 0.1)) ctx.p_disable = 0.1;
  ctx.rough = sim::chance(sim::WORK, 0.5);
  for (auto m : {PropagationMode::lightstep, PropagationMode::b3, PropagationMode::envoy, PropagationMode::trace_context})
    if (sim::chance(sim::WORK, 0.4)) ctx.modes.push_back(m);
  if (ctx.modes.empty()) ctx.modes = {PropagationMode::lightstep};
  ctx.max = (int)sim::pick<int>(sim::WORK, {4, 1, 12});
  ctx.forks = sim::chance(sim::WORK, 0.5);
  ctx.nest = sim::chance(sim::WORK, 0.5);
  ctx.inject = sim::chance(sim::WORK, 0.5);
  ctx.logger = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  ctx.logger->set_level(sim::chance(sim::WORK, 0.7) ? LogLevel::off : LogLevel::debug);
  // one tracer all the time, or one after the other
  bool churn = sim::chance(sim::WORK, 0.3), closes = sim::chance(sim::WORK, 0.5);
  Kind kind = (Kind)sim::choose(sim::WORK, 3);
  ctx.p_fresh = sim::pick<double>(sim::WORK, {1, 0.5, 0});
  int rounds = churn ? 24 : (int)sim::pick<int>(sim::WORK, {240, 120, 480});
  if (!churn && kind != MANUAL) ctx.max = std::min(ctx.max, 4);
  kit::Held held{rounds};
  if (!churn) make(kind);
  for (int k = 0; k < rounds; ++k) {
    if (churn) make((Kind)sim::choose(sim::WORK, 3));
    live();
    if (churn || sim::chance(sim::WORK, 0.5)) settle();
    if (churn) {
      if (closes) ctx.tracer->Close();
      complete();
      ctx.tracer.reset();
    }
    sim::Harness h;
    held.measure(k);
  }
  // (protobuf messages that are used again keep what they once grew to)
  held.judge({"C26"}, churn ? 0 : kind == MANUAL ? 600 : 4000, 0, churn ? "the process, having destroyed each tracer," : "the tracer");
  ctx.tracer.reset();
  ctx.logger.reset();
  sim::Harness h;
  sim::check_leaks("C26", "after the tracer was destroyed");
}
