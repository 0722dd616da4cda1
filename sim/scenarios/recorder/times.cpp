// Start times, durations and log times of both tracers' spans while the system
// clock jumps: given, half given or taken from the clocks.
#include <algorithm>
#include <map>
#include <thread>
#include "common/logger.h"
#include "kit/kit.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "recorder/recorder.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/tracer_impl.h"
using namespace lightstep;
using sim::MS;
using sim::SEC;
using sim::US;

namespace {
const char* P = "C16";
struct Range {
  int64_t lo = 0, hi = 0;
};
struct Sp {
  bool given_system = false, given_steady = false, given_finish = false;
  int64_t system = 0, steady = 0, finish = 0;  // what was given, ns
  Range start, end;                            // when the calls ran
  std::vector<Range> logs;                     // when each Log call ran
  std::vector<int64_t> given_logs;
  bool recorded = false;
  collector::Span pb;
};
struct Ctx {
  std::map<std::string, std::unique_ptr<Sp>> spans;
  std::vector<std::pair<int64_t, int64_t>> offsets;  // (since, system - steady)
  std::shared_ptr<LightStepTracer> tracer;
};
Ctx* X;
// all times here are readings of the simulated clocks as the tracer sees them
constexpr int64_t kBase = 5000 * SEC;
int64_t steady() { return sim::now() + kBase; }
void note() { X->offsets.emplace_back(steady(), sim::system_now() - steady()); }
std::chrono::nanoseconds ns(int64_t n) { return std::chrono::nanoseconds{n}; }

struct Keeper : Recorder {
  void RecordSpan(Fragment, std::unique_ptr<ChainedStream>&& span) noexcept override {
    span->CloseOutput();
    sim::Harness h;
    collector::Span pb;
    if (!pb.ParseFromString(kit::text(*span))) return sim::fail(P, "garbled", "a recorded span doesn't parse");
    keep(pb);
  }
  void RecordSpan(const collector::Span& span) noexcept override {
    sim::Harness h;
    keep(span);
  }
  void keep(const collector::Span& pb) {
    auto it = X->spans.find(pb.operation_name());
    if (it == X->spans.end()) return sim::fail("C11", "stray", "an unknown span is recorded");
    it->second->recorded = true;
    it->second->pb = pb;
  }
};

// Offsets of the system clock in force at some moment between a and b.
std::vector<int64_t> offsets(int64_t a, int64_t b) {
  std::vector<int64_t> r;
  for (size_t i = 0; i < X->offsets.size(); ++i) {
    int64_t until = i + 1 < X->offsets.size() ? X->offsets[i + 1].first : INT64_MAX;
    if (until < a || X->offsets[i].first > b) continue;
    r.push_back(X->offsets[i].second);
  }
  return r;
}
int64_t nanos(const google::protobuf::Timestamp& t) { return t.seconds() * SEC + t.nanos(); }

void one(int id) {
  Sp* s;
  std::string name;
  opentracing::StartSpanOptions so;
  opentracing::FinishSpanOptions fo;
  {
    sim::Harness h;
    name = "s" + std::to_string(id);
    auto u = std::make_unique<Sp>();
    s = u.get();
    X->spans[name] = std::move(u);
    s->given_system = sim::chance(sim::WORK, 0.4);
    s->given_steady = sim::chance(sim::WORK, 0.4);
    s->given_finish = sim::chance(sim::WORK, 0.4);
    // a start in the past, as a caller that started before the tracer gives it
    int64_t ago = sim::pick<int64_t>(sim::WORK, {0, US, MS, SEC, 3600 * SEC}) * sim::range(sim::WORK, 0, 999) / 100;
    if (s->given_system) s->system = sim::system_now() - ago;
    if (s->given_steady) s->steady = std::max<int64_t>(1, steady() - ago);
    if (s->given_system) so.start_system_timestamp = std::chrono::system_clock::time_point{std::chrono::duration_cast<std::chrono::system_clock::duration>(ns(s->system))};
    if (s->given_steady) so.start_steady_timestamp = std::chrono::steady_clock::time_point{ns(s->steady)};
  }
  if (sim::chance(sim::WORK, 0.3)) sim::sleep_for(sim::range(sim::NET, 0, 500) * MS);
  s->start.lo = steady();
  auto span = X->tracer->StartSpanWithOptions(name, so);
  s->start.hi = steady();
  int n = (int)sim::choose(sim::WORK, 4);
  for (int i = 0; i < n; ++i) {
    if (sim::chance(sim::WORK, 0.6)) sim::sleep_for(sim::pick<int64_t>(sim::NET, {100 * US, 1, MS, SEC, 60 * SEC}) * sim::range(sim::NET, 0, 100));
    if (sim::chance(sim::WORK, 0.5)) {
      Range r;
      r.lo = steady();
      span->Log({{"l", i}});
      r.hi = steady();
      sim::Harness h;
      s->logs.push_back(r);
    }
  }
  {
    sim::Harness h;
    if (s->given_finish) {
      s->finish = steady() + sim::pick<int64_t>(sim::WORK, {0, -1, 1}) * sim::range(sim::WORK, 0, 5000) * US;
      if (s->given_steady && s->finish < s->steady) s->finish = s->steady;
      fo.finish_steady_timestamp = std::chrono::steady_clock::time_point{ns(s->finish)};
    }
    if (sim::chance(sim::WORK, 0.3)) {
      opentracing::LogRecord r;
      int64_t t = sim::system_now() - sim::range(sim::WORK, 0, 1000000) * US;
      r.timestamp = std::chrono::system_clock::time_point{std::chrono::duration_cast<std::chrono::system_clock::duration>(ns(t))};
      r.fields.emplace_back("f", 1);
      s->given_logs.push_back(t);
      fo.log_records.push_back(r);
    }
  }
  s->end.lo = steady();
  if (!s->given_finish && fo.log_records.empty() && sim::chance(sim::WORK, 0.5))
    span.reset();
  else
    span->FinishWithOptions(fo);
  s->end.hi = steady();
}
void check(const std::string& name, const Sp& s) {
  if (!s.recorded) return sim::fail("C11", "lost", "span %s isn't recorded", name.c_str());
  auto off = offsets(s.start.lo, s.start.hi);
  int64_t call = s.start.hi - s.start.lo, start = nanos(s.pb.start_timestamp());
  // the start time
  bool ok = false;
  if (s.given_system)
    ok = start == s.system;
  else if (s.given_steady)
    for (int64_t o : off) ok = ok || std::llabs(start - (s.steady + o)) <= call;
  else
    for (int64_t o : off) ok = ok || (start >= s.start.lo + o && start <= s.start.hi + o);
  if (!ok)
    sim::fail(P, s.given_system ? "explicit" : "start", "span %s starts at %lld ns: given %d/%d, called from %lld to %lld ns, clock offset %lld ns", name.c_str(), (long long)start,
              s.given_system, s.given_steady, (long long)s.start.lo, (long long)s.start.hi, (long long)off.back());
  // the duration: steady time between the start and the finish, never negative
  Range f = s.end;
  if (s.given_finish) f.lo = f.hi = s.finish;
  std::vector<Range> b;
  if (s.given_steady)
    b.push_back({s.steady, s.steady});
  else if (s.given_system)
    for (int64_t o : off) b.push_back({s.system - o - call, s.system - o + call});
  else
    b.push_back(s.start);
  ok = false;
  for (auto& r : b) {
    uint64_t lo = (uint64_t)std::max<int64_t>(0, f.lo - r.hi) / US, hi = (uint64_t)std::max<int64_t>(0, f.hi - r.lo) / US;
    ok = ok || (s.pb.duration_micros() >= lo && s.pb.duration_micros() <= hi);
  }
  if (!ok)
    sim::fail(P, "duration", "span %s lasts %llu us: start given %d/%d, started between %lld and %lld ns of steady time, finished between %lld and %lld ns", name.c_str(),
              (unsigned long long)s.pb.duration_micros(), s.given_system, s.given_steady, (long long)b[0].lo, (long long)b[0].hi, (long long)f.lo, (long long)f.hi);
  // logs
  if ((size_t)s.pb.logs_size() != s.logs.size() + s.given_logs.size())
    return sim::fail("C11", "missing", "span %s has %d logs", name.c_str(), s.pb.logs_size());
  for (int i = 0; i < s.pb.logs_size(); ++i) {
    int64_t t = nanos(s.pb.logs(i).timestamp());
    if (s.pb.logs(i).fields_size() && s.pb.logs(i).fields(0).key() == "f") {
      if (std::find(s.given_logs.begin(), s.given_logs.end(), t) == s.given_logs.end())
        sim::fail(P, "log-explicit", "a log of span %s, given time %lld ns, carries %lld", name.c_str(), (long long)s.given_logs[0], (long long)t);
      continue;
    }
    ok = false;
    for (auto& r : s.logs)
      for (int64_t o : offsets(r.lo, r.hi)) ok = ok || (t >= r.lo + o && t <= r.hi + o);
    if (!ok) sim::fail(P, "log-time", "a log of span %s carries the time %lld ns, which the system clock didn't show while it was made", name.c_str(), (long long)t);
  }
}
}  // namespace

SIM_SCENARIO(times) {
  Ctx ctx;
  X = &ctx;
  auto& c = sim::config();
  c.stall = sim::chance(sim::FAULT, 0.3) ? 0.01 : 0;
  c.stall_max = 50 * MS;
  c.time_cap = 40000000 * SEC;
  auto logger = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  LightStepTracerOptions po;
  po.propagation_modes = {PropagationMode::lightstep};
  std::unique_ptr<Recorder> k{new Keeper};
  if (sim::chance(sim::WORK, 0.4))
    ctx.tracer.reset(new LegacyTracerImpl{logger, MakePropagationOptions(po), std::move(k)});
  else
    ctx.tracer.reset(new TracerImpl{logger, MakePropagationOptions(po), std::move(k)});
  note();
  int threads = (int)sim::range(sim::WORK, 1, 2), spans = (int)sim::range(sim::WORK, 1, 6), jumps = (int)sim::range(sim::WORK, 0, 6);
  {
    std::vector<std::thread> th;
    for (int t = 0; t < threads; ++t)
      th.emplace_back([&, t] {
        for (int j = 0; j < spans; ++j) one(t * 100 + j);
      });
    th.emplace_back([&] {
      for (int j = 0; j < jumps; ++j) {
        if (sim::chance(sim::FAULT, 0.5)) sim::sleep_for(sim::pick<int64_t>(sim::NET, {100 * US, MS, SEC, 60 * SEC}) * sim::range(sim::NET, 0, 100));
        sim::yield();
        sim::Harness h;
        sim::fault("clock_jump");
        sim::jump_system_clock(sim::pick<int64_t>(sim::FAULT, {-SEC, SEC, -MS, MS, -3600 * SEC, 3600 * SEC, -86400 * 1000 * SEC}) * sim::range(sim::FAULT, 1, 1000) / 100);
        note();
      }
    });
    for (auto& t : th) t.join();
  }
  sim::Harness h;
  for (auto& s : ctx.spans) check(s.first, *s.second);
}
