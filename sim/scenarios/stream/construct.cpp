// Tracers are made while the system runs out of threads, descriptors, entropy
// and memory; then it recovers, and so must the tracers.
#include "kit/stream.h"
using namespace st;

namespace {
std::shared_ptr<Logger> g_logger;

LightStepTracerOptions options() {
  LightStepTracerOptions to;
  to.access_token = W->token;
  to.component_name = W->component;
  to.tags = {{"lightstep.component_name", W->component}};
  to.collector_plaintext = true;
  to.use_stream_recorder = true;
  to.satellite_endpoints = W->endpoints;
  to.max_buffered_spans = W->cap;
  to.reporting_period = std::chrono::nanoseconds(W->reporting);
  to.metrics_observer.reset(new Obs);
  to.logger_sink = [](LogLevel, opentracing::string_view) {};
  return to;
}
void scarcity() {
  sim::Harness h;
  auto& c = sim::config();
  auto p = [](std::initializer_list<double> l) { return sim::pick<double>(sim::FAULT, l); };
  c.thread_create_fail = p({0, 0, 0.5, 1});
  c.epoll_create_fail = p({0, 0, 0.5, 1});
  c.fopen_fail = p({0, 0, 0.5, 1});
  c.entropy_fail = p({0, 0, 0.3, 1});
  c.socket_fail = p({0, 0.5, 1});
  c.sockopt_fail = p({0, 0, 0.3});
  c.connect_fail = p({0, 0, 0.5});
}
void plenty() {
  sim::Harness h;
  auto& c = sim::config();
  c.thread_create_fail = c.epoll_create_fail = c.fopen_fail = c.entropy_fail = c.socket_fail = c.connect_fail = c.sockopt_fail = 0;
  sim::log("plenty");
}
// What the last tracer did is judged and over.
void past() {
  sim::Harness h;
  W->sent = W->dropped = W->refused = 0;
  W->reporter_epoch = -1;
  for (auto& s : W->sats) s->epoch = -1;
  for (auto& s : W->spans) s->epoch = -1;
}
void nothing_left(size_t fds, size_t threads, const char* when) {
  sim::Harness h;
  if (sim::open_fds() != fds)
    for (const char* p : {"C22", "C07", "C18"}) sim::fail(p, "leak", "%zu descriptors are open instead of %zu %s", sim::open_fds(), fds, when);
  if (sim::live_threads() != threads)
    for (const char* p : {"C07", "C18"}) sim::fail(p, "thread-left", "%zu threads run instead of %zu %s", sim::live_threads(), threads, when);
  sim::check_leaks("C07", when);
}
}  // namespace

SIM_SCENARIO(construct) {
  E = Ending{};
  SetupOpts o;
  o.p_clean = 0;
  setup(o);
  {
    sim::Harness h;
    g_logger = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
    g_logger->set_level(LogLevel::off);
  }
  int n = (int)sim::range(sim::WORK, 1, 4);
  for (int i = 0; i < n; ++i) {
    size_t fds = sim::open_fds(), threads = sim::live_threads();
    bool api = sim::chance(sim::WORK, 0.5);
    scarcity();
    bool alloc = sim::chance(sim::FAULT, 0.4);
    auto to = options();
    if (alloc) sim::fail_alloc_after(sim::range(sim::FAULT, 1, 400));
    if (api) {
      // the way users make one: it never throws
      W->tracer = std::static_pointer_cast<TracerImpl>(MakeLightStepTracer(std::move(to)));
      auto& t = W->tracer;
      sim::fail_alloc_after(0);
      sim::probe(t ? "made" : "not_made");
      if (sim::chance(sim::FAULT, 0.5)) plenty();
      if (t) {
        one_span(modest_size());
        if (sim::chance(sim::WORK, 0.3)) t->Flush();
        if (sim::chance(sim::WORK, 0.5)) t->Close();
        t.reset();
      }
    } else {
      std::unique_ptr<Recorder> r;
      try {
        StreamRecorderOptions ro = W->ro;
        r.reset(new StreamRecorder{*g_logger, std::move(to), std::move(ro)});
      } catch (const std::exception& e) {
        sim::Harness h;
        sim::log("not made: %s", e.what());
      }
      sim::fail_alloc_after(0);
      sim::probe(r ? "made" : "not_made");
      if (r && sim::chance(sim::WORK, 0.7)) std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 0, 3000) * MS));
      r.reset();
    }
    past();
    nothing_left(fds, threads, "after a tracer was made in scarcity and destroyed");
  }
  plenty();
  heal();
  make_tracer();
  recovery();
  healthy_phase(3);
  destroy();
}
