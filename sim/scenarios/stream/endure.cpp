// A long life under steady trouble: connections and names are replaced hundreds
// of times, and what the tracer holds must not grow with them.
#include "kit/stream.h"
using namespace st;

SIM_SCENARIO(endure) {
  SetupOpts o;
  o.p_literal = 0.3;
  o.p_clean = 0.15;
  setup(o);
  int rounds;
  {
    sim::Harness h;
    sim::config().step_cap = 20000000;
    W->polling = sim::pick<int64_t>(sim::WORK, {100, 300}) * MS;
    W->reporting = 500 * MS;
    W->ro.polling_period = mus(W->polling);
    W->cap = std::max<size_t>(W->cap, 4);
    W->num_conn = W->ro.num_satellite_connections = sim::pick<int>(sim::WORK, {1, 2, 3});
    int64_t rc = sim::pick<int64_t>(sim::WORK, {300, 1000}) * MS;
    W->ro.min_satellite_reconnect_period = mus(rc);
    W->ro.max_satellite_reconnect_period = mus(rc + 200 * MS);
    W->ro.satellite_graceful_stream_shutdown_timeout = mus(300 * MS);
    W->ro.satellite_write_timeout = mus(300 * MS);
    W->ro.satellite_failure_retry_period = mus(200 * MS);
    W->ro.dns_failure_retry_period = mus(300 * MS);
    W->ro.min_dns_resolution_refresh_period = mus(500 * MS);
    W->ro.max_dns_resolution_refresh_period = mus(700 * MS);
    W->p_bad = std::min(W->p_bad, 0.5);
    W->p_conn_bad = std::min(W->p_conn_bad, 0.3);
    W->p_dns_bad = std::min(W->p_dns_bad, 0.3);
    // the buffers for these keep the size they once grew to
    W->truncates = false;
    W->terse = true;
    rounds = (int)sim::pick<int>(sim::WORK, {120, 60, 240});
  }
  make_tracer();
  kit::Held held{rounds};
  for (int k = 0; k < rounds; ++k) {
    int n = (int)sim::range(sim::WORK, 0, 3);
    for (int i = 0; i < n; ++i) one_span(modest_size());
    if (sim::chance(sim::WORK, 0.1)) do_flush(sim::pick<int64_t>(sim::WORK, {500, 0}) * MS);
    if (sim::chance(sim::WORK, 0.1)) {
      sim::Harness h;
      for (auto& x : W->hosts)
        if (!x.literal && sim::chance(sim::WORK, 0.5)) {
          x.rotate();
          sim::fault("dns_change");
        }
    }
    for (int i = 0; i < 4; ++i) {
      std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 50, 600) * MS));
      sim::Harness h;
      if (W->rec->span_buffer().size()) continue;
      held.measure(k);
    }
  }
  {
    sim::Harness h;
    held.judge({"C18", "C26"}, 2000, 6, "the tracer");
  }
  check_lifetimes();
  heal();
  recovery();
  healthy_phase((int)sim::range(sim::WORK, 1, 6));
  check_lifetimes();
  destroy();
}

// Nothing answers for a long while; then everything does, and the tracer mustn't
// have given up or have slowed down meanwhile.
SIM_SCENARIO(outage) {
  SetupOpts o;
  o.p_literal = 0.7;
  setup(o);
  int64_t length;
  bool before;
  {
    sim::Harness h;
    sim::config().step_cap = 20000000;
    W->polling = 100 * MS;
    W->reporting = 500 * MS;
    W->ro.polling_period = mus(W->polling);
    W->cap = std::max<size_t>(W->cap, 4);
    int64_t rc = sim::pick<int64_t>(sim::WORK, {1000, 3000}) * MS;
    W->ro.min_satellite_reconnect_period = mus(rc);
    W->ro.max_satellite_reconnect_period = mus(rc + 200 * MS);
    W->ro.satellite_graceful_stream_shutdown_timeout = mus(300 * MS);
    W->ro.satellite_write_timeout = mus(300 * MS);
    W->ro.satellite_failure_retry_period = mus(200 * MS);
    W->ro.dns_failure_retry_period = mus(300 * MS);
    W->ro.min_dns_resolution_refresh_period = mus(1000 * MS);
    W->ro.max_dns_resolution_refresh_period = mus(1500 * MS);
    W->clean = false;
    W->faulty = true;
    W->truncates = false;
    W->terse = true;
    length = sim::pick<int64_t>(sim::FAULT, {30, 10, 100, 300}) * SEC;
    before = sim::chance(sim::FAULT, 0.4);  // from the start
  }
  double usual = W->p_conn_bad, usual_dns = W->p_dns_bad;
  auto out = [&](bool yes) {
    sim::Harness h;
    W->p_conn_bad = yes ? 1 : usual;
    W->p_dns_bad = yes ? sim::pick<double>(sim::FAULT, {1, 0.5}) : usual_dns;
    if (!yes) return;
    sim::fault("outage");
    for (auto& s : W->sats)
      if (s->c->established() && !s->killed) {
        s->killed = true;
        s->c->reset();
      }
  };
  if (before) out(true);
  make_tracer();
  int outages = (int)sim::pick<int>(sim::FAULT, {1, 1, 2});
  for (int k = 0; k < outages; ++k) {
    if (k || !before) {
      for (int i = (int)sim::range(sim::WORK, 0, 3); i > 0; --i) one_span(modest_size());
      std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 0, 3000) * MS));
      out(true);
    }
    // what is dropped meanwhile is counted
    int n = (int)sim::pick<int64_t>(sim::WORK, {0, 5, 40, 300});
    for (int i = 0; i < 4; ++i) {
      for (int j = 0; j < (n + 3) / 4; ++j) one_span(modest_size());
      std::this_thread::sleep_for(std::chrono::nanoseconds(length / 4));
    }
    if (k + 1 < outages) out(false);
  }
  heal();
  recovery();
  healthy_phase((int)sim::range(sim::WORK, 1, 12));
  check_lifetimes();
  std::string why;
  bool ok = sim::wait_until([&] { return balanced(); }, 3 * SEC, 5 * MS);
  if (!ok && !balanced(&why)) {
    sim::fail("C03", "conservation", "%s", why.c_str());
    if (why.find("drop counts") == 0 || why.find("reported as") != std::string::npos) sim::fail("C15", "conservation", "%s", why.c_str());
  }
  destroy();
}

namespace {
int g_reporters;
// Reports under way are another reporter's than those to come.
void other_reporter() {
  sim::Harness h;
  ++g_reporters;
  W->reporter_epoch = -1;
  for (auto& s : W->sats)
    if (s->epoch >= 0) s->epoch = -1 - g_reporters;
}
}  // namespace
// One tracer after the other.
SIM_SCENARIO(lineage) {
  SetupOpts o;
  o.p_literal = 0.5;
  o.p_clean = 0.3;
  setup(o);
  int rounds;
  {
    sim::Harness h;
    sim::config().step_cap = 20000000;
    rounds = (int)sim::pick<int>(sim::WORK, {12, 24});
    W->terse = true;
  }
  kit::Held held{rounds};
  g_reporters = 0;
  sim::on_fork_point(other_reporter);
  for (int k = 0; k < rounds; ++k) {
    E = Ending{};
    {
      sim::Harness h;
      W->faulty = !W->clean;
      W->closed_for_good = false;
    }
    make_tracer();
    int n = (int)sim::range(sim::WORK, 0, 2);
    std::thread t{[&] {
      for (int i = 0; i < n; ++i) one_span(modest_size());
    }};
    std::this_thread::sleep_for(std::chrono::nanoseconds(sim::pick<int64_t>(sim::WORK, {300, 0, 1000, 3000}) * MS));
    t.join();
    if (sim::chance(sim::WORK, 0.3)) do_flush(sim::pick<int64_t>(sim::WORK, {500, 0}) * MS);
    if (sim::chance(sim::WORK, 0.2)) {
      sim::fork_as(false);
      sim::fault("fork_parent");
      std::this_thread::sleep_for(std::chrono::nanoseconds(sim::pick<int64_t>(sim::WORK, {0, 500}) * MS));
    }
    destroy();
    sim::Harness h;
    // what it did is judged and over
    W->sent = W->dropped = W->refused = 0;
    for (auto& s : W->spans) s->epoch = -1;
    other_reporter();
    held.measure(k);
  }
  sim::Harness h;
  held.judge({"C26", "C07"}, 0, 0, "the process, having destroyed each tracer,");
}
