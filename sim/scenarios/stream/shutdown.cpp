// A streaming tracer is flushed, shut down, closed and destroyed in any order
// while its connections are in any state.
#include "kit/stream.h"
using namespace st;

namespace {
void after_life() {
  // whatever is still under way must not bring anything back
  sim::wait_until([] { return false; }, sim::pick<int64_t>(sim::WORK, {3, 0, 30}) * SEC, 50 * MS);
  sim::Harness h;
  if (sim::open_fds())
    for (const char* p : {"C22", "C07"}) sim::fail(p, "leak", "%zu descriptors are open long after the tracer was destroyed", sim::open_fds());
  if (sim::live_threads() > 1) sim::fail("C07", "thread-left", "%zu threads stay behind after the tracer was destroyed", sim::live_threads() - 1);
  sim::check_leaks("C07", "long after the tracer was destroyed");
}
void produce(std::vector<std::thread>& th) {
  int nt = (int)sim::range(sim::WORK, 0, 2);
  for (int i = 0; i < nt; ++i)
    th.emplace_back([] {
      int n = (int)sim::pick<int>(sim::WORK, {5, 1, 20});
      int64_t pause = sim::pick<int64_t>(sim::WORK, {20 * MS, 0, 200 * MS});
      for (int k = 0; k < n; ++k) {
        one_span(W->clean ? modest_size() : some_size(true), false, sim::chance(sim::WORK, 0.2));
        if (pause) std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 0, pause)));
      }
    });
}
}  // namespace

SIM_SCENARIO(shutdown) {
  E = Ending{};
  SetupOpts o;
  setup(o);
  make_tracer();
  std::vector<std::thread> th;
  produce(th);
  int64_t w = sim::pick<int64_t>(sim::WORK, {300, 0, 3, 40, 3000}) * MS;
  if (w) std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 0, w)));
  bool early = sim::chance(sim::WORK, 0.5);
  if (!early) {
    for (auto& t : th) t.join();
    th.clear();
  }
  if (sim::chance(sim::WORK, 0.3)) {
    heal();
    if (sim::chance(sim::WORK, 0.5)) std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 0, 4000) * MS));
  }
  int how = (int)sim::choose(sim::WORK, 4);  // 0 destroy only
  if (how) {
    int ops = (int)sim::range(sim::WORK, 1, 4);
    std::vector<std::thread> more;
    for (int k = 0; k < ops; ++k) {
      int64_t timeout = sim::pick<int64_t>(sim::WORK, {500, 0, 1, 5000, 20000, FOREVER / MS}) * MS;
      if (timeout > FOREVER / 2) timeout = FOREVER;
      switch (sim::choose(sim::WORK, 5)) {
        case 0: do_flush(std::min<int64_t>(timeout, SEC)); break;
        case 1: std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 1, 2000) * MS)); break;
        case 2:
          if (sim::chance(sim::WORK, 0.5)) {
            more.emplace_back([timeout] { do_shutdown(timeout); });
            break;
          }
          // fall through
        case 3: do_shutdown(timeout); break;
        default: {
          // Close: a flush, then a shutdown with what is left of the time
          int64_t t0 = sim::now();
          W->tracer->Close();
          sim::Harness h;
          int64_t dt = sim::now() - t0;
          // it came to the shutdown unless the flush took all the time
          if (dt < 10 * SEC && E.requested < 0) {
            E.requested = sim::now();
            forbid_connections_from(sim::now() + 2 * W->polling + 20 * MS + 2 * W->stall_slack);
          }
          if (dt > 10 * SEC + 20 * MS + 8 * W->stall_slack) sim::fail("C07", "overdue", "closing the tracer took %lld ms", (long long)(dt / MS));
          break;
        }
      }
    }
    for (auto& t : more) t.join();
    if (sim::chance(sim::WORK, 0.5)) {
      // shutting down ends, whatever the peers do
      if (E.requested < 0) do_shutdown(0);
      int64_t left = E.requested + shutdown_bound() - sim::now();
      if (left > 0) std::this_thread::sleep_for(std::chrono::nanoseconds(left));
      do_shutdown(2 * W->polling + 5 * W->stall_slack);
      sim::Harness h;
      if (sim::open_tcp()) sim::fail("C07", "still-open", "%zu connections are open long after the shutdown", sim::open_tcp());
    }
    if (sim::chance(sim::WORK, 0.5)) {
      for (auto& t : th) t.join();
      th.clear();
      int n = (int)sim::range(sim::WORK, 1, 5);
      for (int k = 0; k < n; ++k) one_span(modest_size());
      std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 0, 8000) * MS));
    }
  }
  for (auto& t : th) t.join();
  destroy();
  after_life();
}
