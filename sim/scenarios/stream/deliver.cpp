// Threads finish spans while satellites, name servers and the kernel misbehave;
// then the faults stop and everything has to recover.
#include "kit/stream.h"
using namespace st;

static void change_names() {
  sim::Harness h;
  for (auto& x : W->hosts) {
    if (x.literal || !sim::chance(sim::WORK, 0.5)) continue;
    x.rotate();
    sim::fault("dns_change");
  }
}

static void run(SetupOpts o, bool big) {
  setup(o);
  make_tracer();
  if (o.oom) W->logs_errors = false;
  if (o.oom) sim::config().alloc_fail = sim::pick<double>(sim::FAULT, {0.01, 0.001, 0.1, 0.4});
  int nt = (int)sim::range(sim::WORK, 1, 3);
  std::vector<std::thread> th;
  double flushing = sim::pick<double>(sim::WORK, {0, 0, 0.05, 0.3});
  for (int i = 0; i < nt; ++i)
    th.emplace_back([big, flushing] {
      int n = (int)sim::pick<int>(sim::WORK, {5, 1, 20, 60});
      int64_t pause = sim::pick<int64_t>(sim::WORK, {1 * MS, 0, 20 * MS, 300 * MS});
      if (n == 60 && pause > 20 * MS) pause = 20 * MS;
      for (int k = 0; k < n; ++k) {
        size_t size = W->clean ? modest_size() : some_size(big);
        one_span(size, sim::chance(sim::WORK, 0.1), sim::chance(sim::WORK, 0.2));
        if (flushing && sim::chance(sim::WORK, flushing)) do_flush(sim::pick<int64_t>(sim::WORK, {300, 0, 20, 2000}) * MS);
        if (pause) std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 0, pause)));
      }
    });
  int ops = (int)sim::range(sim::WORK, 1, 8);
  for (int k = 0; k < ops; ++k) {
    switch (sim::choose(sim::WORK, o.jumps ? 6 : 4)) {
      case 0: std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 1, 1500) * MS)); break;
      case 1: do_flush(sim::pick<int64_t>(sim::WORK, {500, 0, 1, 30, 3000}) * MS); break;
      case 2:
        if (sim::chance(sim::WORK, 0.2)) do_flush(0, true);
        else std::this_thread::sleep_for(std::chrono::nanoseconds(W->reporting));
        break;
      case 3: change_names(); break;
      default: {
        sim::Harness h;
        int64_t by = sim::pick<int64_t>(sim::FAULT, {1000, 1, 3600000, -1, -1000, -3600000}) * sim::range(sim::FAULT, 1, 1000) * MS;
        sim::jump_system_clock(by);
        note_offset();
        break;
      }
    }
  }
  for (auto& t : th) t.join();
  check_lifetimes();
  heal();
  recovery();
  {
    if (W->clean) {
      // nothing went wrong: every span that found room was delivered
      bool ok = sim::wait_until(
          [] {
            for (auto& r : W->spans)
              if (!r->refused && !r->delivered) return false;
            return true;
          },
          2 * SEC, 5 * MS);
      if (!ok)
        for (auto& r : W->spans)
          if (!r->refused && !r->delivered) sim::fail("C01", "lost", "span %s was lost although nothing failed", r->name.c_str());
    }
  }
  int rounds = (int)sim::range(sim::WORK, 1, 2);
  for (int r = 0; r < rounds; ++r) healthy_phase((int)sim::range(sim::WORK, 1, 12));
  check_lifetimes();
  std::string why;
  bool ok = sim::wait_until([&] { return balanced(); }, 3 * SEC, 5 * MS);
  if (!ok && !balanced(&why)) {
    sim::fail("C03", "conservation", "%s", why.c_str());
    if (why.find("drop counts") == 0 || why.find("reported as") != std::string::npos) sim::fail("C15", "conservation", "%s", why.c_str());
  }
  destroy();
}

SIM_SCENARIO(deliver) { run(SetupOpts{}, true); }
// The recorder's own thread runs out of memory now and then.
SIM_SCENARIO(deliver_oom) {
  SetupOpts o;
  o.oom = true;
  o.p_clean = 0;
  run(o, true);
}
SIM_SCENARIO(deliver_jumps) {
  SetupOpts o;
  o.jumps = true;
  o.dns = false;
  run(o, false);
}
