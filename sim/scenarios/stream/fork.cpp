// The host forks at arbitrary moments; the run goes on as the parent or as the
// child.  No other thread of the host is inside a tracer call at the fork.
#include "kit/stream.h"
using namespace st;

namespace {
bool g_child;  // what the next fork continues as

void at_fork_point() {
  if (sim::live_threads() != 1)
    sim::fail("C09", "thread-at-fork", "%zu threads of the tracer run while the process forks; they are missing in the child", sim::live_threads() - 1);
  if (sim::open_tcp()) sim::fail("C09", "shared-connection", "%zu connections are open at the fork, so that parent and child share them", sim::open_tcp());
  if (sim::open_fds()) sim::fail("C09", "shared-descriptor", "%zu descriptors of the tracer are open at the fork and shared by parent and child", sim::open_fds());
  W->reporter_epoch = -1;
  W->forked = true;
  if (g_child) W->sent = W->dropped = W->refused = 0;
}
// The system lacks threads or descriptors while the tracer restarts.
bool scarcity() {
  auto& c = sim::config();
  return c.thread_create_fail > 0 || c.epoll_create_fail > 0 || c.fopen_fail > 0;
}
void plenty() {
  auto& c = sim::config();
  c.thread_create_fail = c.epoll_create_fail = c.fopen_fail = 0;
}
void do_fork(bool scarce = false) {
  int64_t t0 = sim::now();
  if (scarce) {
    auto& c = sim::config();
    double p = sim::pick<double>(sim::FAULT, {0.5, 1});
    (sim::choose(sim::FAULT, 3) == 0 ? c.thread_create_fail : sim::choose(sim::FAULT, 2) ? c.fopen_fail : c.epoll_create_fail) = p;
  }
  bool child = sim::chance(sim::WORK, 0.5);
  g_child = child;
  sim::fault(child ? "fork_child" : "fork_parent");
  sim::fork_as(child);
  sim::Harness h;
  int64_t dt = sim::now() - t0, due = (int64_t)(1 + W->bystanders) * (2 * W->polling + 20 * MS + 4 * W->stall_slack);
  if (dt > due) sim::fail("C09", "fork-blocks", "forking took %lld ms", (long long)(dt / MS));
  size_t want = W->bystanders + (E.requested < 0);
  scarce = scarcity();
  if (sim::live_threads() > 1 + want || (sim::live_threads() < 1 + want && !scarce))
    sim::fail("C09", "not-restarted", "%zu threads run after the fork instead of %zu", sim::live_threads() - 1, want);
  if (scarce && sim::live_threads() < 1 + want) sim::probe("restart_failed");
  plenty();
  if (child && W->rec->span_buffer().size()) sim::fail("C09", "inherited", "the child starts with %zu spans of its parent", W->rec->span_buffer().size());
}
void work() {
  std::vector<std::thread> th;
  int nt = (int)sim::range(sim::WORK, 0, 2);
  for (int i = 0; i < nt; ++i)
    th.emplace_back([] {
      int n = (int)sim::pick<int>(sim::WORK, {5, 1, 15, 30});
      int64_t pause = sim::pick<int64_t>(sim::WORK, {0, 10 * MS, 100 * MS});
      for (int k = 0; k < n; ++k) {
        one_span(W->clean ? modest_size() : some_size(true));
        if (pause) std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 0, pause)));
      }
    });
  if (sim::chance(sim::WORK, 0.3)) do_flush(sim::pick<int64_t>(sim::WORK, {100, 0, 1000}) * MS);
  for (auto& t : th) t.join();
}
void idle() {
  int64_t w = sim::pick<int64_t>(sim::WORK, {0, 1, 30, 300, 3000}) * MS;
  if (w) std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 0, w)));
}
std::unique_ptr<Recorder> bystander() {
  LightStepTracerOptions to;
  to.access_token = "other";
  to.use_stream_recorder = true;
  to.satellite_endpoints = {{"10.200.0.1", 9}};
  to.max_buffered_spans = 10;
  StreamRecorderOptions ro = W->ro;
  ro.num_satellite_connections = 1;
  return std::unique_ptr<Recorder>{new StreamRecorder{*W->logger, std::move(to), std::move(ro)}};
}
}  // namespace

SIM_SCENARIO(fork) {
  E = Ending{};
  SetupOpts o;
  setup(o);
  std::vector<std::unique_ptr<Recorder>> others;
  {
    sim::Harness h;
    sim::on_fork_point(at_fork_point);
  }
  make_tracer_between(others, W->bystanders, bystander);
  if (!others.empty() && sim::chance(sim::WORK, 0.5)) {
    others.erase(others.begin() + (long)sim::choose(sim::WORK, others.size()));
    --W->bystanders;
  }
  int forks = (int)sim::range(sim::WORK, 1, 3);
  for (int f = 0; f < forks; ++f) {
    if (sim::chance(sim::WORK, 0.8)) work();
    idle();
    bool scarce = W->faulty && sim::chance(sim::FAULT, 0.15);
    do_fork(scarce);
    if (scarce) {  // whatever became of it, the host goes on, and the next fork makes up for it
      work();
      if (E.requested >= 0 || sim::chance(sim::WORK, 0.2)) do_shutdown(sim::pick<int64_t>(sim::WORK, {20000, 0}) * MS);
      do_fork();
    }
    if (sim::chance(sim::WORK, 0.3)) idle();
    if (sim::chance(sim::WORK, 0.1)) do_shutdown(sim::pick<int64_t>(sim::WORK, {20000, 500, 0, 1}) * MS);
  }
  if (E.requested >= 0) {  // what was shut down stays so
    if (sim::chance(sim::WORK, 0.7)) work();
    heal();
    idle();
    do_shutdown(shutdown_bound());
    if (sim::chance(sim::WORK, 0.5)) work();
    others.clear();
    destroy();
    return;
  }
  work();
  heal();
  recovery();
  healthy_phase((int)sim::range(sim::WORK, 1, 12));
  check_lifetimes();
  std::string why;
  bool ok = sim::wait_until([&] { return balanced(); }, 3 * SEC, 5 * MS);
  if (!ok && !balanced(&why))
    for (const char* p : {"C03", "C09"}) sim::fail(p, "conservation", "%s", why.c_str());
  others.clear();
  destroy();
}
