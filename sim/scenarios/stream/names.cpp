// Name resolution and the choice of endpoints, through the whole tracer.
#include "kit/stream.h"
using namespace st;

// Hosts change their addresses, the old ones stop answering, name servers
// misbehave; afterwards lookups, connections and spans have to come right.
SIM_SCENARIO(names) {
  SetupOpts o;
  o.p_literal = 0.15;
  setup(o);
  {
    sim::Harness h;
    auto& c = sim::config();
    if (!W->clean) W->p_dns_bad = sim::pick<double>(sim::FAULT, {0.5, 0.2, 0.9, 1});
    W->check_refresh = c.socket_fail == 0;
    int64_t lo = sim::pick<int64_t>(sim::WORK, {3000, 1000}) * MS;
    W->ro.min_dns_resolution_refresh_period = mus(lo);
    W->ro.max_dns_resolution_refresh_period = mus(lo + sim::pick<int64_t>(sim::WORK, {100, 1500}) * MS);
    W->p_bad = sim::pick<double>(sim::FAULT, {0, 0.2}) * !W->clean;
  }
  make_tracer();
  int ops = (int)sim::range(sim::WORK, 1, 6);
  for (int k = 0; k < ops; ++k) {
    std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 1, 6000) * MS));
    int n = (int)sim::range(sim::WORK, 0, 3);
    for (int i = 0; i < n; ++i) one_span(modest_size());
    if (sim::chance(sim::WORK, 0.6)) {
      sim::Harness h;
      for (auto& x : W->hosts) {
        if (x.literal || !sim::chance(sim::WORK, 0.6)) continue;
        bool retire = !W->clean && sim::chance(sim::FAULT, 0.5);
        x.rotate(retire);
        sim::fault(retire ? "address_retired" : "dns_change");
      }
    }
    if (sim::chance(sim::WORK, 0.1)) {  // never mind: everything ends right here
      destroy();
      return;
    }
  }
  heal();
  recovery();
  if (!W->retired.empty()) {
    // what is open now may be about to reconnect to an address given up just before
    std::this_thread::sleep_for(std::chrono::nanoseconds(W->longest_gap()));
    recovery();
  }
  healthy_phase((int)sim::range(sim::WORK, 1, 6));
  std::this_thread::sleep_for(std::chrono::nanoseconds(W->longest_gap()));
  {
    sim::Harness h;
    if (W->check_refresh)
      for (auto& x : W->hosts) {
        if (x.literal) continue;
        for (uint16_t t : {(uint16_t)1, (uint16_t)28}) {
          auto& a = W->asked[{x.name, t}];
          if (a.last < 0) sim::fail("C19", "never-asked", "%s was never looked up for %s", x.name.c_str(), t == 1 ? "IPv4" : "IPv6");
          W->check_gap(a, x.name, t);
        }
      }
  }
  check_lifetimes();
  destroy();
}

// Many short connections on a working network: every endpoint and address gets its share.
SIM_SCENARIO(spread) {
  SetupOpts o;
  o.allow_faults = false;
  o.p_literal = 0.4;
  setup(o);
  std::string dead;
  {
    sim::Harness h;
    W->num_conn = W->ro.num_satellite_connections = sim::pick<int>(sim::WORK, {1, 2, 3, 8});
    int64_t rc = sim::pick<int64_t>(sim::WORK, {200, 100, 500}) * MS;
    W->ro.min_satellite_reconnect_period = mus(rc);
    W->ro.max_satellite_reconnect_period = mus(rc + sim::pick<int64_t>(sim::WORK, {0, 50, 300}) * MS);
    W->check_refresh = true;
    // further ports, and a name that doesn't exist
    std::vector<Host> hs = W->hosts;
    for (auto& x : hs)
      if (sim::chance(sim::WORK, 0.3)) {
        uint16_t port = (uint16_t)(x.port + 100);
        for (auto* v : {&x.v4, &x.v6})
          for (auto a : *v) {
            a.port = port;
            W->owner[a.str()] = x.name;
          }
        auto at = W->endpoints.begin() + (long)sim::choose(sim::WORK, W->endpoints.size() + 1);
        W->endpoints.insert(at, {x.name, port});
      }
    if (sim::chance(sim::WORK, 0.3)) {
      dead = "nowhere.test";
      auto at = W->endpoints.begin() + (long)sim::choose(sim::WORK, W->endpoints.size() + 1);
      W->endpoints.insert(at, {dead, 8700});
      sim::fault("unresolvable_host");
    }
  }
  size_t alive = W->endpoints.size() - (dead.empty() ? 0 : 1);
  make_tracer();
  // every name is resolved once the first connections are open
  sim::wait_until([] { return slots_live(); }, W->recover_bound(), 5 * MS);
  std::this_thread::sleep_for(std::chrono::milliseconds(100));
  size_t from = W->sats.size(), want = 20 * alive;
  for (int k = 0; k < 3; ++k) {
    one_span(modest_size());
    sim::wait_until([&] { return W->sats.size() >= from + want * (size_t)(k + 1) / 3; }, 120 * SEC, 10 * MS);
  }
  {
    sim::Harness h;
    size_t n = W->sats.size() - from;
    if (n < want) {
      for (const char* p : {"C04", "C20"}) sim::fail(p, "no-reconnect", "only %zu connections were opened in 360 s", n);
    } else {
      std::map<std::pair<std::string, uint16_t>, size_t> per;
      std::map<std::string, std::set<std::string>> used;
      for (size_t i = from; i < W->sats.size(); ++i) {
        auto& s = *W->sats[i];
        ++per[{s.host, s.addr.port}];
        sim::Addr b = s.addr;
        b.port = 0;
        used[s.host].insert(b.str());
      }
      for (auto& e : W->endpoints) {
        if (e.first == dead) continue;
        size_t got = per[e];
        // an endpoint next to an unresolvable one gets that one's share as well
        if (got * 4 < n / (alive + (dead.empty() ? 0 : 1)))
          sim::fail("C20", "unfair", "of %zu connections to %zu endpoints only %zu went to %s:%u", n, alive, got, e.first.c_str(), e.second);
      }
      for (auto& x : W->hosts) {
        auto& v = x.v4.empty() ? x.v6 : x.v4;
        for (auto a : v) {
          a.port = 0;
          if (!used[x.name].count(a.str()))
            sim::fail("C20", "address-unused", "none of the connections to %s used its address %s", x.name.c_str(), a.str().c_str());
        }
      }
    }
  }
  check_lifetimes();
  destroy();
}
