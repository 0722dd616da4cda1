// The resolver by itself: overlapping lookups against 1-3 name servers that
// lose, delay, forge, repeat and refuse.
#include <event2/event.h>
#include <algorithm>
#include <map>
#include <set>
#include "common/logger.h"
#include "kit/dns.h"
#include "kit/kit.h"
#include "network/dns_resolver.h"
#include "network/event_base.h"
using namespace lightstep;
using namespace dns;
using sim::MS;
using sim::SEC;
using sim::US;

namespace {
struct Lookup;
struct Ctx {
  std::unique_ptr<EventBase> base;
  std::unique_ptr<DnsResolver> resolver;
  Logger* logger = nullptr;
  std::vector<std::unique_ptr<Lookup>> lookups;
  int64_t timeout = 0;
  int servers = 1;
  double p_bad = 0;
  bool faulty = false, destroying = false, send_fails = false;
  bool rough = false;  // connections to name servers fail, which fails or delays every lookup on them
  bool over() const;
};
Ctx* X;

struct Lookup : DnsResolutionCallback {
  int id = 0;
  std::string name;
  int family = AF_INET;
  bool literal = false, broken_name = false;
  int64_t asked = -1, done = -1;
  bool ok = false;
  int answers = 0, queries = 0, follow = 0;
  std::vector<std::string> addrs;                 // what name servers answer
  int64_t sure = -1;                              // arrival of a proper answer
  bool any_answer = false, tainted = false, all_lost = true;

  void start() {
    {
      sim::Harness h;
      sim::log("lookup %d of %s", id, name.c_str());
      asked = sim::now();
    }
    X->resolver->Resolve(name.c_str(), family, *this);
  }
  void OnDnsResolution(const DnsResolution& r, opentracing::string_view error) noexcept override {
    std::vector<std::string> got;
    bool all = r.ForeachIpAddress([&](const IpAddress& ip) {
      sim::Harness h;
      sim::Addr a{};
      a.family = ip.family();
      if (a.family == AF_INET) memcpy(a.ip, &ip.ipv4_address().sin_addr, 4);
      else memcpy(a.ip, &ip.ipv6_address().sin6_addr, 16);
      got.push_back(a.str());
      return true;
    });
    std::vector<std::string> one;
    if (got.size() > 1) {
      bool stopped = r.ForeachIpAddress([&](const IpAddress&) {
        one.push_back("");
        return false;
      });
      if (stopped || one.size() != 1) sim::fail("C19", "iteration", "iterating addresses didn't stop when told to");
    }
    {
      sim::Harness h;
      int64_t now = sim::now();
      sim::log("lookup %d: %s", id, error.empty() ? "resolved" : std::string(error.data(), error.size()).c_str());
      if (!all) sim::fail("C19", "iteration", "an iteration nobody stopped reports that it was");
      if (++answers > 1) sim::fail("C19", "twice", "lookup %d of %s was answered %d times", id, name.c_str(), answers);
      done = now;
      ok = error.empty();
      if (ok && !literal) {
        if (!any_answer && !broken_name) sim::fail("C19", "made-up", "lookup %d of %s succeeded although no name server answered it", id, name.c_str());
        auto want = addrs;
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        if (got != want && !tainted) sim::fail("C19", "wrong-addresses", "lookup %d of %s yields %zu addresses, not the %zu it was answered with", id, name.c_str(), got.size(), want.size());
      } else if (ok && (got.size() != 1 || got[0] != addrs[0])) {
        sim::fail("C19", "wrong-addresses", "looking up %s yields something else", name.c_str());
      }
      if (!ok && literal) sim::fail("C19", "refused-answer", "looking up the address %s fails", name.c_str());
      if (!ok && !X->destroying && !broken_name) {
        if (sure >= 0 && sure <= now && !tainted && !X->rough)
          sim::fail("C19", "refused-answer", "lookup %d of %s failed although a proper answer had arrived %lld ms before", id, name.c_str(), (long long)((now - sure) / MS));
        if (!literal && all_lost && !X->send_fails && queries < 2)
          sim::fail("C19", "no-retry", "lookup %d of %s was given up after %d lost queries", id, name.c_str(), queries);
      }
      if (ok && sure >= 0 && !tainted && !X->rough && done > sure + 50 * MS)
        sim::fail("C19", "late", "lookup %d of %s ended %lld ms after its answer arrived", id, name.c_str(), (long long)((done - sure) / MS));
    }
    if (follow && !X->destroying) X->lookups[(size_t)follow]->start();
  }
};
bool Ctx::over() const {
  for (auto& l : lookups)
    if (l->asked >= 0 && l->done < 0) return false;
  return true;
}

void taint_all() {
  for (auto& l : X->lookups)
    if (l->asked >= 0 && l->done < 0) l->tainted = true;
}
// over TCP, every reply takes another while to get through
int64_t tcp_extra = 0;
std::vector<std::pair<int64_t, std::string>> answer(const sim::Addr& to, const std::string& q, bool tcp) {
  std::vector<std::pair<int64_t, std::string>> out;
  Question qu = parse_query(q);
  if (!qu.ok) {
    sim::fail("C19", "malformed", "a name server is sent a malformed query");
    return out;
  }
  if (to.ip[0] != 10 || to.ip[1] != 9 || to.ip[3] < 1 || to.ip[3] > X->servers || to.port != 5353)
    sim::fail("C19", "wrong-server", "a query is sent to %s, no configured name server", to.str().c_str());
  Lookup* l = nullptr;
  for (auto& x : X->lookups)
    if (x->asked >= 0 && !strcasecmp(x->name.c_str(), qu.name.c_str())) l = x.get();
  int64_t d = sim::range(sim::NET, 1, 15) * MS;
  if (!l) {
    out.emplace_back(d, dns_reply(q, qu, 3, {}));
    return out;
  }
  if (l->broken_name) {
    l->any_answer = true;
    out.emplace_back(d, dns_reply(q, qu, 3, {}));
    return out;
  }
  ++l->queries;
  if (l->done >= 0 && sim::now() > l->done + (tcp ? 50 * MS : 0)) sim::fail("C19", "afterwards", "a query for %s is sent after the lookup ended", l->name.c_str());
  if (qu.type != (l->family == AF_INET ? 1 : 28)) {
    sim::fail("C19", "family", "a query of type %d is sent for lookup %d", qu.type, l->id);
    l->tainted = true;
  }
  std::vector<sim::Addr> as;
  for (size_t i = 0; i < l->addrs.size(); ++i) as.push_back(l->family == AF_INET ? ip4((uint8_t)l->id, (uint8_t)i) : ip6((uint8_t)l->id, (uint8_t)i));
  auto good = [&](int64_t at) {
    l->any_answer = true;
    l->all_lost = false;
    if (l->sure < 0) l->sure = sim::now() + at + (tcp ? tcp_extra : 0);
    out.emplace_back(at, dns_reply(q, qu, 0, as));
  };
  if (X->faulty && sim::chance(sim::FAULT, X->p_bad)) {
    int what = (int)sim::choose(sim::FAULT, 9);
    if (tcp) {
      // whoever asks over TCP has had an answer, and failing connections are retried or not
      l->tainted = true;
      what = sim::pick<int>(sim::FAULT, {0, 1, 2, 4, 5, 10});
      if (what == 5 || what == 10) {
        sim::fault(what == 5 ? "dns_tcp_reset" : "dns_tcp_close");
        out.emplace_back(d, what == 5 ? TCP_RESET : TCP_FIN);
        taint_all();  // their answers may be lost with it
        sim::after(d, taint_all);
        return out;
      }
    } else if (sim::chance(sim::FAULT, 0.1)) {
      l->all_lost = false;
      sim::fault("dns_truncated");
      out.emplace_back(d, truncated(q, qu, sim::chance(sim::FAULT, 0.5) ? as : std::vector<sim::Addr>{}));
      return out;
    }
    if (what == 5 && !X->rough) what = 0;
    if (what && what != 5) l->all_lost = false;
    switch (what) {
      case 0: sim::fault("dns_lost"); return out;
      case 1: sim::fault("dns_servfail"); l->tainted = true; out.emplace_back(d, dns_reply(q, qu, 2, {})); return out;
      case 2: sim::fault("dns_nxdomain"); l->tainted = true; out.emplace_back(d, dns_reply(q, qu, 3, {})); return out;
      case 3: sim::fault("dns_empty"); l->tainted = true; out.emplace_back(d, dns_reply(q, qu, 0, {})); return out;
      case 4:
        sim::fault("dns_slow");
        l->tainted = l->any_answer = true;
        out.emplace_back(d + sim::range(sim::FAULT, 10, 2500) * MS, dns_reply(q, qu, 0, as));
        return out;
      case 5:
        sim::fault("dns_refused");
        l->tainted = true;
        out.emplace_back(d, UDP_REFUSED);
        return out;
      case 6: {
        sim::fault("dns_duplicate");
        good(d);
        for (int i = 1; i < 4; ++i) out.emplace_back(d + sim::range(sim::NET, 0, 400) * MS, dns_reply(q, qu, 0, as));
        return out;
      }
      case 7: {
        sim::fault("dns_forged");
        int n = (int)sim::range(sim::FAULT, 1, 3);
        for (int i = 0; i < n; ++i) {
          std::string f = dns_reply(q, qu, 0, {qu.type == 28 ? ip6(66, 66) : ip4(66, 66)});
          f[sim::choose(sim::FAULT, 2)] ^= (char)sim::range(sim::FAULT, 1, 255);
          out.emplace_back(sim::range(sim::NET, 0, d / MS) * MS, f);
        }
        if (sim::chance(sim::FAULT, 0.7)) good(d + MS);
        return out;
      }
      default: {
        sim::fault("dns_garbage");
        l->tainted = true;
        std::string f = dns_reply(q, qu, 0, as);
        f.resize((size_t)sim::choose(sim::FAULT, f.size()));
        if (f.size() > 12 && (f[2] & 2)) f[2] = (char)(f[2] & ~2);
        l->any_answer = true;
        out.emplace_back(d, f);
        return out;
      }
    }
  }
  good(d);
  return out;
}
std::vector<std::pair<int64_t, std::string>> serve(const sim::Addr& to, const std::string& q) { return answer(to, q, false); }
sim::AcceptDecision accept_tcp(const sim::Addr& a, sim::Conn&) {
  sim::AcceptDecision d;
  if (a.ip[0] != 10 || a.ip[1] != 9 || a.ip[3] < 1 || a.ip[3] > X->servers || a.port != 5353)
    sim::fail("C19", "wrong-server", "a connection is opened to %s, no configured name server", a.str().c_str());
  auto s = std::make_shared<TcpServer>();
  s->piece = sim::pick<size_t>(sim::NET, {1 << 20, 1, 2, 7, 40});
  s->gap = sim::pick<int64_t>(sim::NET, {0, 100}) * US;
  d.latency = sim::pick<int64_t>(sim::NET, {50, 1000}) * US;
  int64_t extra = d.latency * 2 + 3000 * s->gap + MS;
  tcp_extra = std::max(tcp_extra, extra);
  s->serve = [](const sim::Addr& to, const std::string& q) { return answer(to, q, true); };
  d.sndbuf = sim::pick<size_t>(sim::NET, {64 * 1024, 20});
  d.delay = sim::range(sim::NET, 1, 10) * MS;
  d.peer = s;
  if (sim::chance(sim::FAULT, 0.15)) {
    sim::fault("dns_tcp_refused");
    taint_all();
    d.what = sim::chance(sim::FAULT, 0.3) ? sim::Accept::blackhole : sim::Accept::refuse;
  }
  return d;
}
struct Op {
  void (*f)(Op*);
  Lookup* l;
};
void run_op(int, short, void* p) {
  auto* o = static_cast<Op*>(p);
  o->f(o);
}
void destroy_resolver() {
  if (!X->resolver) return;
  size_t pending = 0;
  {
    sim::Harness h;
    X->destroying = true;
    for (auto& l : X->lookups) pending += l->asked >= 0 && l->done < 0;
    if (pending) sim::fault("destroyed_in_flight");
  }
  X->resolver.reset();
  {
    sim::Harness h;
    for (auto& l : X->lookups)
      if (l->asked >= 0 && l->done < 0) sim::fail("C19", "unanswered", "lookup %d was neither answered nor failed when the resolver was destroyed", l->id);
  }
}
}  // namespace

SIM_SCENARIO(resolver) {
  event_set_log_callback([](int, const char*) {});
  Ctx ctx;
  X = &ctx;
  std::vector<std::unique_ptr<Op>> ops;
  DnsResolverOptions options;
  bool die_early;
  {
    sim::Harness h;
    ctx.logger = new Logger([](LogLevel, opentracing::string_view) {});
    ctx.logger->set_level(LogLevel::off);
    ctx.faulty = sim::chance(sim::FAULT, 0.85);
    ctx.p_bad = sim::pick<double>(sim::FAULT, {0.5, 0.2, 0.9});
    ctx.servers = sim::pick<int>(sim::WORK, {1, 2, 3});
    ctx.timeout = sim::pick<int64_t>(sim::WORK, {200, 50, 1000}) * MS;
    auto& c = sim::config();
    c.time_cap = 7200 * SEC;
    c.epoll_reorder = 0.3;
    if (ctx.faulty) {
      c.eintr = sim::pick<double>(sim::FAULT, {0, 0.05});
      c.udp_send_fail = sim::pick<double>(sim::FAULT, {0, 0, 0, 0.1});
      c.socket_fail = sim::pick<double>(sim::FAULT, {0, 0, 0, 0.1});
      ctx.rough = sim::chance(sim::FAULT, 0.3);
      if (!ctx.rough) c.udp_send_fail = c.socket_fail = 0;
      ctx.send_fails = c.udp_send_fail > 0 || c.socket_fail > 0;
    }
    options.timeout = std::chrono::milliseconds(ctx.timeout / MS);
    options.resolution_server_port = 5353;
    for (int i = 1; i <= ctx.servers; ++i) {
      in_addr ns;
      std::string s = "10.9.0." + std::to_string(i);
      inet_pton(AF_INET, s.c_str(), &ns);
      options.resolution_servers.push_back(ns);
    }
    sim::set_udp_server(serve);
    tcp_extra = 0;
    sim::set_listener(accept_tcp);
    die_early = sim::chance(sim::WORK, 0.3);
  }
  ctx.base.reset(new EventBase);
  ctx.resolver = MakeDnsResolver(*ctx.logger, *ctx.base, options);
  int n = (int)sim::range(sim::WORK, 1, 10);
  int64_t spread = sim::pick<int64_t>(sim::WORK, {100, 0, 3000}), end = 0;
  for (int i = 0; i < n; ++i) {
    sim::Harness h;
    auto l = std::make_unique<Lookup>();
    l->id = i;
    l->family = sim::chance(sim::WORK, 0.4) ? AF_INET6 : AF_INET;
    l->name = "h" + std::to_string(i) + (sim::chance(sim::WORK, 0.5) ? ".test" : ".Longer-domain.example");
    int na = (int)sim::range(sim::WORK, 1, 4);
    for (int k = 0; k < na; ++k) {
      sim::Addr a = l->family == AF_INET ? ip4((uint8_t)i, (uint8_t)k) : ip6((uint8_t)i, (uint8_t)k);
      l->addrs.push_back(a.str());
    }
    if (sim::chance(sim::WORK, 0.1)) {
      l->literal = true;
      char b[64];
      sim::Addr a = l->family == AF_INET ? ip4((uint8_t)i, 0) : ip6((uint8_t)i, 0);
      inet_ntop(a.family, a.ip, b, sizeof b);
      l->name = b;
    } else if (sim::chance(sim::WORK, 0.05)) {
      l->broken_name = true;
      const char* names[] = {"a..b", "", "."};
      l->name = sim::chance(sim::WORK, 0.4) ? std::string(70, 'x') + ".test" : names[sim::choose(sim::WORK, 3)];
      l->tainted = true;
    }
    ctx.lookups.push_back(std::move(l));
  }
  std::vector<bool> chained((size_t)n);
  for (int i = 0; i + 1 < n; ++i)
    if (sim::chance(sim::WORK, 0.25)) {
      ctx.lookups[(size_t)i]->follow = i + 1;
      chained[(size_t)i + 1] = true;
    }
  for (int i = 0; i < n; ++i) {
    if (chained[(size_t)i]) continue;
    ops.emplace_back(new Op{[](Op* o) {
                              if (X->resolver) o->l->start();
                            },
                            ctx.lookups[(size_t)i].get()});
    int64_t at = sim::range(sim::WORK, 0, spread) * MS;
    end = std::max(end, at);
    ctx.base->OnTimeout(std::chrono::microseconds(at / 1000), run_op, ops.back().get());
  }
  int64_t life = end + (int64_t)n * (30 * ctx.timeout + 200 * MS);
  if (die_early) life = sim::range(sim::WORK, 0, (end + 4 * ctx.timeout) / MS) * MS;
  ops.emplace_back(new Op{[](Op*) { X->base->LoopBreak(); }, nullptr});
  ctx.base->OnTimeout(std::chrono::microseconds(life / 1000), run_op, ops.back().get());
  ctx.base->Dispatch();
  if (!die_early) {
    sim::Harness h;
    for (auto& l : ctx.lookups) {
      if (l->asked >= 0 && l->done < 0)
        sim::fail("C19", "unanswered", "lookup %d of %s never ended (%lld ms, timeout of a query %lld ms)", l->id, l->name.c_str(), (long long)((sim::now() - l->asked) / MS), (long long)(ctx.timeout / MS));
      if (l->asked >= 0 && l->done - l->asked > 30 * ctx.timeout + 100 * MS)
        sim::fail("C19", "overdue", "lookup %d of %s took %lld ms (timeout of a query %lld ms)", l->id, l->name.c_str(), (long long)((l->done - l->asked) / MS), (long long)(ctx.timeout / MS));
    }
  }
  destroy_resolver();
  if (sim::chance(sim::WORK, 0.5)) {
    // what was scheduled for it must not fire any more
    ops.emplace_back(new Op{[](Op*) { X->base->LoopBreak(); }, nullptr});
    ctx.base->OnTimeout(std::chrono::seconds(5), run_op, ops.back().get());
    ctx.base->Dispatch();
  }
  ctx.base.reset();
  sim::Harness h;
  if (sim::open_fds())
    for (const char* p : {"C22", "C19"}) sim::fail(p, "leak", "%zu descriptors stay open", sim::open_fds());
  sim::check_leaks("C19", "after the resolver was destroyed");
}
