// A simulated deployment for the streaming recorder: satellites that parse
// strictly what they are sent, name servers, and the record of every span.
#pragma once
#include <arpa/inet.h>
#include <event2/event.h>
#include <google/protobuf/io/coded_stream.h>
#include <algorithm>
#include <atomic>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "common/logger.h"
#include "kit/dns.h"
#include "kit/kit.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "lightstep/metrics_observer.h"
#include "lightstep/tracer.h"
#include "recorder/stream_recorder/stream_recorder.h"
#include "tracer/lightstep_span_context.h"
#include "tracer/tracer_impl.h"

namespace st {
using namespace lightstep;
using namespace dns;
using sim::MS;
using sim::SEC;
using sim::US;

struct World;

struct SpanRec {
  int id = 0;
  std::string name, payload, name2;
  int nlogs = 0;
  bool explicit_start = false;
  int64_t start_us = 0;  // explicit start, system microseconds
  uint64_t trace = 0, span = 0;
  int64_t start_before = 0, start_after = 0, fin_before = 0, fin_after = -1;
  bool refused = false;
  int epoch = 0, phase = 0;
  int64_t first_byte = -1, complete = -1;
  int conn = -1;
  bool delivered = false;
};

enum Beh {
  NORMAL, RESET_AT, FIN_AT, STALL, DEAD_STALL, ERR_STATUS, GARBAGE, NO_RESPONSE, CLOSE_ONLY, EARLY_200, SPLIT, NO_FIN, TIMED_RESET, TIMED_FIN, LONG_REASON, FLOOD, NBEH
};

struct Chunk {
  size_t begin, end;
  std::vector<int> spans;
};

// One connection as the satellite sees it.
struct Sat : sim::Peer, std::enable_shared_from_this<Sat> {
  int id = 0;
  sim::Conn* c = nullptr;
  sim::Addr addr{};
  std::string host;
  Beh beh = NORMAL;
  bool healthy = false;      // accepted after faults stopped (or in a run without)
  int64_t opened = 0;
  size_t trigger = 0;        // byte offset for RESET_AT, FIN_AT, STALL...
  bool triggered = false;
  // what the client handed to the kernel
  std::string buf;
  size_t delivered = 0, pos = 0;
  bool broken = false, headers = false, terminal = false, first_chunk = false;
  size_t first_chunk_end = 0, terminal_end = 0;
  int64_t dropped = 0;
  std::vector<Chunk> chunks;
  bool client_fin = false, client_reset = false, responded = false, killed = false;
  int64_t closed_at = -1, terminal_at = -1;
  int epoch = 0;
  int terminal_by = -1;  // the simulated thread that wrote the end
  int written_by = -1;   // the one that last wrote
  int err_code = -1;  // the status it answered with, if an error

  void bad(const char* what) {
    if (broken) return;
    broken = true;
    std::string tail = buf.substr(pos, 48);
    for (auto& ch : tail)
      if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = '.';
    sim::fail("C02", "malformed", "connection %d: %s at byte %zu: \"%s\"", id, what, pos, tail.c_str());
  }
  void parse();
  void parse_headers(size_t end);
  void on_chunk(size_t b, size_t e, const std::string& body);
  void on_written(sim::Conn&, const char* d, size_t n) override;
  void on_data(sim::Conn&, const char*, size_t n) override;
  void on_client_close(sim::Conn&) override;
  void on_fin(sim::Conn&) override {
    client_fin = true;
    if (!killed && c) c->close_gracefully();
  }
  void on_reset(sim::Conn&) override {
    client_reset = true;
  }
  void respond();
  void reply(std::vector<std::string> parts, int64_t gap, bool fin);
  bool open() const { return closed_at < 0; }
  // a span (or part of one) that was only partly handed over
  bool partial() const { return first_chunk && !terminal && !broken && buf.size() > pos && !ambiguous(); }
  bool ambiguous() const {
    std::string t = buf.substr(pos);
    return first_chunk && !terminal && !t.empty() && t == std::string("0\r\n\r\n").substr(0, t.size());
  }
};

struct Host {
  std::string name;
  bool literal = false;
  std::vector<sim::Addr> v4, v6;   // what the name server answers now
  uint16_t port = 0;
  int generation = 0;
  int64_t changed = 0;             // when its addresses last changed
  std::vector<std::string> current() const {
    std::vector<std::string> r;
    for (auto* v : {&v4, &v6})
      for (auto& a : *v) r.push_back(a.str());
    return r;
  }
  void rotate(bool retire = false);  // moves to new addresses
};

// A valid answer of a name server, on its way or arrived.
struct Answer {
  int64_t asked, arrives;
  std::string host;
  uint16_t type, id;
  std::vector<std::string> addrs;
  bool sure;     // it arrives in time and nothing else does before it
};
// What the name server saw of one host and address family.
struct Asked {
  int64_t last = -1;       // last query
  uint16_t id = 0;
  int64_t answered = -1;   // arrival of the last sure answer
  uint16_t answered_id = 0;
  int64_t refused = -1;    // arrival of a reply without any address
  uint16_t refused_id = 0;
};

struct Obs : MetricsObserver {
  // written under the simulator's own synchronisation, so that counting adds none
  void OnSpansSent(int n) noexcept override;
  void OnSpansDropped(int n) noexcept override;
  void OnFlush() noexcept override;
};

struct World {
  // configuration
  StreamRecorderOptions ro;
  int64_t reporting = 0, polling = 0, tdelta = 0;
  int num_conn = 1;
  size_t cap = 0;
  std::vector<Host> hosts;
  std::vector<std::pair<std::string, uint16_t>> endpoints;
  std::map<std::string, std::string> owner;  // "ip:port" -> host name
  bool clean = false;        // a run without faults
  bool terse = false;        // satellites never answer much
  bool truncates = true;     // name servers answer over TCP now and then
  bool faulty = true;        // the fault window is open
  double p_bad = 0, p_conn_bad = 0, p_dns_bad = 0;
  int64_t stall_slack = 0;
  size_t sndbuf = 65536;
  int64_t dns_timeout = 0;
  bool dns_used = false;
  std::vector<Answer> answers;
  std::map<std::pair<std::string, uint16_t>, Asked> asked;
  std::set<std::string> retired;  // addresses that answer no more
  bool check_refresh = false;
  int64_t heal_time = -1;
  bool closed_for_good = false;  // no connection may be opened any more
  std::string token = "tok-31f", component = "sim";
  // history
  std::vector<std::unique_ptr<SpanRec>> spans;
  std::map<std::string, int> by_name;
  std::vector<std::shared_ptr<Sat>> sats;
  std::vector<std::pair<int64_t, int64_t>> offsets;  // (since, system - steady)
  std::map<std::pair<int, std::string>, int> connects;  // per epoch and host endpoint
  uint64_t reporter_id = 0;
  int reporter_epoch = -1;
  int64_t sent = 0, dropped = 0, flushes = 0, refused = 0;
  int64_t dns_queries = 0, last_dns = -1, last_connect = -1, born = -1;
  int phase = 0;
  bool forked = false;
  size_t bystanders = 0;  // unrelated recorders
  std::map<int, int> finishing;  // simulated thread -> span being finished
  std::shared_ptr<Logger> logger;
  bool logs_errors = false;
  std::vector<std::string> errors;  // messages logged as errors
  StreamRecorder* rec = nullptr;
  std::shared_ptr<TracerImpl> tracer;
  std::set<int> tolerated;  // spans whose loss is explained by a fork

  int64_t recover_bound() const {
    auto us = [](std::chrono::microseconds m) { return (int64_t)m.count() * US; };
    int64_t b = us(ro.max_satellite_reconnect_period) + us(ro.satellite_graceful_stream_shutdown_timeout) +
                us(ro.satellite_failure_retry_period) + us(ro.satellite_write_timeout) + 2 * reporting + 2 * SEC + stall_slack;
    if (dns_used) b += us(ro.dns_failure_retry_period) + 60 * dns_timeout + us(ro.max_dns_resolution_refresh_period);
    return b;
  }
  // The longest a host may go without being looked up.
  int64_t longest_gap() const {
    auto us = [](std::chrono::microseconds m) { return (int64_t)m.count() * US; };
    return std::max(us(ro.max_dns_resolution_refresh_period), us(ro.dns_failure_retry_period)) + 20 * dns_timeout + 100 * MS + stall_slack;
  }
  void check_gap(const Asked& a, const std::string& host, uint16_t type) const {
    // The name server said that there is no address: the next lookup is a retry.
    int64_t retry = (int64_t)ro.dns_failure_retry_period.count() * US, slack = 4 * dns_timeout + 100 * MS + 2 * stall_slack;
    if (a.refused >= 0 && a.id == a.refused_id && sim::now() > a.refused + retry + slack) {
      bool answered = false;
      for (auto& r : answers) answered |= r.host == host && r.type == type && r.id == a.id;
      if (!answered)
        for (const char* p : {"C19", "C04"})
          sim::fail(p, "no-retry", "%s was not looked up for %lld ms after a failed lookup (retry period %lld ms)", host.c_str(),
                    (long long)((sim::now() - a.refused) / MS), (long long)(retry / MS));
    }
    if (a.last >= 0 && sim::now() - a.last > longest_gap())
      for (const char* p : {"C19", "C04"})
        sim::fail(p, "no-refresh", "%s was not looked up for %lld ms, neither to refresh nor to retry (bound %lld ms)", host.c_str(),
                  (long long)((sim::now() - a.last) / MS), (long long)(longest_gap() / MS));
  }
  bool lossy_ambiguous() const {
    for (auto& s : sats)
      if (s->ambiguous()) return true;
    return false;
  }
};
inline World* W = nullptr;

// ---------------------------------------------------------------- observer --
inline void Obs::OnSpansSent(int n) noexcept {
  sim::Harness h;
  if (n < 0) sim::fail("C03", "negative", "the observer is told that %d spans were sent", n);
  W->sent += n;
}
inline void Obs::OnSpansDropped(int n) noexcept {
  sim::Harness h;
  if (n < 0) sim::fail("C03", "negative", "the observer is told that %d spans were dropped", n);
  W->dropped += n;
  auto it = W->finishing.find(sim::self());
  if (it != W->finishing.end()) {
    W->spans[(size_t)it->second]->refused = true;
    ++W->refused;
    if (n != 1) sim::fail("C03", "refusal", "one refused span is reported as %d", n);
  }
}
inline void Obs::OnFlush() noexcept {
  sim::Harness h;
  ++W->flushes;
}

// ------------------------------------------------------------------ parser --
inline void Sat::on_written(sim::Conn&, const char* d, size_t n) {
  if (terminal && buf.size() >= terminal_end && !broken) {
    pos = buf.size();
    buf.append(d, n);
    return bad("bytes after the end of the report");
  }
  buf.append(d, n);
  written_by = sim::self();
  if (epoch != sim::fork_epoch()) sim::fail("C09", "foreign-write", "a forked child writes on connection %d of its parent", id);
  if (closed_at >= 0) sim::fail("C22", "write-after-close", "connection %d is written after it was closed", id);
  parse();
}
inline void Sat::on_client_close(sim::Conn&) {
  closed_at = sim::now();
  if (epoch != sim::fork_epoch()) sim::fail("C09", "foreign-close", "a forked child closes connection %d of its parent", id);
  // The event loop gives up a connection that it could have written all along.
  if (healthy && headers && !terminal && !broken && written_by == sim::self() && c->established() && !client_reset && !killed && !responded && c->ignored_end() == 0) {
    sim::probe("closed_by_the_loop");
    if (c->last_blocked() < closed_at - 50 * MS - 5 * W->stall_slack)
      for (const char* p : {"C02", "C17"})
        sim::fail(p, "not-finished", "connection %d was closed without the end of its report, although it could be written for the last %lld ms", id,
                  (long long)((closed_at - c->last_blocked()) / MS));
  }
}
inline void Sat::parse_headers(size_t end) {
  std::string h = buf.substr(0, end);
  std::vector<std::string> lines;
  for (size_t i = 0; i < h.size();) {
    size_t j = h.find("\r\n", i);
    lines.push_back(h.substr(i, j - i));
    i = j + 2;
  }
  if (lines.empty() || lines[0] != "POST /api/v2/reports HTTP/1.1") return bad("wrong request line");
  std::map<std::string, std::string> f;
  for (size_t i = 1; i < lines.size(); ++i) {
    size_t k = lines[i].find(':');
    if (k == std::string::npos || k == 0) return bad("malformed header field");
    std::string key = lines[i].substr(0, k), v = lines[i].substr(k + 1);
    for (auto& ch : key) ch = (char)tolower(ch);
    while (!v.empty() && v[0] == ' ') v.erase(0, 1);
    while (!v.empty() && v.back() == ' ') v.pop_back();
    if (f.count(key)) return bad("repeated header field");
    f[key] = v;
    for (char ch : v)
      if ((unsigned char)ch < 32) return bad("control character in a header field");
  }
  if (f["transfer-encoding"] != "chunked") return bad("not chunked");
  if (f["content-type"] != "application/octet-stream") return bad("wrong content type");
  if (f["connection"] != "close") return bad("connection isn't announced to be closed");
  if (strcasecmp(f["host"].c_str(), host.c_str()) != 0) {
    sim::fail("C20", "host", "connection %d to %s names host \"%s\" instead of \"%s\"", id, addr.str().c_str(), f["host"].c_str(), host.c_str());
    sim::fail("C02", "host", "connection %d to %s names host \"%s\" instead of \"%s\"", id, addr.str().c_str(), f["host"].c_str(), host.c_str());
  }
}
inline void Sat::parse() {
  while (!broken) {
    if (!headers) {
      size_t e = buf.find("\r\n\r\n");
      if (e == std::string::npos) {
        if (buf.size() > 4096) bad("endless headers");
        return;
      }
      parse_headers(e + 2);
      if (broken) return;
      headers = true;
      pos = e + 4;
      continue;
    }
    if (terminal) {
      if (buf.size() > terminal_end) {
        pos = terminal_end;
        bad("bytes after the end of the report");
      }
      return;
    }
    size_t e = buf.find("\r\n", pos);
    if (e == std::string::npos) {
      for (size_t i = pos; i < buf.size(); ++i)
        if (!isxdigit((unsigned char)buf[i]) && !(buf[i] == '\r' && i + 1 == buf.size() && i > pos)) return bad("malformed chunk size");
      if (buf.size() - pos > 18) bad("endless chunk size");
      return;
    }
    if (e == pos || e - pos > 16) return bad("malformed chunk size");
    unsigned long long n = 0;
    for (size_t i = pos; i < e; ++i) {
      if (!isxdigit((unsigned char)buf[i])) return bad("malformed chunk size");
      n = n * 16 + (unsigned)(isdigit((unsigned char)buf[i]) ? buf[i] - '0' : (tolower(buf[i]) - 'a' + 10));
    }
    if (n > 64 * 1024 * 1024) return bad("absurd chunk size");
    size_t b = e + 2;
    if (n && first_chunk && buf.size() > b) {  // a span has begun
      std::string part = buf.substr(b, 64);
      size_t k = part.find("sp-");
      if (k != std::string::npos && k + 12 <= part.size()) {
        auto it = W->by_name.find(part.substr(k, 12));
        if (it != W->by_name.end()) {
          auto& r = *W->spans[(size_t)it->second];
          if (r.first_byte < 0) {
            r.first_byte = sim::now();
            r.conn = id;
          } else if (r.conn != id) {
            sim::fail("C01", "resent", "span %s was begun on connection %d and again on %d", r.name.c_str(), r.conn, id);
          }
        }
      }
    }
    if (buf.size() < b + n + 2) {
      if (n == 0)
        for (size_t i = b; i < buf.size(); ++i)
          if (buf[i] != "\r\n"[i - b]) return bad("chunk not ended by a line break");
      return;
    }
    if (buf[b + n] != '\r' || buf[b + n + 1] != '\n') {
      pos = b + n;
      return bad("chunk not ended by a line break");
    }
    if (n == 0) {
      if (!first_chunk) return bad("report without a header");
      terminal = true;
      terminal_end = b + 2;
      terminal_at = sim::now(); terminal_by = sim::self();
      pos = terminal_end;
      continue;
    }
    size_t p0 = pos;
    std::string body = buf.substr(b, (size_t)n);
    on_chunk(p0, b + (size_t)n + 2, body);
    if (broken) return;
    pos = b + (size_t)n + 2;
  }
}
void check_span(const collector::Span& s, int conn_id, std::vector<int>& out);
inline void Sat::on_chunk(size_t b, size_t e, const std::string& body) {
  collector::ReportRequest m;
  if (!m.ParseFromString(body)) return bad("a chunk isn't a piece of a report");
  Chunk ch{b, e, {}};
  if (!first_chunk) {
    if (!m.has_reporter() || !m.has_auth()) return bad("the report doesn't begin with reporter and authorisation");
    if (m.auth().access_token() != W->token) return bad("wrong access token");
    if (W->reporter_epoch != epoch) {
      W->reporter_epoch = epoch;
      W->reporter_id = m.reporter().reporter_id();
    } else if (W->reporter_id != m.reporter().reporter_id()) {
      return bad("reporter differs between connections");
    }
    if (!m.reporter().reporter_id()) return bad("no reporter identifier");
    bool tag = false;
    for (auto& t : m.reporter().tags()) tag |= t.key() == "lightstep.component_name" && t.string_value() == W->component;
    if (!tag) return bad("reporter tags missing");
    if (m.internal_metrics().counts_size() > 1) return bad("more than one drop count");
    for (auto& c : m.internal_metrics().counts()) {
      if (c.name() != "spans.dropped") return bad("unknown metric");
      dropped = c.int_value();
      if (dropped < 0) sim::fail("C03", "negative", "a report carries a drop count of %lld", (long long)dropped);
    }
    first_chunk = true;
    first_chunk_end = e;
    if (dropped) sim::probe("drops_reported");
  } else if (m.has_reporter() || m.has_auth() || m.has_internal_metrics()) {
    return bad("header fields inside the span part");
  }
  for (auto& s : m.spans()) check_span(s, id, ch.spans);
  if (first_chunk_end != e && m.spans_size() == 0) return bad("an empty chunk");
  chunks.push_back(ch);
}
inline void check_span(const collector::Span& s, int conn_id, std::vector<int>& out) {
  auto it = W->by_name.find(s.operation_name());
  if (it == W->by_name.end()) {
    sim::fail("C01", "corrupt", "a satellite was sent a span named \"%.20s\", which nobody finished", s.operation_name().c_str());
    sim::fail("C02", "corrupt", "a satellite was sent a span named \"%.20s\", which nobody finished", s.operation_name().c_str());
    return;
  }
  auto& r = *W->spans[(size_t)it->second];
  out.push_back(r.id);
  auto differs = [&](const char* what) {
    sim::fail("C01", "corrupt", "span %s was sent with a different %s", r.name.c_str(), what);
    sim::fail("C11", "corrupt", "span %s was sent with a different %s", r.name.c_str(), what);
  };
  if (r.complete >= 0)
    sim::fail("C01", "duplicate", "span %s was sent on connection %d and again on %d", r.name.c_str(), r.conn, conn_id);
  if (r.epoch != sim::fork_epoch())
    sim::fail("C09", "duplicate", "a forked child sends span %s, which its parent finished", r.name.c_str());
  if (r.refused) sim::fail("C03", "refused-sent", "span %s was reported as dropped and sent", r.name.c_str());
  if (r.first_byte < 0) r.first_byte = sim::now();
  r.conn = conn_id;
  r.complete = sim::now();
  if (s.span_context().trace_id() != r.trace || s.span_context().span_id() != r.span) differs("identity");
  int want = r.payload.empty() ? 1 : 2;
  if (s.tags_size() != want) return differs("number of tags");
  if (s.tags(0).key() != "n" || s.tags(0).int_value() != r.id) return differs("tag");
  if (want == 2 && (s.tags(1).key() != "d" || s.tags(1).string_value() != r.payload)) return differs("tag");
  if (s.logs_size() != r.nlogs) return differs("number of logs");
  for (int i = 0; i < r.nlogs; ++i)
    if (s.logs(i).fields_size() != 1 || s.logs(i).fields(0).key() != "l" || s.logs(i).fields(0).int_value() != i) return differs("log");
  // timestamps
  int64_t us = s.start_timestamp().seconds() * 1000000ll + s.start_timestamp().nanos() / 1000;
  if (r.explicit_start) {
    if (us != r.start_us)
      sim::fail("C16", "explicit", "span %s was given start %lld us but was sent with %lld", r.name.c_str(), (long long)r.start_us, (long long)us);
  } else {
    int64_t from = r.start_before - W->tdelta - W->stall_slack - 100 * MS, eps = 1 * MS + W->stall_slack;
    bool ok = false;
    for (size_t i = 0; i < W->offsets.size(); ++i) {
      int64_t until = i + 1 < W->offsets.size() ? W->offsets[i + 1].first : INT64_MAX;
      if (until < from || W->offsets[i].first > r.start_after) continue;
      int64_t o = W->offsets[i].second;
      if (us * 1000 >= r.start_before + o - eps && us * 1000 <= r.start_after + o + eps) ok = true;
    }
    if (!ok)
      sim::fail("C16", "start", "span %s started between steady %lld and %lld us but carries the start %lld us, no system time of the last %lld ms", r.name.c_str(),
                (long long)(r.start_before / US), (long long)(r.start_after / US), (long long)us, (long long)((r.start_after - from) / MS));
    int64_t dmin = (r.fin_before - r.start_after) / US, dmax = (sim::now() - r.start_before) / US + 1;
    if (r.fin_after >= 0) dmax = (r.fin_after - r.start_before) / US + 1;
    int64_t d = (int64_t)s.duration_micros();
    if (d < dmin - 1 || d > dmax)
      sim::fail("C16", "duration", "span %s lasted between %lld and %lld us but carries %lld", r.name.c_str(), (long long)dmin, (long long)dmax, (long long)d);
  }
}

// --------------------------------------------------------------- satellite --
inline void Sat::reply(std::vector<std::string> parts, int64_t gap, bool fin) {
  auto me = shared_from_this();
  int64_t t = 0;
  for (auto& p : parts) {
    sim::after(t, [me, p] {
      if (!me->killed) me->c->send(p);
    });
    t += gap;
  }
  if (fin)
    sim::after(t, [me] {
      if (!me->killed) me->c->close_gracefully();
    });
}
inline void Sat::respond() {
  if (responded) return;
  responded = true;
  std::string ok = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
  switch (beh) {
    case ERR_STATUS: {
      int code = sim::pick<int>(sim::FAULT, {500, 404, 301, 100, 201, 0});
      sim::fault("error_status");
      err_code = code;
      std::string r = "HTTP/1.1 " + std::to_string(code) + " Whatever It Is\r\n\r\n";
      size_t cut = sim::chance(sim::FAULT, 0.3) ? (size_t)sim::range(sim::FAULT, 1, (int64_t)r.size() - 1) : 0;
      if (cut) reply({r.substr(0, cut), r.substr(cut)}, sim::range(sim::NET, 0, 3) * MS, true);
      else reply({r}, 0, true);
      return;
    }
    case GARBAGE: {
      sim::fault("garbage_response");
      std::string g[] = {"\r\n\r\n", "HTTP/1.1\r\n", "HTTP/1.1 200\r\n", std::string("\0\0\0 \r\n", 6), "x", "HTTP/1.1 99999999999999999999 a b\r\n",
                         " 200 OK\r\n", "200 OK\r\nHTTP/1.1 200 OK\r\n", std::string(3000, 'a'), std::string(700, 'b') + " 200 OK\r\n", "HTTP/1.1 -5 OK\r\n", "HTTP/1.1 2x0 OK\r\n"};
      reply({g[sim::choose(sim::FAULT, 12)]}, 0, sim::chance(sim::FAULT, 0.7));
      return;
    }
    case LONG_REASON:
      sim::fault("oversized_response");
      reply({"HTTP/1.1 200 " + std::string((size_t)sim::range(sim::FAULT, 0, 3000), 'r') + "\r\n\r\n" + std::string(2000, 'x')}, 0, true);
      return;
    case NO_RESPONSE:
      sim::fault("no_response");
      return;
    case CLOSE_ONLY:
      sim::fault("close_without_response");
      c->close_gracefully();
      return;
    case NO_FIN:
      sim::fault("response_without_close");
      reply({ok}, 0, false);
      return;
    case SPLIT: {
      std::vector<std::string> p;
      for (size_t i = 0; i < ok.size();) {
        size_t k = (size_t)sim::range(sim::NET, 1, 9);
        p.push_back(ok.substr(i, k));
        i += k;
      }
      sim::fault("split_response");
      reply(p, sim::range(sim::NET, 0, 3) * MS, true);
      return;
    }
    default: {
      auto me = shared_from_this();
      int64_t d = sim::pick<int64_t>(sim::NET, {0, 1, 20}) * MS;
      sim::after(d, [me, ok] { me->reply({ok}, 0, true); });
    }
  }
}
inline void Sat::on_data(sim::Conn&, const char*, size_t n) {
  delivered += n;
  for (auto& ch : chunks)
    if (ch.end <= delivered)
      for (int s : ch.spans) W->spans[(size_t)s]->delivered = true;
  if (!triggered && delivered >= trigger && W->faulty) {
    if (beh == RESET_AT) {
      triggered = killed = true;
      c->reset();
    } else if (beh == FIN_AT) {
      triggered = killed = true;
      sim::fault("peer_close");
      c->close_gracefully();
    } else if (beh == STALL) {
      triggered = true;
      c->pause(true);
      auto me = shared_from_this();
      sim::after(sim::range(sim::FAULT, 1, 4000) * MS, [me] { me->c->pause(false); });
    } else if (beh == DEAD_STALL) {
      triggered = true;
      c->pause(true);
    } else if (beh == EARLY_200) {
      triggered = true;
      sim::fault("early_response");
      reply({"HTTP/1.1 200 OK\r\n\r\n"}, 0, sim::chance(sim::FAULT, 0.5));
      responded = true;
    } else if (beh == FLOOD) {
      triggered = responded = true;
      if (sim::chance(sim::FAULT, 0.5)) reply({"HTTP/1.1 200 OK\r\n\r\n"}, 0, false);
      auto me = shared_from_this();
      sim::after(sim::range(sim::FAULT, 0, 3) * MS, [me] {
        if (me->c->established()) me->c->flood((int)sim::range(sim::FAULT, 1, 12));
        if (sim::chance(sim::FAULT, 0.5)) sim::after(sim::range(sim::FAULT, 1, 100) * MS, [me] { me->c->fin(); });
      });
    }
  }
  if (terminal && delivered >= terminal_end && !killed) respond();
}

// --------------------------------------------------------------- listening --
// May a connection be opened to this address, given what name servers answered?
inline void check_address(const sim::Addr& a, const std::string& host) {
  Host* h = nullptr;
  for (auto& x : W->hosts)
    if (x.name == host) h = &x;
  if (!h || h->literal) return;
  int64_t now = sim::now(), sure = -1, slack = 20 * MS + 2 * W->stall_slack;
  uint16_t type = a.family == AF_INET ? 1 : 28;
  for (auto& r : W->answers)
    if (r.host == host && r.type == type && r.sure && r.arrives <= now - slack) sure = std::max(sure, r.arrives);
  bool any = false;
  sim::Addr b = a;
  b.port = 0;
  for (auto& r : W->answers) {
    if (r.host != host || r.type != type || r.arrives > now || r.arrives < sure) continue;
    any = true;
    for (auto& s : r.addrs)
      if (s == b.str()) return;
  }
  sim::fail("C19", "stale-address", "a connection is opened to %s, %s", a.str().c_str(),
            any ? "not an address of the latest successful lookup" : "an address no name server gave");
}
inline std::vector<std::pair<int64_t, std::string>> name_server_by(const std::string& q, bool tcp);
inline sim::AcceptDecision listen(const sim::Addr& a, sim::Conn& c) {
  sim::AcceptDecision d;
  if (a.port != 53) W->last_connect = sim::now();
  std::string key = a.str();
  if (a.family == AF_INET && a.ip[1] == 200) {  // an unrelated recorder's
    d.what = sim::Accept::refuse;
    return d;
  }
  if (a.port == 53) {  // asks a name server again
    auto s = std::make_shared<TcpServer>();
    s->piece = sim::pick<size_t>(sim::NET, {1 << 20, 1, 30});
    s->gap = sim::pick<int64_t>(sim::NET, {0, 100}) * US;
    s->serve = [](const sim::Addr&, const std::string& q) { return name_server_by(q, true); };
    d.delay = sim::range(sim::NET, 1, 10) * MS;
    d.peer = s;
    if (W->faulty && sim::chance(sim::FAULT, 0.2)) {
      sim::fault("dns_tcp_refused");
      d.what = sim::chance(sim::FAULT, 0.3) ? sim::Accept::blackhole : sim::Accept::refuse;
    }
    return d;
  }
  auto it = W->owner.find(key);
  if (it == W->owner.end()) {
    sim::fail("C20", "unknown-endpoint", "a connection is opened to %s, which is no configured endpoint", key.c_str());
    d.what = sim::Accept::refuse;
    return d;
  }
  check_address(a, it->second);
  if (W->retired.count(key)) {
    d.what = sim::chance(sim::FAULT, 0.3) ? sim::Accept::blackhole : sim::Accept::refuse;
    d.delay = sim::range(sim::NET, 1, 20) * MS;
    return d;
  }
  if (W->closed_for_good)
    sim::fail("C07", "zombie-connection", "a connection to %s is opened although the recorder was shut down", key.c_str());
  ++W->connects[{sim::fork_epoch(), it->second + ":" + std::to_string(a.port)}];
  auto s = std::make_shared<Sat>();
  s->id = (int)W->sats.size();
  s->c = &c;
  s->addr = a;
  s->host = it->second;
  s->opened = sim::now();
  s->epoch = sim::fork_epoch();
  d.sndbuf = W->sndbuf;
  d.latency = sim::pick<int64_t>(sim::NET, {50, 500, 5000}) * US;
  d.mss = sim::pick<size_t>(sim::NET, {1u << 30, 1460, 100});
  if (W->sndbuf > 20000 || !W->faulty) d.mss = 1u << 30;
  d.delay = sim::range(sim::NET, 1, 20) * MS;
  d.peer = s;
  if (W->faulty && sim::chance(sim::FAULT, W->p_conn_bad)) {
    d.what = sim::chance(sim::FAULT, 0.3) ? sim::Accept::blackhole : sim::Accept::refuse;
    d.delay = sim::range(sim::FAULT, 5, 300) * MS;
  } else if (W->faulty && sim::chance(sim::FAULT, W->p_bad)) {
    s->beh = (Beh)sim::range(sim::FAULT, 1, NBEH - 1);
    if (W->terse && (s->beh == FLOOD || s->beh == LONG_REASON || s->beh == GARBAGE)) s->beh = ERR_STATUS;
    switch (s->beh) {
      case RESET_AT: case FIN_AT: case STALL: case DEAD_STALL: case EARLY_200: case FLOOD:
        s->trigger = (size_t)sim::pick<int>(sim::FAULT, {1, 100, 250, 300, 500, 2000, 20000});
        if (s->trigger > 1) s->trigger = (size_t)sim::range(sim::FAULT, 1, (int64_t)s->trigger);
        break;
      case TIMED_RESET: case TIMED_FIN: {
        auto me = s;
        sim::after(d.delay + sim::range(sim::FAULT, 1, 3000) * MS, [me] {
          if (me->killed || !W->faulty || !me->c->established()) return;
          me->killed = true;
          if (me->beh == TIMED_RESET) me->c->reset();
          else {
            sim::fault("peer_close");
            me->c->close_gracefully();
          }
        });
        break;
      }
      default: break;
    }
  }
  s->healthy = !W->faulty && d.what == sim::Accept::accept;
  W->sats.push_back(s);
  return d;
}

// --------------------------------------------------------------------- dns --
inline std::vector<std::pair<int64_t, std::string>> name_server_by(const std::string& q, bool tcp) {
  std::vector<std::pair<int64_t, std::string>> out;
  Question qu = parse_query(q);
  ++W->dns_queries;
  W->last_dns = sim::now();
  if (!qu.ok) return out;
  Host* h = nullptr;
  for (auto& x : W->hosts)
    if (!strcasecmp(x.name.c_str(), qu.name.c_str())) h = &x;
  int64_t d = sim::range(sim::NET, 1, 15) * MS;
  if (!h) {
    out.emplace_back(d, dns_reply(q, qu, 3, {}));
    return out;
  }
  const std::vector<sim::Addr>& as = qu.type == 28 ? h->v6 : h->v4;
  Asked& ask = W->asked[{h->name, qu.type}];
  if (W->check_refresh) {
    int64_t min = (int64_t)W->ro.min_dns_resolution_refresh_period.count() * US;
    if (ask.answered >= 0 && qu.id != ask.answered_id && sim::now() >= ask.answered && sim::now() < ask.answered + min - 10 * MS - W->stall_slack)
      for (const char* p : {"C19", "C20"})
        sim::fail(p, "early-refresh", "%s is looked up again %lld ms after a successful lookup (refresh period at least %lld ms)", h->name.c_str(),
                  (long long)((sim::now() - ask.answered) / MS), (long long)(min / MS));
    W->check_gap(ask, h->name, qu.type);
    if (ask.last < 0 && W->born >= 0 && sim::now() > W->born + 100 * MS + 2 * W->stall_slack)
      for (const char* p : {"C19", "C04"}) sim::fail(p, "late-start", "%s is first looked up %lld ms after the tracer was made", h->name.c_str(), (long long)((sim::now() - W->born) / MS));
  }
  ask.last = sim::now();
  ask.id = qu.id;
  // Once a query goes over TCP, late replies to it by UDP may go unheard, and
  // those by TCP depend on a connection that other lookups share.
  auto unheard = [&] {
    if (ask.refused_id == qu.id) ask.refused = -1;
  };
  if (tcp) {
    unheard();
    // When it gets through depends on the connection: it may be used from then on.
    if (W->faulty && sim::chance(sim::FAULT, W->p_dns_bad)) {
      int what = (int)sim::choose(sim::FAULT, 4);
      const char* names[] = {"dns_lost", "dns_servfail", "dns_tcp_reset", "dns_tcp_close"};
      sim::fault(names[what]);
      if (what) out.emplace_back(d, what == 1 ? dns_reply(q, qu, 2, {}) : what == 2 ? TCP_RESET : TCP_FIN);
      return out;
    }
    out.emplace_back(d, dns_reply(q, qu, 0, as));
    if (as.empty()) return out;
    Answer r{sim::now(), sim::now() + d, h->name, qu.type, qu.id, {}, false};
    for (auto a : as) {
      a.port = 0;
      r.addrs.push_back(a.str());
    }
    W->answers.push_back(r);
    return out;
  }
  auto answer = [&](int64_t delay, bool sure) {
    if (as.empty()) return (void)(ask.refused = sim::now() + delay, ask.refused_id = qu.id);
    if (sim::config().alloc_fail > 0) sure = false;  // it may be lost for lack of memory
    // Of two answers to one query (it was sent again) the first to arrive ends
    // the lookup, and the other one goes unheard.
    for (auto& o : W->answers)
      if (o.host == h->name && o.type == qu.type && o.id == qu.id) o.sure = sure = false, ask.answered = -1;
    Answer r{sim::now(), sim::now() + delay, h->name, qu.type, qu.id, {}, sure};
    for (auto a : as) {
      a.port = 0;
      r.addrs.push_back(a.str());
    }
    W->answers.push_back(r);
    if (sure) ask.answered = r.arrives, ask.answered_id = qu.id;
  };
  if (W->faulty && sim::chance(sim::FAULT, W->p_dns_bad)) {
    switch (sim::choose(sim::FAULT, W->truncates ? 9 : 8)) {
      case 8:
        sim::fault("dns_truncated");
        unheard();
        out.emplace_back(d, truncated(q, qu, sim::chance(sim::FAULT, 0.5) ? as : std::vector<sim::Addr>{}));
        return out;
      case 0: sim::fault("dns_lost"); return out;
      case 1: sim::fault("dns_servfail"); out.emplace_back(d, dns_reply(q, qu, 2, {})); return out;
      case 2: sim::fault("dns_nxdomain"); ask.refused = sim::now() + d; ask.refused_id = qu.id; out.emplace_back(d, dns_reply(q, qu, 3, {})); return out;
      case 3: sim::fault("dns_empty"); ask.refused = sim::now() + d; ask.refused_id = qu.id; out.emplace_back(d, dns_reply(q, qu, 0, {})); return out;
      case 4:
        sim::fault("dns_slow");
        d += sim::range(sim::FAULT, 10, 2500) * MS;
        answer(d, false);
        out.emplace_back(d, dns_reply(q, qu, 0, as));
        return out;
      case 5:
        sim::fault("dns_duplicate");
        answer(d, true);
        for (int i = 0; i < 3; ++i) out.emplace_back(d + i * MS, dns_reply(q, qu, 0, as));
        return out;
      case 6: {
        sim::fault("dns_forged");
        std::string f = dns_reply(q, qu, 0, {qu.type == 28 ? ip6(66, 66) : ip4(66, 66)});
        f[0] = (char)(f[0] ^ 0x55);
        out.emplace_back(d, f);
        answer(d + MS, true);
        out.emplace_back(d + MS, dns_reply(q, qu, 0, as));
        return out;
      }
      default: {
        sim::fault("dns_garbage");
        std::string f = dns_reply(q, qu, 0, as);
        f.resize((size_t)sim::range(sim::FAULT, 0, (int64_t)f.size() - 1));
        if (sim::chance(sim::FAULT, 0.5) && f.size() > 4) f[(size_t)sim::choose(sim::FAULT, f.size())] ^= (char)0x21;
        if (f.size() > 12 && (f[2] & 2)) f[2] = (char)(f[2] & ~2);  // not truncated: that would ask for TCP
        out.emplace_back(d, f.substr(0, std::min(f.size(), (size_t)(qu.end + 3))));
        return out;
      }
    }
  }
  answer(d, true);
  out.emplace_back(d, dns_reply(q, qu, 0, as));
  return out;
}
inline std::vector<std::pair<int64_t, std::string>> name_server(const sim::Addr&, const std::string& q) { return name_server_by(q, false); }

inline void Host::rotate(bool retire) {
  ++generation;
  if (retire)
    for (auto* v : {&v4, &v6})
      for (auto& a : *v)
        for (auto& e : W->endpoints)
          if (e.first == name) {
            sim::Addr b = a;
            b.port = e.second;
            W->retired.insert(b.str());
          }
  changed = sim::now();
  for (auto* v : {&v4, &v6})
    for (auto& a : *v) {
      a.ip[a.family == AF_INET ? 1 : 13] = (uint8_t)(generation + 1);
      for (auto& e : W->endpoints)
        if (e.first == name) {
          a.port = e.second;
          W->owner[a.str()] = name;
        }
      a.port = port;
    }
}
// ------------------------------------------------------------------- setup --
struct SetupOpts {
  bool allow_faults = true;
  bool dns = true;
  bool big = true;
  double p_clean = 0.2, p_literal = 0.5;
  bool jumps = false;
  bool oom = false;
  double stall_p = 0.35;
};
inline std::chrono::microseconds mus(int64_t ns) { return std::chrono::microseconds(ns / US); }
inline void note_offset() { W->offsets.emplace_back(sim::now(), sim::system_now() - sim::now()); }

inline void setup(const SetupOpts& o) {
  sim::Harness h;
  event_set_log_callback([](int, const char*) {});
  W = new World;
  World& w = *W;
  w.clean = !o.allow_faults || sim::chance(sim::FAULT, o.p_clean);
  w.faulty = !w.clean;
  auto& c = sim::config();
  c.preempt = sim::pick<double>(sim::SCHED, {0.02, 0.1, 0.3});
  c.preempt_sync = sim::pick<double>(sim::SCHED, {0.1, 0.3});
  c.epoll_reorder = 0.3;
  c.spurious_wakeup = sim::pick<double>(sim::SCHED, {0, 0.05});
  c.time_cap = 7200 * SEC;
  c.step_cap = 6000000;
  if (!w.clean) {
    c.short_write = sim::pick<double>(sim::FAULT, {0, 0.1, 0.6});
    c.eagain_write = sim::pick<double>(sim::FAULT, {0, 0.1});
    c.write_error = sim::pick<double>(sim::FAULT, {0, 0.02, 0.1});
    c.socket_fail = sim::pick<double>(sim::FAULT, {0, 0, 0.2});
    c.connect_fail = sim::pick<double>(sim::FAULT, {0, 0, 0.2});
    c.eintr = sim::pick<double>(sim::FAULT, {0, 0.05});
    w.p_bad = sim::pick<double>(sim::FAULT, {0.3, 0, 0.7, 1});
    w.p_conn_bad = sim::pick<double>(sim::FAULT, {0, 0.2, 0.6});
    w.p_dns_bad = sim::pick<double>(sim::FAULT, {0, 0.3, 0.8});
    if (sim::chance(sim::FAULT, o.stall_p)) {
      c.stall = 0.0003;
      c.stall_max = 20 * MS;
      w.stall_slack = 200 * MS;
    }
  }
  w.polling = sim::pick<int64_t>(sim::WORK, {20, 5, 50}) * MS;
  w.reporting = sim::pick<int64_t>(sim::WORK, {100, 30, 500}) * MS;
  w.tdelta = sim::pick<int64_t>(sim::WORK, {500, 100}) * MS;
  w.num_conn = sim::pick<int>(sim::WORK, {2, 1, 3, 5});
  w.cap = sim::pick<size_t>(sim::WORK, {20, 4, 100, 1, 2});
  w.sndbuf = sim::pick<size_t>(sim::WORK, {65536, 300, 2000, 500, 1 << 20});
  auto& r = w.ro;
  r.polling_period = mus(w.polling);
  r.timestamp_delta_period = mus(w.tdelta);
  r.early_flush_threshold = sim::pick<double>(sim::WORK, {0.5, 0.1, 1.0});
  r.num_satellite_connections = w.num_conn;
  r.satellite_write_timeout = mus(sim::pick<int64_t>(sim::WORK, {500, 2000, 5000}) * MS);
  r.satellite_failure_retry_period = mus(sim::pick<int64_t>(sim::WORK, {200, 1000, 2500}) * MS);
  int64_t rc = sim::pick<int64_t>(sim::WORK, {700, 2000, 5000}) * MS;
  r.min_satellite_reconnect_period = mus(rc);
  r.max_satellite_reconnect_period = mus(rc + sim::pick<int64_t>(sim::WORK, {400, 2000}) * MS);
  r.satellite_graceful_stream_shutdown_timeout = mus(sim::pick<int64_t>(sim::WORK, {600, 2000, 5000}) * MS);
  r.min_dns_resolution_refresh_period = mus(3 * SEC);
  r.max_dns_resolution_refresh_period = mus(4 * SEC);
  r.dns_failure_retry_period = mus(sim::pick<int64_t>(sim::WORK, {300, 1500}) * MS);
  w.dns_timeout = sim::pick<int64_t>(sim::WORK, {200, 700}) * MS;
  r.dns_resolver_options.timeout = std::chrono::milliseconds(w.dns_timeout / MS);
  in_addr ns;
  inet_pton(AF_INET, "10.9.9.9", &ns);
  r.dns_resolver_options.resolution_servers = {ns};
  r.dns_resolver_options.resolution_server_port = 53;
  // endpoints
  int nh = (int)sim::range(sim::WORK, 1, 3);
  for (int i = 0; i < nh; ++i) {
    Host x;
    x.literal = !o.dns || sim::chance(sim::WORK, o.p_literal);
    uint16_t port = (uint16_t)(8000 + i);
    if (x.literal) {
      sim::Addr a = ip4((uint8_t)(i + 1), 1);
      a.port = 0;
      char b[64];
      inet_ntop(AF_INET, a.ip, b, sizeof b);
      x.name = b;
      x.v4 = {a};
    } else {
      w.dns_used = true;
      const char* names[] = {"sat.test", "longer-name.satellites.test", "B.test"};
      x.name = names[i];
      int kind = (int)sim::choose(sim::WORK, 3);  // v4, both, v6 only
      int n = (int)sim::range(sim::WORK, 1, 2);
      for (int k = 0; k < n; ++k) {
        if (kind != 2) x.v4.push_back(ip4((uint8_t)(i + 1), (uint8_t)(k + 1)));
        if (kind != 0) x.v6.push_back(ip6((uint8_t)(i + 1), (uint8_t)(k + 1)));
      }
    }
    for (auto* v : {&x.v4, &x.v6})
      for (auto& a : *v) {
        a.port = port;
        w.owner[a.str()] = x.name;
      }
    x.port = port;
    w.endpoints.emplace_back(x.name, port);
    w.hosts.push_back(x);
  }
  note_offset();
  sim::set_listener(listen);
  sim::set_udp_server(name_server);
}
inline std::shared_ptr<Logger> make_logger() {
  return std::make_shared<Logger>([](LogLevel l, opentracing::string_view m) {
    sim::Harness h;
    if (l == LogLevel::error) W->errors.emplace_back(m.data(), m.size());
  });
}
inline void make_tracer() {
  LightStepTracerOptions to;
  {
    sim::Harness h;
    if (!W->logger) W->logger = make_logger();
    W->logger->set_level(sim::pick<LogLevel>(sim::WORK, {LogLevel::off, LogLevel::off, LogLevel::off, LogLevel::error, LogLevel::debug}));
    W->logs_errors = W->logger->level() != LogLevel::off;
    if (W->born < 0) W->born = sim::now();
  }
  to.access_token = W->token;
  to.component_name = W->component;
  to.tags = {{"lightstep.component_name", W->component}};
  to.collector_plaintext = true;
  to.use_stream_recorder = true;
  to.satellite_endpoints = W->endpoints;
  to.max_buffered_spans = W->cap;
  to.reporting_period = std::chrono::nanoseconds(W->reporting);
  to.metrics_observer.reset(new Obs);
  W->rec = new StreamRecorder{*W->logger, std::move(to), StreamRecorderOptions{W->ro}};
  W->tracer = std::make_shared<TracerImpl>(W->logger, PropagationOptions{}, std::unique_ptr<Recorder>{W->rec});
}
// A tracer created before, between or after up to two unrelated recorders.
template <class F>
inline void make_tracer_between(std::vector<std::unique_ptr<Recorder>>& others, size_t& n, F make) {
  int before = (int)sim::pick<int>(sim::WORK, {0, 0, 1, 2}), after = (int)sim::pick<int>(sim::WORK, {0, 0, 0, 1});
  {
    sim::Harness h;
    W->logger = make_logger();
    W->logger->set_level(LogLevel::off);
  }
  for (int i = 0; i < before; ++i) others.push_back(make()), ++n;
  make_tracer();
  for (int i = 0; i < after; ++i) others.push_back(make()), ++n;
}
// The recorder stops knowing what the run knows: ends the fault window.
inline void heal() {
  sim::Harness h;
  W->faulty = false;
  sim::config().alloc_fail = 0;
  W->heal_time = sim::now();
  auto& c = sim::config();
  c.short_write = c.eagain_write = c.write_error = c.socket_fail = c.connect_fail = c.eintr = c.stall = 0;
  for (auto& s : W->sats)
    if (s->beh == STALL && s->triggered) s->c->pause(false);
  sim::log("faults stop");
}

// ------------------------------------------------------------------- spans --
inline int one_span(size_t payload, bool explicit_start = false, bool destroy_finish = false) {
  SpanRec* r;
  {
    sim::Harness h;
    auto u = std::make_unique<SpanRec>();
    r = u.get();
    r->id = (int)W->spans.size();
    char b[32];
    snprintf(b, sizeof b, "sp-%08d-", r->id);
    r->name = b;
    r->payload = payload ? kit::letters((uint64_t)r->id + 7, payload) : "";
    r->nlogs = (int)sim::choose(sim::WORK, 3);
    r->epoch = sim::fork_epoch();
    r->phase = W->phase;
    W->by_name[r->name] = r->id;
    W->spans.push_back(std::move(u));
  }
  opentracing::StartSpanOptions so;
  if (explicit_start) {
    r->explicit_start = true;
    r->start_us = 1500000000000000ll + r->id;
    so.start_system_timestamp = std::chrono::system_clock::time_point(std::chrono::microseconds(r->start_us));
    so.start_steady_timestamp = std::chrono::steady_clock::now();
  }
  r->start_before = sim::now();
  auto span = W->tracer->StartSpanWithOptions(r->name, so);
  r->start_after = sim::now();
  if (!span) {
    sim::fail("*", "no-span", "a span could not be started");
    return r->id;
  }
  span->SetTag("n", r->id);
  if (payload) span->SetTag("d", r->payload);
  for (int i = 0; i < r->nlogs; ++i) span->Log({{"l", i}});
  {
    auto& sc = dynamic_cast<const LightStepSpanContext&>(span->context());
    sim::Harness h;
    r->trace = sc.trace_id_low();
    r->span = sc.span_id();
    for (auto& o : W->spans)
      if (o.get() != r && o->span && (o->span == r->span || o->trace == r->trace || o->trace == r->span))
        for (const char* p : {"C09", "C10"}) sim::fail(p, "repeat", "spans %s and %s have the same identifiers", o->name.c_str(), r->name.c_str());
    W->finishing[sim::self()] = r->id;
    r->fin_before = sim::now();
  }
  if (destroy_finish) span.reset();
  else span->Finish();
  {
    sim::Harness h;
    r->fin_after = sim::now();
    W->finishing.erase(sim::self());
    if (r->fin_after - r->fin_before > 20 * MS + W->stall_slack)
      sim::fail("C04", "finish-blocks", "finishing span %s took %lld us", r->name.c_str(), (long long)((r->fin_after - r->fin_before) / US));
  }
  return r->id;
}
inline size_t some_size(bool big) {
  if (big && W->sndbuf >= 2000 && sim::chance(sim::WORK, 0.03)) return (size_t)sim::range(sim::WORK, 262000, 300000);
  size_t n = sim::pick<size_t>(sim::WORK, {0, 20, 200, 260, 1200, 6000});
  if (n > 20 && sim::chance(sim::WORK, 0.5)) n = (size_t)sim::range(sim::WORK, 1, (int64_t)n);
  return n;
}

// ------------------------------------------------------------------ checks --
struct Tally {
  int64_t finished = 0, complete = 0, partial_open = 0, partial_closed = 0, header_drops = 0, ambiguous = 0, buffered = 0, delivered = 0;
};
inline Tally tally() {
  Tally t;
  int e = sim::fork_epoch();
  for (auto& s : W->spans) {
    if (s->epoch != e) continue;
    t.finished += s->fin_after >= 0;
    t.complete += s->complete >= 0;
    t.delivered += s->delivered;
  }
  for (auto& s : W->sats) {
    if (s->epoch != e) continue;
    if (s->partial()) ++(s->open() ? t.partial_open : t.partial_closed);
    if (s->ambiguous()) ++t.ambiguous;
    if (s->first_chunk) t.header_drops += s->dropped;
  }
  return t;
}
// Conservation, to hold whenever nothing is being processed.
inline bool balanced(std::string* why = nullptr, bool drops = true) {
  Tally t = tally();
  t.buffered = (int64_t)W->rec->span_buffer().size();
  int64_t pending = W->rec->metrics().num_dropped_spans();
  auto say = [&](const char* what) {
    if (why) {
      char b[400];
      snprintf(b, sizeof b, "%s: %lld finished, %lld handed over completely, %lld partly (%lld of them on closed connections), %lld buffered; reported: %lld sent, %lld dropped (%lld refused); drop counts in reports %lld, pending %lld",
               what, (long long)t.finished, (long long)t.complete, (long long)(t.partial_open + t.partial_closed), (long long)t.partial_closed, (long long)t.buffered,
               (long long)W->sent, (long long)W->dropped, (long long)W->refused, (long long)t.header_drops, (long long)pending);
      *why = b;
    }
    return false;
  };
  if (W->sent != t.complete) return say("spans sent and spans reported as sent differ");
  int64_t lost = W->dropped - W->refused - t.partial_closed;
  if (lost < 0 || lost > t.ambiguous) return say("spans dropped and spans reported as dropped differ");
  int64_t rest = t.finished - W->sent - W->dropped - t.partial_open - t.buffered;
  if (rest < 0 || rest > t.ambiguous) return say("spans don't add up");
  if (drops && t.header_drops + pending != W->dropped) return say("drop counts don't add up");
  return true;
}
}  // namespace st

namespace st {
// ----------------------------------------------------------------- flushes --
inline bool all_begun(const std::vector<int>& ids, std::string* who = nullptr, int64_t* last = nullptr) {
  // spans of which too little was written to tell which one it is
  int unknown = 0;
  for (auto& s : W->sats) {
    if (s->epoch != sim::fork_epoch() || !(s->partial() || s->ambiguous())) continue;
    bool known = false;
    for (auto& r : W->spans)
      if (r->conn == s->id && r->first_byte >= 0 && r->complete < 0) known = true;
    if (!known) ++unknown;
  }
  int missing = 0;
  for (int i : ids) {
    auto& r = *W->spans[(size_t)i];
    if (r.refused) continue;
    if (r.first_byte < 0) {
      ++missing;
      if (who) *who = r.name;
    } else if (last) {
      *last = std::max(*last, r.first_byte);
    }
  }
  if (last && (unknown || missing)) *last = INT64_MAX;
  return missing <= unknown;
}
// Connections that were ready to take spans at one moment, and still are.
struct Ready {
  struct C { Sat* s; size_t written; };
  std::vector<C> conns;
  int64_t t0;
  Ready() {
    sim::Harness h;
    t0 = sim::now();
    if (W->faulty && !W->clean) return;
    for (auto& s : W->sats)
      if (good(*s) && s->c->last_blocked() < t0 - 50 * MS - 5 * W->stall_slack) conns.push_back({s.get(), s->buf.size()});
  }
  static bool good(const Sat& s) {
    return s.epoch == sim::fork_epoch() && s.open() && s.c->established() && (s.healthy || s.beh == NORMAL) && !s.client_reset && s.headers && !s.terminal &&
           !s.partial() && !s.ambiguous() && !s.broken && s.c->ignored_end() == 0;
  }
  // One that could take spans all the time.
  bool lasting(bool destroyed = false) const {
    for (auto& c : conns) {
      const Sat& s = *c.s;
      if (s.c->last_blocked() >= t0 || s.partial() || s.ambiguous()) continue;
      // the thread that destroys the recorder ends its reports
      if (destroyed ? !s.terminal || s.terminal_by == sim::self() : good(s)) return true;
    }
    return false;
  }
};
// One flush, judged by what it promises.
constexpr int64_t FOREVER = INT64_MAX;  // duration::max()
inline int64_t plus(int64_t a, int64_t b) { return a > INT64_MAX - b ? INT64_MAX : a + b; }
inline bool do_flush(int64_t timeout, bool through_tracer = false) {
  std::vector<int> before;
  bool quiet;
  int64_t t0;
  {
    sim::Harness h;
    for (auto& r : W->spans)
      if (r->epoch == sim::fork_epoch() && r->fin_after >= 0 && !r->refused) before.push_back(r->id);
    quiet = W->finishing.empty();
    t0 = sim::now();
  }
  Ready ready;
  bool ok;
  if (through_tracer) {
    timeout = 10 * SEC;
    ok = W->tracer->Flush();
  } else {
    ok = W->rec->FlushWithTimeout(std::chrono::nanoseconds(timeout));
  }
  sim::Harness h;
  int64_t dt = sim::now() - t0, slack = 10 * MS + 4 * W->stall_slack;
  sim::log("flush %s after %lld of %lld ms", ok ? "done" : "timed out", (long long)(dt / MS), (long long)(timeout / MS));
  sim::probe(ok ? "flush_true" : "flush_false");
  if (dt > plus(std::max<int64_t>(timeout, 0), slack))
    sim::fail("C06", "overdue", "a flush with a timeout of %lld ms returned after %lld ms", (long long)(timeout / MS), (long long)(dt / MS));
  if (dt > 2 * W->polling + slack && ready.lasting())
    sim::fail("C06", "not-prompt", "a flush took %lld ms although a connection was ready all the time (polling period %lld ms, reporting period %lld ms)",
              (long long)(dt / MS), (long long)(W->polling / MS), (long long)(W->reporting / MS));
  std::string who;
  if (ok && !all_begun(before, &who))
    sim::fail("C06", "false-success", "flush returned true, but span %s, finished before it, was neither handed over nor dropped", who.c_str());
  if (!ok && dt < timeout)
    sim::fail("C06", "early-failure", "a flush with a timeout of %lld ms failed after %lld us", (long long)(timeout / MS), (long long)(dt / US));
  std::vector<int> concerned;
  for (auto& r : W->spans)
    if (r->epoch == sim::fork_epoch() && r->fin_before <= t0 + MS + W->stall_slack && r->fin_after >= 0) concerned.push_back(r->id);
    else if (r->epoch == sim::fork_epoch() && r->fin_before <= t0 + MS + W->stall_slack) quiet = false;
  int64_t last = t0;
  if (quiet && all_begun(concerned, nullptr, &last) && last != INT64_MAX) {
    int64_t late = t0 + dt - std::max(last, t0), due = 2 * W->polling + slack;
    if (late > due)
      sim::fail("C06", "late", "a flush returned %s %lld ms after the last span it waited for was handed over (polling period %lld ms)",
                ok ? "true" : "false", (long long)(late / MS), (long long)(W->polling / MS));
  }
  return ok;
}
// Spans a healthy network carries well within every timeout.
inline size_t modest_size() {
  size_t top = W->sndbuf >= 2000 ? 1200 : 300;
  return sim::chance(sim::WORK, 0.3) ? 0 : (size_t)sim::range(sim::WORK, 1, (int64_t)top);
}
inline int64_t us_of(std::chrono::microseconds m) { return (int64_t)m.count() * US; }
inline int64_t life_bound() {
  return us_of(W->ro.max_satellite_reconnect_period) + us_of(W->ro.satellite_graceful_stream_shutdown_timeout) + 50 * MS + 5 * W->stall_slack;
}
// No connection may outlive its reconnect period and the grace that follows it.
inline void check_lifetimes() {
  sim::Harness h;
  std::map<int, int> codes;
  for (auto& s : W->sats) {
    if (s->epoch != sim::fork_epoch()) continue;
    int64_t stuck = s->c->longest_block(), most = us_of(W->ro.satellite_write_timeout) + 50 * MS + 5 * W->stall_slack;
    if (stuck > most)
      for (const char* p : {"C04", "C17"})
        sim::fail(p, "stuck-write", "connection %d waited %lld ms for its satellite to accept data, longer than the write timeout of %lld ms", s->id,
                  (long long)(stuck / MS), (long long)(us_of(W->ro.satellite_write_timeout) / MS));
    int64_t ignored = s->c->ignored_end();
    if (ignored > 50 * MS + 5 * W->stall_slack)
      for (const char* p : {"C04", "C17"})
        sim::fail(p, "ignored-end", "connection %d was kept for %lld ms after its satellite had ended it", s->id, (long long)(ignored / MS));
    if (s->err_code >= 0 && s->c->eof_read() && s->closed_at >= 0) ++codes[s->err_code];
    int64_t life = (s->closed_at >= 0 ? s->closed_at : sim::now()) - s->opened;
    if (life <= life_bound()) continue;
    for (const char* p : {"C04", "C17"})
      sim::fail(p, "stuck-connection", "connection %d was kept for %lld ms, longer than its reconnect period and grace of at most %lld ms", s->id,
                (long long)(life / MS), (long long)(life_bound() / MS));
  }
  if (W->logs_errors)
    for (auto& c : codes) {
      int told = 0;
      for (auto& e : W->errors) told += e.find(std::to_string(c.first)) != std::string::npos;
      sim::probe("error_status_told");
      if (told < c.second)
        sim::fail("C17", "untold-error", "%d satellites answered with status %d, but only %d errors that are logged name it", c.second, c.first, told);
    }
}
inline bool slots_live() {
  int n = 0;
  for (auto& s : W->sats)
    if (s->open() && s->epoch == sim::fork_epoch() && s->c->established() && (s->healthy || s->beh == NORMAL)) ++n;
  return n == W->num_conn;
}
// After the faults: everything recovers and drains within bounded time.
inline void recovery() {
  int64_t bound = W->recover_bound();
  {  // and what is left has to get through
    sim::Harness h;
    int64_t bytes = 0;
    for (auto& r : W->spans)
      if (r->epoch == sim::fork_epoch() && !r->refused && !r->delivered) bytes += (int64_t)r->payload.size() + 300;
    bound += 2 * bytes / (int64_t)std::min<size_t>(W->sndbuf, 65536) * 6 * MS;
  }
  bool ok = sim::wait_until([] { return slots_live() && W->rec->span_buffer().size() == 0; }, bound, 2 * MS);
  if (!ok) {
    sim::Harness h;
    size_t left = W->rec->span_buffer().size();
    for (const char* p : {"C04", "C17", "C18"})
      if (left)
        sim::fail(p, "not-drained", "%zu spans are still buffered %lld ms after the faults stopped (%zu of %d connections open)", left, (long long)(bound / MS),
                  sim::open_tcp(), W->num_conn);
      else
        sim::fail(p, "not-recovered", "only %zu of %d connections are open %lld ms after the faults stopped", sim::open_tcp(), W->num_conn, (long long)(bound / MS));
  }
  if (!do_flush(2 * W->polling + W->reporting + SEC) && W->finishing.empty())
    sim::fail("C06", "false-failure", "flush fails although nothing is buffered");
  std::string why;
  // A connection that is being opened to an address given up holds a count.
  ok = sim::wait_until([&] { return balanced(); }, 3 * SEC + (W->retired.empty() ? 0 : W->recover_bound()), 5 * MS);
  if (!ok && !balanced(&why))
    for (const char* p : {"C03", "C09"})
      if (p[2] == '3' || W->forked) sim::fail(p, "conservation", "%s", why.c_str());
}
// An idle recorder flushes once per reporting period and tells of each flush.
inline void idle_phase() {
  if (W->forked || W->bystanders || W->reporting < 20 * MS || W->reporting > 2 * SEC || W->rec->span_buffer().size()) return;
  std::this_thread::sleep_for(std::chrono::nanoseconds(2 * W->polling + 5 * MS + W->stall_slack));
  int64_t t0 = sim::now(), f0 = W->flushes;
  std::this_thread::sleep_for(std::chrono::nanoseconds(sim::range(sim::WORK, 3, 6) * W->reporting));
  sim::Harness h;
  int64_t t = sim::now() - t0, f = W->flushes - f0, slack = 20 * MS + 4 * W->stall_slack;
  sim::probe("idle_flushes");
  if (f < (t - slack) / (W->reporting + 2 * MS) - 1 || f > t / W->reporting + 1)
    sim::fail("C15", "flush-events", "the observer heard of %lld flushes in %lld ms of an idle recorder that flushes every %lld ms", (long long)f, (long long)(t / MS),
              (long long)(W->reporting / MS));
}
// Spans finished on a healthy, recovered tracer are delivered.
inline void healthy_phase(int n) {
  if (sim::checking("C15") && W->finishing.empty() && sim::chance(sim::WORK, 0.3)) idle_phase();
  std::vector<int> ids;
  n = std::min<int>(n, (int)W->cap);
  size_t base = W->spans.size();
  ++W->phase;
  int64_t sleep = sim::range(sim::WORK, 0, 2) * W->reporting / 2;
  if (sleep) std::this_thread::sleep_for(std::chrono::nanoseconds(sleep));
  // what was left partly written before may take its time
  auto idle = [] {
    for (auto& c : W->sats)
      if (c->open() && (c->partial() || c->ambiguous())) return false;
    return W->rec->span_buffer().size() == 0;
  };
  if (!sim::wait_until(idle, 2 * life_bound(), 5 * MS)) return;
  for (int i = 0; i < n; ++i) ids.push_back(one_span(modest_size()));
  int64_t patience = sim::pick<int64_t>(sim::WORK, {2 * SEC, FOREVER, FOREVER / 2, 3600 * 24 * 400 * SEC});
  if (!sim::checking("C06")) patience = 2 * SEC;
  std::vector<std::thread> more;  // flushing too
  for (int k = sim::chance(sim::WORK, 0.3) ? (int)sim::range(sim::WORK, 1, 2) : 0; k > 0; --k)
    more.emplace_back([] { do_flush(2 * SEC); });
  bool flushed = sim::chance(sim::WORK, 0.5) && do_flush(patience);
  for (auto& t : more) t.join();
  int64_t bound = W->reporting + 3 * W->polling + us_of(W->ro.satellite_graceful_stream_shutdown_timeout) + 2 * SEC + W->stall_slack;
  auto done = [&] {
    for (int i : ids)
      if (!W->spans[(size_t)i]->delivered) return false;
    return true;
  };
  bool ok = sim::wait_until(done, bound, 2 * MS);
  sim::Harness h;
  for (int i : ids) {
    auto& r = *W->spans[(size_t)i];
    if (r.refused)
      for (const char* p : {"C04", "C01"}) sim::fail(p, "refused", "span %s was refused although only %d spans were finished and %zu fit the buffer", r.name.c_str(), (int)(W->spans.size() - base), W->cap);
  }
  if (!ok)
    for (int i : ids)
      if (!W->spans[(size_t)i]->delivered)
        for (const char* p : {"C04", "C01"})
          sim::fail(p, "undelivered", "span %s, finished while all was well%s, wasn't delivered within %lld ms", W->spans[(size_t)i]->name.c_str(),
                    flushed ? " and flushed" : "", (long long)(bound / MS));
}
// ---------------------------------------------------------------- shutdown --
struct Ending {
  int64_t requested = -1;  // when the first shutdown request was made
  bool done = false;       // a shutdown reported success
};
inline Ending E;

inline void forbid_connections_from(int64_t t) {
  sim::at(t, [] { W->closed_for_good = true; });
}
inline int64_t shutdown_bound() { return us_of(W->ro.satellite_graceful_stream_shutdown_timeout) + 3 * W->polling + 30 * MS + 5 * W->stall_slack; }

inline void do_shutdown(int64_t timeout) {
  int64_t t0 = sim::now();
  {
    sim::Harness h;
    if (E.requested < 0) {
      E.requested = t0;
      forbid_connections_from(t0 + 2 * W->polling + 20 * MS + 2 * W->stall_slack);
    }
  }
  bool ok = W->rec->ShutdownWithTimeout(std::chrono::nanoseconds(timeout));
  sim::Harness h;
  int64_t dt = sim::now() - t0, slack = 10 * MS + 4 * W->stall_slack;
  sim::log("shutdown %s after %lld of %lld ms", ok ? "done" : "timed out", (long long)(dt / MS), (long long)(timeout / MS));
  sim::probe(ok ? "shutdown_true" : "shutdown_false");
  if (dt > plus(std::max<int64_t>(timeout, 0), slack))
    sim::fail("C07", "overdue", "a shutdown with a timeout of %lld ms returned after %lld ms", (long long)(timeout / MS), (long long)(dt / MS));
  if (!ok && dt < timeout)
    sim::fail("C07", "early-failure", "a shutdown with a timeout of %lld ms failed after %lld us", (long long)(timeout / MS), (long long)(dt / US));
  if (ok && sim::open_tcp() && !W->bystanders)
    sim::fail("C07", "false-success", "a shutdown reports success while %zu connections are open", sim::open_tcp());
  if (E.done && !ok) sim::fail("C07", "undone", "a shutdown fails after an earlier one succeeded");
  if (!ok && t0 + dt - E.requested > shutdown_bound() && t0 - E.requested > W->polling)
    sim::fail("C07", "never-ends", "the recorder isn't shut down %lld ms after it was first asked to (grace %lld ms)", (long long)((t0 + dt - E.requested) / MS),
              (long long)(us_of(W->ro.satellite_graceful_stream_shutdown_timeout) / MS));
  if (ok && !E.done) {
    E.done = true;
    if (W->clean)
      for (auto& s : W->sats)
        if (s->opened < t0 && s->closed_at >= t0) {
          if (!s->terminal)
            for (const char* p : {"C07", "C02"})
              sim::fail(p, "not-orderly", "connection %d was shut down without the terminal chunk although its satellite cooperated", s->id);
        }
  }
}
// Destroys the tracer and checks that nothing of it stays behind.
inline void destroy() {
  int64_t t0 = sim::now();
  std::vector<int> before;
  {
    sim::Harness h;
    for (auto& r : W->spans)
      if (r->epoch == sim::fork_epoch() && r->fin_after >= 0 && !r->refused) before.push_back(r->id);
  }
  Ready ready;
  W->tracer.reset();
  {
    sim::Harness h;
    std::string who;
    if (E.requested < 0 && ready.lasting(true) && !all_begun(before, &who))
      sim::fail("C07", "not-handed-over", "span %s was still buffered when the tracer was destroyed, although a connection was ready to take it", who.c_str());
    if (E.requested < 0)
      for (auto& c : ready.conns)
        if (c.s->c->last_blocked() < t0 && !c.s->terminal && !c.s->client_reset && !c.s->killed)
          for (const char* p : {"C07", "C02"}) sim::fail(p, "not-ended", "the tracer was destroyed without ending the report on connection %d, although it could be written", c.s->id);
    W->rec = nullptr;
    W->closed_for_good = true;
    int64_t dt = sim::now() - t0, due = 2 * W->polling + 20 * MS + 4 * W->stall_slack;
    if (dt > due) sim::fail("C07", "destroy-blocks", "destroying the tracer took %lld ms (polling period %lld ms)", (long long)(dt / MS), (long long)(W->polling / MS));
    if (sim::open_fds())
      for (const char* p : {"C22", "C07"}) sim::fail(p, "leak", "%zu descriptors stay open after the tracer was destroyed", sim::open_fds());
    if (sim::live_threads() > 1) sim::fail("C07", "thread-left", "%zu threads stay behind after the tracer was destroyed", sim::live_threads() - 1);
    sim::check_leaks("C07", "after the tracer was destroyed");
  }
}
}  // namespace st
