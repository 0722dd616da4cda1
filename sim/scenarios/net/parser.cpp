// The response status line, cut into any pieces.
#include <algorithm>
#include <stdexcept>
#include "kit/kit.h"
#include "recorder/stream_recorder/status_line_parser.h"
using namespace lightstep;

// A satellite that never ends its status line mustn't use up the host's memory.
static void endless() {
  StatusLineParser parser;
  int64_t before = sim::live_bytes();
  std::string piece = kit::letters(7, (size_t)sim::pick<int>(sim::WORK, {512, 100, 5000}));
  std::replace(piece.begin(), piece.end(), '\r', '!');
  bool spaces = sim::chance(sim::WORK, 0.5);
  if (spaces) parser.Parse("HTTP/1.1 200 ");
  for (size_t n = 0; n < 3u << 19; n += piece.size()) {
    try {
      parser.Parse(opentracing::string_view{piece.data(), piece.size()});
    } catch (const std::exception&) {
      sim::probe("endless_rejected");
      break;  // the connection is given up
    }
    if (parser.completed()) return sim::fail("C17", "completed", "an endless status line is complete");
    if (sim::live_bytes() - before > 1 << 20)
      return sim::fail("C18", "endless", "%lld bytes are held of a status line that doesn't end", (long long)(sim::live_bytes() - before));
  }
}

SIM_SCENARIO(parser) {
  if (sim::chance(sim::WORK, 0.02)) return endless();
  const char* P = "C17";
  StatusLineParser parser;
  int rounds = (int)sim::range(sim::WORK, 1, 5);
  for (int r = 0; r < rounds; ++r) {
    int code = sim::chance(sim::WORK, 0.3) ? 200 : (int)sim::range(sim::WORK, 100, 999);
    std::string reason, all, version = sim::pick<const char*>(sim::WORK, {"HTTP/1.1", "HTTP/1.0", "HTTP/2"});
    int words = (int)sim::range(sim::WORK, 0, 4);
    for (int w = 0; w < words; ++w) reason += (w ? " " : "") + kit::letters((uint64_t)sim::choose(sim::WORK, 50), (size_t)sim::pick<int64_t>(sim::WORK, {2, 1, 30, 3000}));
    std::replace(reason.begin(), reason.end(), '\r', '!');
    int bad = (int)sim::choose(sim::WORK, 5);  // 0-2: none
    std::string line;
    if (bad == 3)
      line = sim::pick<const char*>(sim::WORK, {"", "HTTP/1.1", "garbage", "HTTP/1.1\t200\tOK"});
    else if (bad == 4)
      line = version + " " + sim::pick<const char*>(sim::WORK, {"abc", "", "x200", "OK"}) + " " + reason;
    else
      line = version + " " + std::to_string(code) + " " + reason;
    all = line + "\r\n";
    // what follows must not matter
    if (sim::chance(sim::WORK, 0.7)) all += sim::pick<const char*>(sim::WORK, {"Content-Length: 0\r\n\r\n", "\r\n\r\nHTTP/1.1 503 Later\r\n", "x"});
    size_t at = 0, threw = 0;
    double p_rest = sim::pick<double>(sim::WORK, {0.3, 0.3, 0.03, 0});
    int64_t most = sim::pick<int64_t>(sim::WORK, {8, 8, 1, 1500});
    while (at < all.size() && !threw) {
      size_t n = sim::chance(sim::WORK, p_rest) ? all.size() - at : (size_t)sim::range(sim::WORK, 1, most);
      n = std::min(n, all.size() - at);
      std::string piece = all.substr(at, n);  // the caller's buffer goes away
      at += n;
      bool before = parser.completed();
      try {
        parser.Parse(opentracing::string_view{piece.data(), piece.size()});
      } catch (const std::exception&) {
        threw = at;
      }
      std::fill(piece.begin(), piece.end(), '#');
      if (threw) break;
      bool want = at > line.size();
      if (bad != 3 && parser.completed() != want) return sim::fail(P, "completed", "after %zu bytes of a status line of %zu the parser is %scomplete", at, line.size() + 1, parser.completed() ? "" : "in");
      if (before && !parser.completed()) return sim::fail(P, "completed", "a complete status line becomes incomplete");
      if (sim::chance(sim::WORK, 0.1)) parser.Parse(opentracing::string_view{"", 0});
    }
    if (bad == 3) {
      if (!threw) sim::fail(P, "accepted", "the status line '%s' is accepted", line.c_str());
      if (parser.completed()) sim::fail(P, "completed", "a rejected status line counts as complete");
    } else if (threw) {
      sim::fail(P, "rejected", "a status line is rejected after %zu of %zu bytes: %.60s", threw, line.size(), line.c_str());
    } else {
      std::string got{parser.reason().data(), parser.reason().size()};
      if (bad == 4) {
        if (parser.status_code() == 200) sim::fail(P, "accepted", "the status line '%.60s' counts as success", line.c_str());
      } else if (parser.status_code() != code) {
        sim::fail(P, "code", "status %d is read as %d", code, parser.status_code());
      }
      if (got != reason) sim::fail(P, "reason", "reason '%.40s' is read as '%.40s'", reason.c_str(), got.c_str());
    }
    if (threw && sim::chance(sim::WORK, 0.5)) continue;  // usable as it is
    parser.Reset();
    if (parser.completed()) sim::fail(P, "completed", "a reset parser is complete");
  }
}
