// Just enough of the DNS protocol for simulated name servers.
#pragma once
#include <arpa/inet.h>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "rt/sim.h"

namespace dns {
inline sim::Addr ip4(uint8_t a, uint8_t b) {
  sim::Addr r{};
  r.family = AF_INET;
  uint8_t x[4] = {10, 1, a, b};
  memcpy(r.ip, x, 4);
  return r;
}
inline sim::Addr ip6(uint8_t a, uint8_t b) {
  sim::Addr r{};
  r.family = AF_INET6;
  r.ip[0] = 0xfd;
  r.ip[14] = a;
  r.ip[15] = b;
  return r;
}
struct Question {
  std::string name;
  uint16_t type = 0, id = 0;
  size_t end = 0;
  bool ok = false;
};
inline Question parse_query(const std::string& q) {
  Question r;
  if (q.size() < 17) return r;
  r.id = (uint16_t)(((uint8_t)q[0] << 8) | (uint8_t)q[1]);
  size_t i = 12;
  while (i < q.size() && q[i]) {
    size_t n = (uint8_t)q[i];
    if (n > 63 || i + 1 + n >= q.size()) return r;
    if (!r.name.empty()) r.name += '.';
    r.name += q.substr(i + 1, n);
    i += 1 + n;
  }
  if (i + 5 > q.size()) return r;
  r.type = (uint16_t)(((uint8_t)q[i + 1] << 8) | (uint8_t)q[i + 2]);
  r.end = i + 5;
  r.ok = true;
  return r;
}
inline std::string dns_reply(const std::string& q, const Question& qu, int rcode, const std::vector<sim::Addr>& as, int ttl = 60) {
  std::string r = q.substr(0, qu.end);
  r[2] = (char)0x81;
  r[3] = (char)(0x80 | rcode);
  r[4] = 0;
  r[5] = 1;
  r[6] = 0;
  r[7] = (char)as.size();
  for (int i = 8; i < 12; ++i) r[(size_t)i] = 0;
  for (auto& a : as) {
    int n = a.family == AF_INET ? 4 : 16;
    r += std::string("\xc0\x0c", 2);
    r += (char)0;
    r += (char)(a.family == AF_INET ? 1 : 28);
    r += std::string("\0\1", 2);
    r += std::string("\0\0\0", 3);
    r += (char)ttl;
    r += (char)0;
    r += (char)n;
    r.append((const char*)a.ip, (size_t)n);
  }
  return r;
}
// A reply that tells the client to ask again over TCP.
inline std::string truncated(const std::string& q, const Question& qu, const std::vector<sim::Addr>& as) {
  std::string r = dns_reply(q, qu, 0, as);
  r[2] = (char)(r[2] | 2);
  return r;
}
#define TCP_RESET std::string("\1reset")
#define TCP_FIN std::string("\1fin")
// A name server's side of one TCP connection.
struct TcpServer : sim::Peer, std::enable_shared_from_this<TcpServer> {
  sim::UdpServer serve;
  std::string in;
  sim::Conn* c = nullptr;
  bool dead = false;
  int64_t busy = 0;  // one reply after the other
  size_t piece = 1 << 20;  // most bytes sent at once
  int64_t gap = 0;         // between pieces
  void on_data(sim::Conn& conn, const char* p, size_t n) override {
    c = &conn;
    in.append(p, n);
    while (in.size() >= 2) {
      size_t len = ((size_t)(uint8_t)in[0] << 8) | (uint8_t)in[1];
      if (in.size() < 2 + len) return;
      std::string q = in.substr(2, len);
      in.erase(0, 2 + len);
      auto me = shared_from_this();
      for (auto& r : serve(conn.addr(), q)) {
        std::string d = r.second;
        if (d == TCP_RESET || d == TCP_FIN) {
          sim::after(r.first, [me, d] {
            if (me->dead) return;
            me->dead = true;
            if (d == TCP_RESET) me->c->reset();
            else me->c->close_gracefully();
          });
          continue;
        }
        std::string m;
        m += (char)(d.size() >> 8);
        m += (char)d.size();
        m += d;
        sim::after(r.first, [me, m] {
          int64_t at = std::max<int64_t>(0, me->busy - sim::now());
          for (size_t i = 0; i < m.size(); i += me->piece, at += me->gap) {
            me->busy = sim::now() + at + me->gap;
            std::string part = m.substr(i, me->piece);
            sim::after(at, [me, part] {
              if (!me->dead) me->c->send(part);
            });
          }
        });
      }
    }
  }
  void on_fin(sim::Conn&) override { dead = true; }
  void on_reset(sim::Conn&) override { dead = true; }
};
}  // namespace dns
