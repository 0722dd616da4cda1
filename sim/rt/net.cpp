// Simulated descriptors: TCP client sockets, UDP, epoll, pipes, eventfd.
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include "internal.h"

namespace sim {
constexpr int kFdBase = 500;
enum FdType { T_TCP, T_UDP, T_EPOLL, T_PIPE_R, T_PIPE_W, T_EVENTFD };
enum CState { C_NEW, C_CONNECTING, C_CONNECTED, C_DEAD };

struct Tcp;
struct Obj {
  FdType type;
  int fd = -1;
  bool nonblock = false;
  uint64_t gen = 0;
  std::shared_ptr<Tcp> tcp;
  // udp
  std::deque<std::pair<Addr, std::string>> dgrams;
  Addr peer{};
  bool has_peer = false;
  // epoll
  std::map<int, epoll_event> watch;
  // pipe / eventfd
  std::shared_ptr<std::deque<char>> pipe;
  std::shared_ptr<int> pipe_writers;
  uint64_t counter = 0;
};
struct Tcp {
  int id = 0;
  Addr addr{};
  CState st = C_NEW;
  int so_error = 0;
  size_t cap = 65536;
  std::deque<char> inflight;
  bool paused = false, delivering = false;
  int64_t latency = 50 * US;
  size_t mss = 1 << 30;
  std::deque<char> recv;
  bool fin_rcvd = false, rst_rcvd = false;
  bool client_closed = false, client_fin_sent = false, client_shut = false;
  bool peer_closed = false;  // peer closed its socket fully: data is answered by RST
  bool peer_dead = false;    // peer saw RST / sent RST
  std::shared_ptr<Peer> peer;
  Conn conn;
  int fork_epoch = 0;
  uint64_t accepted = 0;  // bytes taken from the client
  int64_t blocked = -1, longest_block = 0;  // since when the client waits to write
  int64_t unblocked = -1;                   // when it last stopped waiting
  int64_t ended = -1, closed_at = -1;       // when the client could see the end, and when it closed
  bool eof_read = false;                    // the client read up to the end
  int flood = 0, flood_reads = 0;           // polls for which data comes as fast as it's read
};
static std::vector<Obj*>* g_fds;
static std::vector<std::shared_ptr<Tcp>>* g_tcps;
static Listener* g_listener;
static UdpServer* g_udp;
static std::function<int64_t(int, size_t)>* g_script;
static uint64_t g_gen;

void net_reset() {
  g_fds = new std::vector<Obj*>;
  g_tcps = new std::vector<std::shared_ptr<Tcp>>;
  g_listener = new Listener;
  g_udp = new UdpServer;
  g_script = new std::function<int64_t(int, size_t)>;
}
void net_on_fork_child() {}
void set_listener(Listener l) {
  RtGuard g;
  *g_listener = std::move(l);
}
void set_udp_server(UdpServer s) {
  RtGuard g;
  *g_udp = std::move(s);
}
void set_write_script(std::function<int64_t(int, size_t)> f) {
  RtGuard g;
  *g_script = std::move(f);
}
size_t open_fds() {
  size_t n = 0;
  for (auto* o : *g_fds) n += o != nullptr;
  return n;
}
size_t open_tcp() {
  size_t n = 0;
  for (auto* o : *g_fds) n += o && o->type == T_TCP && o->tcp->st != C_NEW && o->tcp->addr.port != 53;
  return n;
}
std::string Addr::str() const {
  char b[80], c[64];
  inet_ntop(family, ip, c, sizeof c);
  snprintf(b, sizeof b, "%s:%d", c, port);
  return b;
}
static Addr from_sa(const sockaddr* sa) {
  Addr a{};
  a.family = sa->sa_family;
  if (sa->sa_family == AF_INET) {
    auto* s = (const sockaddr_in*)sa;
    memcpy(a.ip, &s->sin_addr, 4);
    a.port = ntohs(s->sin_port);
  } else if (sa->sa_family == AF_INET6) {
    auto* s = (const sockaddr_in6*)sa;
    memcpy(a.ip, &s->sin6_addr, 16);
    a.port = ntohs(s->sin6_port);
  }
  return a;
}
static void to_sa(const Addr& a, sockaddr* sa, socklen_t* n) {
  if (!sa || !n) return;
  sockaddr_storage ss;
  memset(&ss, 0, sizeof ss);
  socklen_t len = sizeof(sockaddr_in);
  if (a.family == AF_INET6) {
    auto* s = (sockaddr_in6*)&ss;
    s->sin6_family = AF_INET6;
    memcpy(&s->sin6_addr, a.ip, 16);
    s->sin6_port = htons(a.port);
    len = sizeof *s;
  } else {
    auto* s = (sockaddr_in*)&ss;
    s->sin_family = AF_INET;
    memcpy(&s->sin_addr, a.ip, 4);
    s->sin_port = htons(a.port);
  }
  memcpy(sa, &ss, std::min(*n, len));
  *n = len;
}

// A host that runs with its standard input closed gets descriptor 0 for a socket.
static int fd_number(size_t i) {
  if (W.cfg.stdin_closed) return i == 0 ? 0 : kFdBase + (int)i - 1;
  return kFdBase + (int)i;
}
static size_t fd_index(int fd) {
  if (W.cfg.stdin_closed && fd == 0) return 0;
  if (fd < kFdBase) return (size_t)-1;
  return (size_t)(fd - kFdBase) + (W.cfg.stdin_closed ? 1 : 0);
}
static int put_fd(Obj* o) {
  o->gen = ++g_gen;
  for (size_t i = 0; i < g_fds->size(); ++i)
    if (!(*g_fds)[i]) {
      (*g_fds)[i] = o;
      return o->fd = fd_number(i);
    }
  g_fds->push_back(o);
  return o->fd = fd_number(g_fds->size() - 1);
}
static Obj* get(int fd) {
  if (!g_fds || fd_index(fd) >= g_fds->size()) return nullptr;
  return (*g_fds)[fd_index(fd)];
}
static bool is_sim(int fd) { return W.active && (fd >= kFdBase || (fd == 0 && W.cfg.stdin_closed)); }

template <class F>
static void harness(F&& f) {
  Thread* me = tls_self;
  int rt = tls_in_rt;
  tls_in_rt = 0;
  ++me->nosim;
  ++me->noyield;
  int64_t fa = me->fail_alloc;
  me->fail_alloc = 0;
  f();
  me->fail_alloc = fa;
  --me->nosim;
  --me->noyield;
  tls_in_rt = rt;
}

static const char g_net_obj = 0;
// descriptor readiness may have changed
static void poke() { wake_all_on(&g_net_obj); }

// --------------------------------------------------------------- readiness --
static uint32_t readiness(Obj* o) {
  uint32_t r = 0;
  switch (o->type) {
    case T_TCP: {
      Tcp& t = *o->tcp;
      if (t.st == C_NEW) return EPOLLOUT | EPOLLHUP;
      if (t.st == C_CONNECTING) return 0;
      if (t.st == C_DEAD) {
        r = EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP;
        if (t.so_error) r |= EPOLLERR;
        return r;
      }
      if (!t.recv.empty() || t.fin_rcvd) r |= EPOLLIN;
      if (t.fin_rcvd) r |= EPOLLRDHUP;
      if ((t.cap - std::min(t.cap, t.inflight.size())) * 3 >= t.cap || t.client_shut) r |= EPOLLOUT;
      if (t.fin_rcvd && t.client_shut) r |= EPOLLHUP;
      return r;
    }
    case T_UDP:
      r = EPOLLOUT;
      if (!o->dgrams.empty()) r |= EPOLLIN;
      return r;
    case T_PIPE_R:
      if (!o->pipe->empty()) r |= EPOLLIN;
      if (*o->pipe_writers == 0) r |= EPOLLHUP;
      return r;
    case T_PIPE_W:
      return EPOLLOUT;
    case T_EVENTFD:
      return EPOLLOUT | (o->counter ? EPOLLIN : 0);
    default:
      return 0;
  }
}

// --------------------------------------------------------------------- tcp --
static bool tcp_writable(const Tcp& t) {
  if (t.st == C_CONNECTING) return false;
  return t.st != C_CONNECTED || (t.cap - std::min(t.cap, t.inflight.size())) * 3 >= t.cap || t.client_shut;
}
static void note_blocked(Tcp& t) {
  if (t.blocked < 0 && !t.client_closed && !tcp_writable(t)) t.blocked = W.t;
}
static void note_writable(Tcp& t) {
  if (t.blocked < 0 || !(t.client_closed || tcp_writable(t))) return;
  t.longest_block = std::max(t.longest_block, W.t - t.blocked);
  t.unblocked = W.t;
  t.blocked = -1;
}
static void note_end(Tcp& t) {
  if (t.ended < 0 && !t.client_closed) t.ended = W.t;
}
static void deliver(std::shared_ptr<Tcp> t);
static void schedule_delivery(const std::shared_ptr<Tcp>& t) {
  if (t->delivering || t->paused) return;
  if (t->inflight.empty() && !(t->client_closed || t->client_shut)) return;
  t->delivering = true;
  after(t->latency, [t] {
    t->delivering = false;
    deliver(t);
  });
}
static void client_gets_rst(const std::shared_ptr<Tcp>& t) {
  if (t->rst_rcvd) return;
  t->rst_rcvd = true;
  t->inflight.clear();
  t->so_error = t->fin_rcvd ? EPIPE : ECONNRESET;
  t->st = C_DEAD;
  note_writable(*t);
  note_end(*t);
  log("conn %d: reset reaches the client", t->id);
  poke();
}
static void deliver(std::shared_ptr<Tcp> t) {
  RtGuard g;
  if (t->st == C_DEAD || t->peer_dead) return;
  if (t->paused) return;
  if (t->inflight.empty()) {
    if ((t->client_closed || t->client_shut) && !t->client_fin_sent) {
      t->client_fin_sent = true;
      log("conn %d: client fin", t->id);
      if (!t->peer_closed && t->peer) harness([&] { t->peer->on_fin(t->conn); });
    }
    return;
  }
  if (t->peer_closed) {
    // nobody reads any more: the peer's kernel answers with a reset
    log("conn %d: data for a closed peer (%zu bytes lost)", t->id, t->inflight.size());
    t->inflight.clear();
    t->peer_dead = true;
    note_writable(*t);
    after(t->latency, [t] {
      RtGuard g;
      client_gets_rst(t);
    });
    poke();
    return;
  }
  size_t n = std::min(t->inflight.size(), t->mss);
  std::string d(t->inflight.begin(), t->inflight.begin() + (long)n);
  t->inflight.erase(t->inflight.begin(), t->inflight.begin() + (long)n);
  note_writable(*t);
  poke();
  if (t->peer) harness([&] { t->peer->on_data(t->conn, d.data(), d.size()); });
  schedule_delivery(t);
}
int Conn::id() const { return ((Tcp*)impl)->id; }
const Addr& Conn::addr() const { return ((Tcp*)impl)->addr; }
static std::shared_ptr<Tcp> sp(const Conn* c) { return (*g_tcps)[(size_t)((Tcp*)c->impl)->id]; }
void Conn::send(const std::string& b) {
  RtGuard g;
  auto t = sp(this);
  std::string d = b;
  after(t->latency, [t, d] {
    RtGuard g;
    if (t->st != C_CONNECTED || t->fin_rcvd) return;
    if (t->client_closed) {
      if (!t->peer_dead) {
        t->peer_dead = true;
        t->inflight.clear();
        if (t->peer) harness([&] { t->peer->on_reset(t->conn); });
      }
      return;
    }
    t->recv.insert(t->recv.end(), d.begin(), d.end());
    log("conn %d: %zu bytes from peer", t->id, d.size());
    poke();
  });
}
void Conn::fin() {
  RtGuard g;
  auto t = sp(this);
  after(t->latency, [t] {
    RtGuard g;
    if (t->st != C_CONNECTED || t->fin_rcvd) return;
    t->fin_rcvd = true;
    note_end(*t);
    log("conn %d: fin from peer", t->id);
    poke();
  });
}
void Conn::close_gracefully() {
  RtGuard g;
  auto t = sp(this);
  t->peer_closed = true;
  fin();
  schedule_delivery(t);
}
void Conn::reset() {
  RtGuard g;
  auto t = sp(this);
  t->peer_dead = true;
  fault("peer_reset");
  after(t->latency, [t] {
    RtGuard g;
    if (t->st != C_CONNECTED) return;
    client_gets_rst(t);
  });
}
void Conn::flood(int polls) {
  RtGuard g;
  auto t = sp(this);
  if (t->st != C_CONNECTED || t->fin_rcvd || t->client_closed) return;
  fault("flood");
  t->flood = polls;
  t->recv.push_back('z');
  poke();
}
void Conn::pause(bool p) {
  RtGuard g;
  auto t = sp(this);
  if (p && !t->paused) fault("peer_stall");
  t->paused = p;
  if (!p) schedule_delivery(t);
}
bool Conn::client_closed() const { return sp(this)->client_closed; }
bool Conn::established() const { return sp(this)->st == C_CONNECTED; }
bool Conn::dead() const {
  auto t = sp(this);
  return t->st == C_DEAD || t->peer_dead;
}
uint64_t Conn::accepted() const { return sp(this)->accepted; }
size_t Conn::space() const {
  auto t = sp(this);
  return t->st == C_CONNECTED ? t->cap - std::min(t->cap, t->inflight.size()) : 0;
}
int64_t Conn::longest_block() const {
  auto t = sp(this);
  return std::max(t->longest_block, t->blocked < 0 ? 0 : W.t - t->blocked);
}
int64_t Conn::last_blocked() const {
  auto t = sp(this);
  return t->blocked >= 0 ? W.t : t->unblocked;
}
int64_t Conn::ignored_end() const {
  auto t = sp(this);
  return t->ended < 0 ? 0 : (t->closed_at >= 0 ? t->closed_at : W.t) - t->ended;
}
bool Conn::eof_read() const { return sp(this)->eof_read; }
int Conn::owner_epoch() const { return sp(this)->fork_epoch; }
void Conn::set_latency(int64_t l) { sp(this)->latency = l; }

static std::shared_ptr<Tcp> new_tcp() {
  auto t = std::make_shared<Tcp>();
  t->id = (int)g_tcps->size();
  t->conn.impl = t.get();
  t->fork_epoch = W.fork_epoch;
  g_tcps->push_back(t);
  return t;
}
int make_stream(std::shared_ptr<Peer> peer, size_t sndbuf, int64_t latency, Conn** out) {
  RtGuard g;
  auto* o = new Obj;
  o->type = T_TCP;
  o->nonblock = true;
  o->tcp = new_tcp();
  o->tcp->st = C_CONNECTED;
  o->tcp->peer = std::move(peer);
  o->tcp->cap = sndbuf;
  o->tcp->latency = latency;
  o->tcp->addr.family = AF_INET;
  int fd = put_fd(o);
  if (out) *out = &o->tcp->conn;
  return fd;
}

static void sigpipe(int fd) {
  struct sigaction sa;
  sigaction(SIGPIPE, nullptr, &sa);
  sigset_t m;
  sigprocmask(SIG_SETMASK, nullptr, &m);
  fault("sigpipe");
  if (sa.sa_handler == SIG_DFL && !sigismember(&m, SIGPIPE))
    fail("*", "sigpipe", "a write to descriptor %d, whose connection the peer had closed, raises SIGPIPE; the host process dies", fd);
}

static ssize_t tcp_write(Obj* o, const struct iovec* iov, int n, int flags) {
  std::shared_ptr<Tcp> t = o->tcp;
  size_t total = 0;
  for (int i = 0; i < n; ++i) total += iov[i].iov_len;
  int64_t forced = -1;
  if (*g_script && t->st == C_CONNECTED) {
    harness([&] { forced = (*g_script)(o->fd, total); });
    if (forced < 0) {
      errno = (int)-forced;
      return -1;
    }
  }
  for (;;) {
    if (t->st == C_CONNECTING) {
      if (o->nonblock || (flags & MSG_DONTWAIT)) {
        errno = EAGAIN;
        return -1;
      }
    } else if (t->st == C_NEW) {
      errno = EPIPE;
      if (!(flags & MSG_NOSIGNAL)) sigpipe(o->fd);
      return -1;
    } else if (t->st == C_DEAD || t->client_shut) {
      if (t->so_error && t->so_error != EPIPE) {
        errno = t->so_error;
        t->so_error = 0;
        return -1;
      }
      t->so_error = 0;
      if (!(flags & MSG_NOSIGNAL)) sigpipe(o->fd);
      errno = EPIPE;
      return -1;
    } else {
      if (*g_script) {
        break;
      }
      if (W.cfg.write_error > 0 && chance(FAULT, W.cfg.write_error)) {
        fault("write_error");
        t->peer_dead = true;
        t->inflight.clear();
        t->st = C_DEAD;
        t->rst_rcvd = true;
        note_end(*t);
        if (t->peer) harness([&] { t->peer->on_reset(t->conn); });
        errno = ECONNRESET;
        return -1;
      }
      if (W.cfg.eagain_write > 0 && chance(FAULT, W.cfg.eagain_write)) {
        fault("write_eagain");
        note_blocked(*t);
        errno = EAGAIN;
        return -1;
      }
      if (t->inflight.size() < t->cap || total == 0) break;
      if (o->nonblock || (flags & MSG_DONTWAIT)) {
        fault("write_would_block");
        note_blocked(*t);
        errno = EAGAIN;
        return -1;
      }
    }
    block(&g_net_obj, "socket write", -1);
  }
  size_t room = t->cap - std::min(t->cap, t->inflight.size());
  size_t k = std::min(total, room);
  if (*g_script) {
    k = std::min(total, (size_t)forced);
    if (k < total) fault("write_short");
  } else {
    if (k < total) fault("write_short_full");
    if (k > 1 && W.cfg.short_write > 0 && chance(FAULT, W.cfg.short_write)) {
      k = 1 + (size_t)choose(FAULT, k - 1);
      fault("write_short");
    }
  }
  size_t left = k;
  t->accepted += k;
  if (t->fork_epoch != W.fork_epoch)
    fail("C09", "inherited-write", "a forked child writes %zu bytes on connection %d of its parent", k, t->id);
  for (int i = 0; i < n && left; ++i) {
    size_t c = std::min(left, iov[i].iov_len);
    auto* b = (const char*)iov[i].iov_base;
    if (heap_check_failed((uintptr_t)b, c) && c)
      fail("*", "bad-memory-access", "a write passes invalid heap memory (%zu bytes) to the kernel", c);
    t->inflight.insert(t->inflight.end(), b, b + c);
    if (t->peer && c) harness([&] { t->peer->on_written(t->conn, b, c); });
    left -= c;
  }
  log("conn %d: wrote %zu of %zu", t->id, k, total);
  if (k < total) note_blocked(*t);
  schedule_delivery(t);
  return (ssize_t)k;
}
static ssize_t tcp_read(Obj* o, char* b, size_t n, int flags) {
  std::shared_ptr<Tcp> t = o->tcp;
  for (;;) {
    if (t->flood > 0 && t->st == C_CONNECTED && !t->fin_rcvd) {
      while (t->recv.size() <= n) t->recv.push_back('z');
      if (++t->flood_reads > 20000) fail("C17", "flooded", "connection %d is read for ever while its satellite sends without end: %d reads without a look at anything else", t->id, t->flood_reads);
    }
    if (!t->recv.empty()) {
      size_t k = std::min(n, t->recv.size());
      std::copy(t->recv.begin(), t->recv.begin() + (long)k, b);
      if (!(flags & MSG_PEEK)) t->recv.erase(t->recv.begin(), t->recv.begin() + (long)k);
      return (ssize_t)k;
    }
    if (t->st == C_DEAD) {
      if (t->so_error) {
        errno = t->so_error;
        t->so_error = 0;
        return -1;
      }
      return 0;
    }
    if (t->fin_rcvd) {
      t->eof_read = true;
      return 0;
    }
    if (t->st == C_NEW) {
      errno = ENOTCONN;
      return -1;
    }
    if (o->nonblock || (flags & MSG_DONTWAIT)) {
      errno = EAGAIN;
      return -1;
    }
    block(&g_net_obj, "socket read", -1);
  }
}
static ssize_t obj_write(Obj* o, const struct iovec* iov, int n, int flags) {
  switch (o->type) {
    case T_TCP:
      return tcp_write(o, iov, n, flags);
    case T_UDP: {
      if (!o->has_peer) {
        errno = EDESTADDRREQ;
        return -1;
      }
      if (config().udp_send_fail > 0 && chance(FAULT, config().udp_send_fail)) {
        fault("udp_send_error");
        errno = ENETUNREACH;
        return -1;
      }
      std::string d;
      for (int i = 0; i < n; ++i) d.append((const char*)iov[i].iov_base, iov[i].iov_len);
      log("udp query %zu bytes to %s", d.size(), o->peer.str().c_str());
      std::vector<std::pair<int64_t, std::string>> rep;
      Addr to = o->peer;
      if (*g_udp) harness([&] { rep = (*g_udp)(to, d); });
      int fd = o->fd;
      uint64_t gen = o->gen;
      for (auto& r : rep) {
        std::string s(r.second.data(), r.second.size());
        after(r.first, [fd, gen, s, to] {
          RtGuard g;
          Obj* q = get(fd);
          if (!q || q->gen != gen) return;
          q->dgrams.emplace_back(to, s);
          poke();
        });
      }
      return (ssize_t)d.size();
    }
    case T_PIPE_W: {
      size_t k = 0;
      for (int i = 0; i < n; ++i) {
        auto* b = (const char*)iov[i].iov_base;
        o->pipe->insert(o->pipe->end(), b, b + iov[i].iov_len);
        k += iov[i].iov_len;
      }
      poke();
      return (ssize_t)k;
    }
    case T_EVENTFD: {
      uint64_t v;
      memcpy(&v, iov[0].iov_base, 8);
      o->counter += v;
      poke();
      return 8;
    }
    default:
      errno = EINVAL;
      return -1;
  }
}
static ssize_t obj_read(Obj* o, char* b, size_t n, int flags, sockaddr* from, socklen_t* fl) {
  switch (o->type) {
    case T_TCP:
      return tcp_read(o, b, n, flags);
    case T_UDP: {
      while (o->dgrams.empty()) {
        if (o->nonblock || (flags & MSG_DONTWAIT)) {
          errno = EAGAIN;
          return -1;
        }
        block(&g_net_obj, "datagram read", -1);
      }
      auto d = o->dgrams.front();
      o->dgrams.pop_front();
      if (d.second == UDP_REFUSED) {
        errno = ECONNREFUSED;
        return -1;
      }
      size_t k = std::min(n, d.second.size());
      memcpy(b, d.second.data(), k);
      to_sa(d.first, from, fl);
      return (ssize_t)k;
    }
    case T_PIPE_R: {
      while (o->pipe->empty()) {
        if (*o->pipe_writers == 0) return 0;
        if (o->nonblock) {
          errno = EAGAIN;
          return -1;
        }
        block(&g_net_obj, "pipe read", -1);
      }
      size_t k = std::min(n, o->pipe->size());
      std::copy(o->pipe->begin(), o->pipe->begin() + (long)k, b);
      o->pipe->erase(o->pipe->begin(), o->pipe->begin() + (long)k);
      return (ssize_t)k;
    }
    case T_EVENTFD: {
      while (!o->counter) {
        if (o->nonblock) {
          errno = EAGAIN;
          return -1;
        }
        block(&g_net_obj, "eventfd read", -1);
      }
      memcpy(b, &o->counter, 8);
      o->counter = 0;
      return 8;
    }
    default:
      errno = EINVAL;
      return -1;
  }
}
static void tcp_close(const std::shared_ptr<Tcp>& t) {
  if (t->client_closed) return;
  if (t->fork_epoch != W.fork_epoch) {
    log("conn %d: a forked child closes its copy", t->id);
    return;  // the parent still has it open
  }
  t->client_closed = true;
  t->closed_at = W.t;
  note_writable(*t);
  log("conn %d: client close (%zu unread, %zu unsent)", t->id, t->recv.size(), t->inflight.size());
  if (t->peer) harness([&] { t->peer->on_client_close(t->conn); });
  if (t->st == C_CONNECTED && !t->peer_dead) {
    if (!t->recv.empty()) {
      // unread data: the kernel resets the connection and unsent data is lost
      t->inflight.clear();
      t->peer_dead = true;
      auto tt = t;
      probe("close_with_unread_data");
      after(t->latency, [tt] {
        RtGuard g;
        if (tt->peer) harness([&] { tt->peer->on_reset(tt->conn); });
      });
    } else {
      schedule_delivery(t);
    }
  } else if (t->st == C_CONNECTING) {
    t->st = C_DEAD;
  }
}
static int obj_close(int fd) {
  Obj* o = get(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  for (auto* e : *g_fds)
    if (e && e->type == T_EPOLL) e->watch.erase(fd);
  if (o->type == T_TCP) tcp_close(o->tcp);
  if (o->type == T_PIPE_W) --*o->pipe_writers;
  (*g_fds)[fd_index(fd)] = nullptr;
  delete o;
  poke();
  return 0;
}

static int do_connect(Obj* o, const sockaddr* sa) {
  Addr a = from_sa(sa);
  if (o->type == T_UDP) {
    o->peer = a;
    o->has_peer = true;
    return 0;
  }
  auto t = o->tcp;
  if (t->st == C_CONNECTING) {
    errno = EALREADY;
    return -1;
  }
  if (t->st == C_CONNECTED) {
    errno = EISCONN;
    return -1;
  }
  if (W.cfg.connect_fail > 0 && chance(FAULT, W.cfg.connect_fail)) {
    fault("connect_fail");
    errno = ENETUNREACH;
    return -1;
  }
  t->addr = a;
  t->st = C_CONNECTING;
  log("conn %d: connect %s", t->id, a.str().c_str());
  AcceptDecision d;
  if (*g_listener) harness([&] { d = (*g_listener)(a, t->conn); });
  else d.what = Accept::refuse;
  t->cap = d.sndbuf;
  t->latency = d.latency;
  t->mss = d.mss;
  t->peer = d.peer;
  if (d.what == Accept::blackhole) {
    fault("connect_blackhole");
    after(127 * SEC, [t] {
      RtGuard g;
      if (t->st != C_CONNECTING) return;
      t->st = C_DEAD;
      t->so_error = ETIMEDOUT;
      note_writable(*t);
      note_end(*t);
      poke();
    });
  } else {
    bool ok = d.what == Accept::accept;
    if (!ok) fault("connect_refused");
    after(d.delay, [t, ok] {
      RtGuard g;
      if (t->st != C_CONNECTING) return;
      if (ok) {
        t->st = C_CONNECTED;
        log("conn %d: established", t->id);
      } else {
        t->st = C_DEAD;
        t->so_error = ECONNREFUSED;
        note_end(*t);
        log("conn %d: refused", t->id);
      }
      note_writable(*t);
      poke();
    });
  }
  note_blocked(*t);
  if (o->nonblock) {
    errno = EINPROGRESS;
    return -1;
  }
  while (t->st == C_CONNECTING) block(&g_net_obj, "connect", -1);
  if (t->st == C_CONNECTED) return 0;
  errno = t->so_error ? t->so_error : ECONNREFUSED;
  t->so_error = 0;
  return -1;
}
static int collect_epoll(Obj* e, epoll_event* ev, int max) {
  std::vector<epoll_event> r;
  for (auto& w : e->watch) {
    Obj* o = get(w.first);
    if (!o) continue;
    uint32_t m = readiness(o) & (w.second.events | EPOLLERR | EPOLLHUP);
    if (m) {
      epoll_event x = w.second;
      x.events = m;
      r.push_back(x);
    }
  }
  if (r.size() > 1 && W.cfg.epoll_reorder > 0 && chance(FAULT, W.cfg.epoll_reorder))
    std::rotate(r.begin(), r.begin() + (long)(1 + choose(FAULT, r.size() - 1)), r.end());
  int n = (int)std::min<size_t>(r.size(), (size_t)max);
  for (int i = 0; i < n; ++i) ev[i] = r[(size_t)i];
  return n;
}
static void note_poll() {
  tls_self->polls = true;
  for (auto& t : *g_tcps)
    if (t->flood > 0) {
      --t->flood;
      t->flood_reads = 0;
    }
}
static int do_epoll_wait(int fd, epoll_event* ev, int max, int64_t timeout_ns) {
  note_poll();
  Obj* e = get(fd);
  if (!e || e->type != T_EPOLL) {
    errno = EBADF;
    return -1;
  }
  if (W.cfg.eintr > 0 && chance(FAULT, W.cfg.eintr)) {
    fault("eintr");
    errno = EINTR;
    return -1;
  }
  int64_t deadline = timeout_ns < 0 ? -1 : W.t + timeout_ns;
  for (;;) {
    e = get(fd);
    if (!e || e->type != T_EPOLL) {
      errno = EBADF;
      return -1;
    }
    int n = collect_epoll(e, ev, max);
    if (n || timeout_ns == 0) return n;
    if (deadline >= 0 && W.t >= deadline) return 0;
    block(&g_net_obj, "epoll_wait", deadline);
  }
}
}  // namespace sim
using namespace sim;

#define SYSPOINT()          \
  sched_point(K_SYSCALL);   \
  RtGuard rtg_

extern "C" {
SIM_API int socket(int dom, int type, int proto) noexcept {
  if (!simulated()) return (int)syscall(SYS_socket, dom, type, proto);
  SYSPOINT();
  if (W.cfg.socket_fail > 0 && chance(FAULT, W.cfg.socket_fail)) {
    fault("socket_emfile");
    errno = EMFILE;
    return -1;
  }
  auto* o = new Obj;
  int st = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
  o->type = st == SOCK_DGRAM ? T_UDP : T_TCP;
  o->nonblock = type & SOCK_NONBLOCK;
  if (o->type == T_TCP) o->tcp = new_tcp();
  return put_fd(o);
}
SIM_API int connect(int fd, const struct sockaddr* sa, socklen_t n) {
  if (!is_sim(fd) || !simulated()) return (int)syscall(SYS_connect, fd, sa, n);
  SYSPOINT();
  Obj* o = get(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  return do_connect(o, sa);
}
SIM_API int bind(int fd, const struct sockaddr* sa, socklen_t n) noexcept {
  if (!is_sim(fd)) return (int)syscall(SYS_bind, fd, sa, n);
  return 0;
}
SIM_API int close(int fd) {
  if (!is_sim(fd) || !simulated()) return (int)syscall(SYS_close, fd);
  SYSPOINT();
  return obj_close(fd);
}
SIM_API ssize_t write(int fd, const void* b, size_t n) {
  if (!is_sim(fd) || !simulated()) return syscall(SYS_write, fd, b, n);
  SYSPOINT();
  Obj* o = get(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  struct iovec v{const_cast<void*>(b), n};
  return obj_write(o, &v, 1, 0);
}
SIM_API ssize_t writev(int fd, const struct iovec* v, int n) {
  if (!is_sim(fd) || !simulated()) return syscall(SYS_writev, fd, v, n);
  SYSPOINT();
  Obj* o = get(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  if (n > 1024 || n < 0) {
    errno = EINVAL;
    return -1;
  }
  return obj_write(o, v, n, 0);
}
SIM_API ssize_t send(int fd, const void* b, size_t n, int fl) {
  if (!is_sim(fd) || !simulated()) return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
  SYSPOINT();
  Obj* o = get(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  if (o->type != T_TCP && o->type != T_UDP) {
    errno = ENOTSOCK;
    return -1;
  }
  struct iovec v{const_cast<void*>(b), n};
  return obj_write(o, &v, 1, fl);
}
SIM_API ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* sa, socklen_t sn) {
  if (!is_sim(fd) || !simulated()) return syscall(SYS_sendto, fd, b, n, fl, sa, sn);
  Obj* o = get(fd);
  if (o && o->type == T_UDP && sa) {
    o->peer = from_sa(sa);
    o->has_peer = true;
  }
  return send(fd, b, n, fl);
}
SIM_API ssize_t sendmsg(int fd, const struct msghdr* m, int fl) {
  if (!is_sim(fd) || !simulated()) return syscall(SYS_sendmsg, fd, m, fl);
  if (m->msg_iovlen > 1024) {
    errno = EMSGSIZE;
    return -1;
  }
  SYSPOINT();
  Obj* o = get(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  if (o->type != T_TCP && o->type != T_UDP) {
    errno = ENOTSOCK;
    return -1;
  }
  if (m->msg_iovlen > 1024) {
    errno = EMSGSIZE;
    return -1;
  }
  return obj_write(o, m->msg_iov, (int)m->msg_iovlen, fl);
}
SIM_API ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* sa, socklen_t* sn) {
  if (!is_sim(fd) || !simulated()) return syscall(SYS_recvfrom, fd, b, n, fl, sa, sn);
  SYSPOINT();
  Obj* o = get(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  return obj_read(o, (char*)b, n, fl, sa, sn);
}
SIM_API ssize_t recv(int fd, void* b, size_t n, int fl) { return recvfrom(fd, b, n, fl, nullptr, nullptr); }
SIM_API ssize_t read(int fd, void* b, size_t n) {
  if (!is_sim(fd) || !simulated()) return syscall(SYS_read, fd, b, n);
  return recvfrom(fd, b, n, 0, nullptr, nullptr);
}
SIM_API ssize_t readv(int fd, const struct iovec* v, int n) {
  if (!is_sim(fd) || !simulated()) return syscall(SYS_readv, fd, v, n);
  ssize_t tot = 0;
  for (int i = 0; i < n; ++i) {
    ssize_t k = read(fd, v[i].iov_base, v[i].iov_len);
    if (k < 0) return tot ? tot : -1;
    tot += k;
    if ((size_t)k < v[i].iov_len) break;
  }
  return tot;
}
SIM_API ssize_t recvmsg(int fd, struct msghdr* m, int fl) {
  if (!is_sim(fd) || !simulated()) return syscall(SYS_recvmsg, fd, m, fl);
  return recvfrom(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl, (sockaddr*)m->msg_name,
                  m->msg_name ? &m->msg_namelen : nullptr);
}
SIM_API int shutdown(int fd, int how) noexcept {
  if (!is_sim(fd) || !simulated()) return (int)syscall(SYS_shutdown, fd, how);
  SYSPOINT();
  Obj* o = get(fd);
  if (!o || o->type != T_TCP) {
    errno = ENOTSOCK;
    return -1;
  }
  if (o->tcp->st != C_CONNECTED) {
    errno = ENOTCONN;
    return -1;
  }
  if (how != SHUT_RD) {
    if (o->tcp->fork_epoch != W.fork_epoch)
      fail("C09", "inherited-shutdown", "a forked child shuts down connection %d of its parent", o->tcp->id);
    o->tcp->client_shut = true;
    schedule_delivery(o->tcp);
  }
  return 0;
}
static int do_fcntl(int fd, int cmd, long arg) {
  if (!is_sim(fd)) return (int)syscall(SYS_fcntl, fd, cmd, arg);
  Obj* o = get(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  if (cmd == F_SETFL && W.cfg.sockopt_fail > 0 && simulated() && o->type == T_TCP && chance(FAULT, W.cfg.sockopt_fail)) {
    fault("fcntl_fail");
    errno = ENOMEM;
    return -1;
  }
  if (cmd == F_GETFL) return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) o->nonblock = arg & O_NONBLOCK;
  return 0;
}
SIM_API int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return do_fcntl(fd, cmd, a);
}
SIM_API int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  return do_fcntl(fd, cmd, a);
}
SIM_API int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap;
  va_start(ap, req);
  void* a = va_arg(ap, void*);
  va_end(ap);
  if (!is_sim(fd)) return (int)syscall(SYS_ioctl, fd, req, a);
  Obj* o = get(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  if (req == FIONBIO) o->nonblock = *(int*)a != 0;
  else if (req == FIONREAD) *(int*)a = o->type == T_TCP ? (int)o->tcp->recv.size() : 0;
  return 0;
}
SIM_API int getsockopt(int fd, int lvl, int opt, void* v, socklen_t* n) noexcept {
  if (!is_sim(fd)) return (int)syscall(SYS_getsockopt, fd, lvl, opt, v, n);
  Obj* o = get(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  int x = 0;
  if (lvl == SOL_SOCKET && opt == SO_ERROR && o->tcp) {
    x = o->tcp->so_error;
    o->tcp->so_error = 0;
  } else if (lvl == SOL_SOCKET && opt == SO_TYPE) {
    x = o->type == T_UDP ? SOCK_DGRAM : SOCK_STREAM;
  }
  memcpy(v, &x, std::min<size_t>(*n, sizeof x));
  return 0;
}
SIM_API int setsockopt(int fd, int lvl, int opt, const void* v, socklen_t n) noexcept {
  if (!is_sim(fd)) return (int)syscall(SYS_setsockopt, fd, lvl, opt, v, n);
  if (!get(fd)) {
    errno = EBADF;
    return -1;
  }
  if (W.cfg.sockopt_fail > 0 && simulated() && get(fd)->type == T_TCP && chance(FAULT, W.cfg.sockopt_fail)) {
    fault("setsockopt_fail");
    errno = ENOBUFS;
    return -1;
  }
  return 0;
}
SIM_API int getsockname(int fd, struct sockaddr* sa, socklen_t* n) noexcept {
  if (!is_sim(fd)) return (int)syscall(SYS_getsockname, fd, sa, n);
  Obj* o = get(fd);
  Addr a{};
  a.family = AF_INET;
  uint8_t me[4] = {10, 0, 0, 1};
  memcpy(a.ip, me, 4);
  a.port = 40000;
  if (o && o->has_peer && o->peer.family == AF_INET6) {
    a.family = AF_INET6;
    memset(a.ip, 0, 16);
    a.ip[0] = 0xfd;
    a.ip[15] = 1;
  }
  to_sa(a, sa, n);
  return 0;
}
SIM_API int getpeername(int fd, struct sockaddr* sa, socklen_t* n) noexcept {
  if (!is_sim(fd)) return (int)syscall(SYS_getpeername, fd, sa, n);
  Obj* o = get(fd);
  if (!o || (o->tcp && o->tcp->st != C_CONNECTED)) {
    errno = ENOTCONN;
    return -1;
  }
  to_sa(o->tcp ? o->tcp->addr : o->peer, sa, n);
  return 0;
}
SIM_API int epoll_create1(int fl) noexcept {
  if (!simulated()) return (int)syscall(SYS_epoll_create1, fl);
  SYSPOINT();
  if (W.cfg.epoll_create_fail > 0 && chance(FAULT, W.cfg.epoll_create_fail)) {
    fault("epoll_create_fail");
    errno = EMFILE;
    return -1;
  }
  auto* o = new Obj;
  o->type = T_EPOLL;
  return put_fd(o);
}
SIM_API int epoll_create(int) noexcept { return epoll_create1(0); }
SIM_API int epoll_ctl(int e, int op, int fd, struct epoll_event* ev) noexcept {
  if (!is_sim(e)) return (int)syscall(SYS_epoll_ctl, e, op, fd, ev);
  RtGuard g;
  Obj* o = get(e);
  if (!o || o->type != T_EPOLL || !get(fd)) {
    errno = EBADF;
    return -1;
  }
  bool have = o->watch.count(fd);
  if (op == EPOLL_CTL_ADD) {
    if (have) {
      errno = EEXIST;
      return -1;
    }
    o->watch[fd] = *ev;
  } else if (op == EPOLL_CTL_MOD) {
    if (!have) {
      errno = ENOENT;
      return -1;
    }
    o->watch[fd] = *ev;
  } else {
    if (!have) {
      errno = ENOENT;
      return -1;
    }
    o->watch.erase(fd);
  }
  if (tls_self) poke();
  return 0;
}
SIM_API int epoll_wait(int fd, struct epoll_event* ev, int max, int ms) {
  if (!is_sim(fd) || !simulated()) return (int)syscall(SYS_epoll_wait, fd, ev, max, ms);
  SYSPOINT();
  return do_epoll_wait(fd, ev, max, ms < 0 ? -1 : (int64_t)ms * MS);
}
SIM_API int epoll_pwait(int fd, struct epoll_event* ev, int max, int ms, const sigset_t*) {
  return epoll_wait(fd, ev, max, ms);
}
SIM_API int epoll_pwait2(int fd, struct epoll_event* ev, int max, const struct timespec* ts, const sigset_t*) {
  if (!is_sim(fd) || !simulated()) {
    errno = ENOSYS;
    return -1;
  }
  SYSPOINT();
  return do_epoll_wait(fd, ev, max, ts ? (int64_t)ts->tv_sec * SEC + ts->tv_nsec : -1);
}
SIM_API int poll(struct pollfd* p, nfds_t n, int ms) {
  bool any = false;
  for (nfds_t i = 0; i < n; ++i) any |= is_sim(p[i].fd);
  if (!simulated() || (!any && n > 0)) return (int)syscall(SYS_poll, p, n, ms);
  SYSPOINT();
  note_poll();
  int64_t deadline = ms < 0 ? -1 : W.t + (int64_t)ms * MS;
  for (;;) {
    int k = 0;
    for (nfds_t i = 0; i < n; ++i) {
      Obj* o = get(p[i].fd);
      p[i].revents = 0;
      if (!o) {
        if (p[i].fd >= 0) p[i].revents = POLLNVAL;
      } else {
        p[i].revents = (short)(readiness(o) & ((uint32_t)p[i].events | POLLERR | POLLHUP));
      }
      k += p[i].revents != 0;
    }
    if (k || ms == 0) return k;
    if (deadline >= 0 && W.t >= deadline) return 0;
    block(&g_net_obj, "poll", deadline);
  }
}
SIM_API int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
  if (!simulated()) {
    struct timespec ts, *tp = nullptr;
    if (tv) ts = {tv->tv_sec, tv->tv_usec * 1000}, tp = &ts;
    return (int)syscall(SYS_pselect6, n, r, w, x, tp, nullptr);
  }
  std::vector<struct pollfd> p;
  {
    RtGuard g;
    for (int i = 0; i < n; ++i) {
      short e = 0;
      if (r && FD_ISSET(i, r)) e |= POLLIN;
      if (w && FD_ISSET(i, w)) e |= POLLOUT;
      if (x && FD_ISSET(i, x)) e |= POLLPRI;
      if (e) p.push_back({i, e, 0});
    }
  }
  int64_t ms = tv ? (int64_t)tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000 : -1;
  int k = poll(p.data(), (nfds_t)p.size(), ms > 1000000000 ? 1000000000 : (int)ms);
  RtGuard g;
  for (fd_set* q : {r, w, x})  // no more than the kernel would: callers' sets may be smaller
    if (q) memset(q, 0, (size_t)(n + 63) / 64 * 8);
  int c = 0;
  for (auto& q : p) {
    if (q.revents & POLLNVAL) {
      errno = EBADF;
      return -1;
    }
    if ((q.events & POLLIN) && (q.revents & (POLLIN | POLLHUP | POLLERR))) FD_SET(q.fd, r), ++c;
    if ((q.events & POLLOUT) && (q.revents & (POLLOUT | POLLERR))) FD_SET(q.fd, w), ++c;
  }
  std::vector<struct pollfd>().swap(p);
  return k < 0 ? k : c;
}
SIM_API int pipe2(int* out, int fl) noexcept {
  if (!simulated()) return (int)syscall(SYS_pipe2, out, fl);
  RtGuard g;
  auto q = std::make_shared<std::deque<char>>();
  auto wr = std::make_shared<int>(1);
  auto* a = new Obj;
  a->type = T_PIPE_R;
  a->pipe = q;
  a->pipe_writers = wr;
  a->nonblock = fl & O_NONBLOCK;
  auto* b = new Obj;
  b->type = T_PIPE_W;
  b->pipe = q;
  b->pipe_writers = wr;
  b->nonblock = fl & O_NONBLOCK;
  out[0] = put_fd(a);
  out[1] = put_fd(b);
  return 0;
}
SIM_API int pipe(int* out) noexcept { return pipe2(out, 0); }
SIM_API int eventfd(unsigned v, int fl) noexcept {
  if (!simulated()) return (int)syscall(SYS_eventfd2, v, fl);
  RtGuard g;
  auto* o = new Obj;
  o->type = T_EVENTFD;
  o->counter = v;
  o->nonblock = fl & EFD_NONBLOCK;
  return put_fd(o);
}
}
