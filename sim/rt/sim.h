// Public interface of the deterministic simulator runtime (libsimrt.so).
//
// Everything nondeterministic in a run is decided by choose(): one seed (or one
// recorded choice list) is one exactly repeatable execution.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <vector>

#define SIM_API __attribute__((visibility("default")))

namespace sim {
// ---------------------------------------------------------------- choices ---
enum Stream : int { WORK = 0, SCHED, FAULT, NET, NSTREAM };
// Uniform in [0,n).  Value 0 is always the "simplest" alternative.
SIM_API uint64_t choose(Stream s, uint64_t n);
SIM_API bool chance(Stream s, double p);
inline int64_t range(Stream s, int64_t lo, int64_t hi) {
  return lo + static_cast<int64_t>(choose(s, static_cast<uint64_t>(hi - lo + 1)));
}
template <class T>
T pick(Stream s, std::initializer_list<T> l) {
  return *(l.begin() + choose(s, l.size()));
}
// Entropy handed to the code under test (random_device & co); not a choice.
SIM_API uint64_t entropy();
// From now on all entropy is a fixed sequence of 32-bit words, of which the
// flip-th (if not negative) is another one.
SIM_API void entropy_script(uint64_t seed, int flip);
SIM_API int entropy_script_end();            // returns the number of words taken

// ------------------------------------------------------------------- time ---
constexpr int64_t US = 1000, MS = 1000 * US, SEC = 1000 * MS;
SIM_API int64_t now();                       // simulated steady clock, ns
SIM_API int64_t system_now();                // simulated system clock, ns
SIM_API void jump_system_clock(int64_t delta_ns);
SIM_API void sleep_for(int64_t ns);          // blocks the calling sim thread
SIM_API void at(int64_t t, std::function<void()> f);
inline void after(int64_t dt, std::function<void()> f) { at(now() + dt, std::move(f)); }

// ------------------------------------------------------------------ log -----
SIM_API void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
SIM_API void fault(const char* kind);        // a fault of this kind fired
SIM_API void probe(const char* name, int64_t n = 1);
SIM_API uint64_t fault_total();
SIM_API void state_hash(uint64_t h);         // a state/interleaving reached

// Reports that `prop` is violated.  Ends the run when the check being run is
// about `prop` (or prop is "*": crash, hang, race...); otherwise ignored.
SIM_API void fail(const char* prop, const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
SIM_API const char* check_prop();
SIM_API bool checking(const char* prop);
SIM_API void add_detail(const std::string& text);   // extra text in the replay file

// ----------------------------------------------------------- scheduling -----
SIM_API void yield();
SIM_API int self();                          // sim thread id
SIM_API uint64_t seq();                      // global event sequence number
SIM_API size_t open_fds();                   // simulated descriptors still open
// Fails if memory that the code under test allocated can't be reached any more.
SIM_API void check_leaks(const char* prop, const char* when);
SIM_API size_t fork_handlers();               // pthread_atfork registrations
SIM_API size_t live_threads();               // sim threads not yet finished
// Spawns a simulated thread that isn't created through pthread_create by the
// code under test (uses it underneath).
SIM_API int spawn(std::function<void()> f);
SIM_API void join(int handle);
// Blocks until pred() holds or timeout; re-evaluated at every scheduling point
// at which the thread could run (poll interval in simulated time).
SIM_API bool wait_until(const std::function<bool()>& pred, int64_t timeout_ns,
                        int64_t poll_ns = 100 * US);

struct Config {
  // scheduler
  double preempt = 0.05;        // switch probability at a scheduling point
  double preempt_sync = 0.2;    // ... at mutex/condvar points
  int mode = 0;                 // 0 random, 1 priorities (PCT-like)
  int pct_changes = 3;
  int64_t pct_len = 2000;
  double stall = 0;             // probability (per point) to stall a thread
  int64_t stall_max = 20 * MS;
  double spurious_wakeup = 0;
  double cas_weak_fail = 0;     // (only where the compiler keeps weak CAS apart)
  int64_t step_cap = 3000000;
  int64_t time_cap = 3600 * SEC;
  // kernel faults (per call probabilities)
  double short_write = 0;       // writev accepts fewer bytes than it could
  double eagain_write = 0;      // writev EAGAIN although space is available
  double write_error = 0;       // writev fails with ECONNRESET (connection dies)
  double socket_fail = 0;       // socket() EMFILE
  double connect_fail = 0;      // connect() fails at once
  double sockopt_fail = 0;      // setsockopt() and fcntl() on sockets fail
  bool stdin_closed = false;    // descriptor numbers start at 0 (set before any is opened)
  double epoll_reorder = 0;     // ready list rotated
  double udp_send_fail = 0;     // send() of a datagram fails
  double eintr = 0;             // epoll_wait EINTR
  double epoll_create_fail = 0;  // epoll_create1 EMFILE
  double thread_create_fail = 0;
  double fopen_fail = 0;        // opening a configuration file EMFILE
  double entropy_fail = 0;
  double alloc_fail = 0;
  bool races = true;            // happens-before race detector
  bool uaf = true;              // freed or out of bounds heap accesses
  int quarantine = 64;          // freed blocks per size class kept back; 0 = reuse at once
};
SIM_API Config& config();

// Code run under Harness isn't tracked for races and never yields.
struct SIM_API Harness {
  Harness();
  ~Harness();
};

// Memory accesses inside are checked, but no scheduling points.
struct SIM_API NoYield {
  NoYield();
  ~NoYield();
};

// One-shot allocation failure: the n-th operator new from now on in this
// thread throws std::bad_alloc (0 = off).
SIM_API void fail_alloc_after(int64_t n);
SIM_API bool alloc_fail_fired();
// Bytes allocated by the code under test and not freed.
SIM_API int64_t live_bytes();
SIM_API std::string live_sizes();  // number x size (address of the last) where that's much

// ------------------------------------------------------------------ fork ----
// Runs the pthread_atfork handlers as fork() would and continues as the parent
// or as the child (all other threads vanish).  Returns true in the child.
SIM_API bool fork_as(bool child);
// A real fork of the simulator process: `child` runs in the child; what it
// returns is handed to the parent.  Atfork handlers run on both sides.
SIM_API std::string fork_real(const std::function<std::string()>& child);
SIM_API void on_fork_point(std::function<void()> f);  // called between prepare and split

// --------------------------------------------------------------- network ----
struct SIM_API Addr {
  int family;          // AF_INET / AF_INET6
  uint8_t ip[16];
  uint16_t port;       // host order
  std::string str() const;
};
class Conn;
// A simulated TCP peer.  Callbacks run as simulator events.
class SIM_API Peer {
 public:
  virtual ~Peer() = default;
  // Bytes the simulated kernel has just taken from the client (not yet arrived).
  virtual void on_written(Conn&, const char*, size_t) {}
  // The client has just closed its descriptor (nothing of it has arrived yet).
  virtual void on_client_close(Conn&) {}
  virtual void on_data(Conn&, const char*, size_t) = 0;
  virtual void on_fin(Conn&) = 0;     // client closed orderly
  virtual void on_reset(Conn&) = 0;   // client aborted
};
enum class Accept { accept, refuse, blackhole };
struct AcceptDecision {
  Accept what = Accept::accept;
  int64_t delay = 100 * US;
  std::shared_ptr<Peer> peer;
  size_t sndbuf = 64 * 1024;
  int64_t latency = 50 * US;   // per delivery
  size_t mss = 1 << 30;        // most bytes delivered per event
};
using Listener = std::function<AcceptDecision(const Addr&, Conn&)>;
// Decides what happens to every TCP connect() in the run.
SIM_API void set_listener(Listener l);
// Answers UDP datagrams (DNS): returns replies with delays.
using UdpServer = std::function<std::vector<std::pair<int64_t, std::string>>(
    const Addr&, const std::string&)>;
SIM_API void set_udp_server(UdpServer s);
// As a reply: the server's host answers that nobody listens there.
#define UDP_REFUSED std::string("\1refused")

class SIM_API Conn {
 public:
  int id() const;
  const Addr& addr() const;
  void send(const std::string& bytes);   // peer -> client
  void fin();                            // peer closes its side orderly
  void close_gracefully();               // fin + later data answered by RST
  void reset();                          // peer aborts
  void pause(bool p);                    // peer stops reading
  void flood(int polls);                 // peer sends without end until the client polled that often
  bool client_closed() const;            // client called close()
  bool established() const;
  bool dead() const;
  uint64_t accepted() const;             // bytes taken from the client's writes
  size_t space() const;                  // room in the client's send buffer
  int64_t longest_block() const;         // longest the client waited to connect or write
  int64_t last_blocked() const;          // when it last had to wait
  int64_t ignored_end() const;           // how long it kept a connection whose end it could see
  bool eof_read() const;                 // the client read everything and the end
  int owner_epoch() const;               // fork epoch in which it was opened
  void set_latency(int64_t l);
  void* impl;
};
SIM_API int fork_epoch();
SIM_API size_t open_tcp();   // library-side open TCP descriptors, but those to name servers (port 53)
// A connected in-process stream socket for driving write paths directly: the
// returned descriptor is the "client" end.
SIM_API int make_stream(std::shared_ptr<Peer> peer, size_t sndbuf, int64_t latency,
                        Conn** out = nullptr);
SIM_API void set_write_script(std::function<int64_t(int fd, size_t n)> f);

// ---------------------------------------------------------------- driver ----
using Body = void (*)();
struct Scenario {
  const char* name;
  Body body;
};
SIM_API void register_scenario(const char* name, Body body);
struct Registrar {
  Registrar(const char* n, Body b) { register_scenario(n, b); }
};
#define SIM_SCENARIO(name)                                     \
  static void scenario_##name();                               \
  static ::sim::Registrar reg_##name{#name, scenario_##name};  \
  static void scenario_##name()
SIM_API int driver_main(int argc, char** argv);
}  // namespace sim
