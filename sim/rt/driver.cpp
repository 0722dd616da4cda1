// Batch driver: searches seeds, replays and minimises choice lists.
#include <execinfo.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include "internal.h"
#include "result.h"

namespace sim {
std::vector<Scenario> scenarios();

static void on_crash(int sig, siginfo_t* si, void* uc) {
  tls_in_rt += 1;
  auto* u = (ucontext_t*)uc;
  uintptr_t pc = (uintptr_t)u->uc_mcontext.gregs[REG_RIP];
  uintptr_t a = (uintptr_t)si->si_addr;
  if (a >= kStackBase && a < kStackBase + (uintptr_t)kMaxThreads * kStackSize) {
    // how deep the stack got before may vary by a frame, so it isn't part of
    // what is compared
    (void)pc;
    W.hash = 1;
    fail("*", "crash-stack", "stack overflow (signal %d) in thread %d", sig, self());
  }
  void* bt[48];
  int n = backtrace(bt, 48);
  std::string s;
  for (int i = 0; i < n; ++i) {
    char b[32];
    uintptr_t x = (uintptr_t)bt[i];
    if (x < 0x1000000) {
      snprintf(b, sizeof b, " 0x%llx", (unsigned long long)x);
      s += b;
    }
  }
  const char* nm = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort (terminate)" : sig == SIGFPE ? "floating point exception" : sig == SIGPIPE ? "SIGPIPE" : "signal";
  if (sig == SIGSEGV)
    fail("*", "crash-segv", "%s (signal %d) in thread %d; address 0x%llx; frames%s", nm, sig, self(),
         (unsigned long long)(a < 65536 ? a : 0), s.c_str());
  fail("*", sig == SIGABRT ? "crash-abort" : "crash", "%s (signal %d) in thread %d; frames%s", nm, sig,
       self(), s.c_str());
  _exit(3);
}
void crash_handlers_install() {
  static char alt[65536];
  stack_t ss;
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}

static double wall() {
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void on_alarm(int) {}

static std::string jesc(const char* s) {
  std::string o;
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += (char)c;
    }
  }
  return o;
}

struct Outcome {
  uint32_t status;
  std::string prop, cls, msg, detail, log;
  uint64_t hash;
  std::vector<Rec> recs[NSTREAM];
  uint64_t steps, switches;
  int64_t t;
};
static Outcome take() {
  Outcome o;
  o.status = S->status;
  o.prop = S->prop;
  o.cls = S->cls;
  o.msg = S->msg;
  o.detail = S->detail;
  o.hash = S->hash;
  o.steps = S->steps;
  o.switches = S->switches;
  o.t = S->t;
  for (int i = 0; i < NSTREAM; ++i) o.recs[i].assign(S->recs[i], S->recs[i] + S->nrec[i]);
  uint32_t n = S->lognext, k = n > 256 ? n - 256 : 0;
  for (; k < n; ++k) {
    o.log += S->logring[k % 256];
    o.log += '\n';
  }
  return o;
}

// The kind of a violation: shrinking must stay within it.
static std::string sig_of(const Outcome& o) { return o.prop + "|" + o.cls; }

static void write_replay(const std::string& path, const RunSpec& sp, const Outcome& o) {
  static const char* nm[] = {"WORK", "SCHED", "FAULT", "NET"};
  std::ofstream f(path);
  f << "scenario " << sp.scenario << "\n";
  f << "property " << sp.prop << "\n";
  f << "seed " << sp.seed << "\n";
  f << "violates " << o.prop << "\n";
  f << "class " << o.cls << "\n";
  f << "hash " << o.hash << "\n";
  for (int i = 0; i < NSTREAM; ++i) {
    f << "choices " << nm[i] << " " << o.recs[i].size();
    for (auto& r : o.recs[i]) f << " " << r.idx << ":" << r.val;
    f << "\n";
  }
  f << "steps " << o.steps << " switches " << o.switches << " simulated_s " << o.t / 1e9 << "\n";
  f << "message " << o.msg << "\n";
  if (!o.detail.empty()) f << "detail\n" << o.detail << "\n";
  f << "log (last events)\n" << o.log;
}
static bool read_replay(const std::string& path, RunSpec& sp, std::string& cls, std::string& vprop,
                        uint64_t& hash) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "scenario") is >> sp.scenario;
    else if (k == "property") is >> sp.prop;
    else if (k == "seed") is >> sp.seed;
    else if (k == "class") is >> cls;
    else if (k == "violates") is >> vprop;
    else if (k == "hash") is >> hash;
    else if (k == "choices") {
      std::string nm;
      size_t n;
      is >> nm >> n;
      int s = nm == "WORK" ? 0 : nm == "SCHED" ? 1 : nm == "FAULT" ? 2 : 3;
      for (size_t i = 0; i < n; ++i) {
        Rec r;
        char c;
        is >> r.idx >> c >> r.val;
        sp.recs[s].push_back(r);
      }
    } else if (k == "message" || k == "log") {
      break;
    }
  }
  sp.replay = true;
  return true;
}

struct Shrinker {
  RunSpec base;
  std::string want;
  double deadline;
  int runs = 0;
  Outcome best;
  double wl;
  bool try_one(const std::vector<Rec>* recs) {
    if (wall() > deadline) return false;
    RunSpec sp = base;
    sp.replay = true;
    for (int i = 0; i < NSTREAM; ++i) sp.recs[i] = recs[i];
    run_forked(sp, wl);
    ++runs;
    if (S->status != 2) return false;
    Outcome o = take();
    if (sig_of(o) != want) return false;
    size_t a = 0, b = 0;
    for (int i = 0; i < NSTREAM; ++i) a += o.recs[i].size(), b += best.recs[i].size();
    (void)a;
    (void)b;
    best = o;
    return true;
  }
  void shrink_stream(int s) {
    size_t chunk = std::max<size_t>(1, best.recs[s].size() / 2);
    while (wall() < deadline) {
      bool any = false;
      for (size_t i = 0; i < best.recs[s].size() && wall() < deadline;) {
        std::vector<Rec> r[NSTREAM];
        for (int k = 0; k < NSTREAM; ++k) r[k] = best.recs[k];
        size_t e = std::min(r[s].size(), i + chunk);
        size_t before = r[s].size();
        r[s].erase(r[s].begin() + (long)i, r[s].begin() + (long)e);
        Outcome keep = best;
        if (try_one(r) && total(best) < total(keep)) {
          any = true;
          (void)before;
        } else {
          best = keep;
          i = e;
        }
      }
      if (chunk == 1 && !any) break;
      if (chunk > 1) chunk /= 2;
    }
  }
  void shrink_values(int s) {
    for (size_t i = 0; i < best.recs[s].size() && wall() < deadline; ++i) {
      uint64_t v = best.recs[s][i].val;
      for (uint64_t c : {(uint64_t)1, v / 2, v - 1}) {
        if (i >= best.recs[s].size() || c == 0 || c >= v) continue;
        std::vector<Rec> r[NSTREAM];
        for (int k = 0; k < NSTREAM; ++k) r[k] = best.recs[k];
        r[s][i].val = c;
        Outcome keep = best;
        if (try_one(r) && total(best) <= total(keep)) break;
        best = keep;
      }
    }
  }
  static size_t total(const Outcome& o) {
    size_t a = 0;
    for (int i = 0; i < NSTREAM; ++i) a += o.recs[i].size();
    return a;
  }
};

static uint64_t mixseed(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9e3779b97f4a7c15ull + b * 0xD1B54A32D192ED03ull + 0x632BE59BD9B4E019ull;
  x ^= x >> 31;
  x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27;
  return x >> 1;
}

int driver_main(int argc, char** argv) {
  // no address space randomisation
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::map<std::string, std::string> o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--", 0) == 0) {
      if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) o[a.substr(2)] = argv[i + 1], ++i;
      else o[a.substr(2)] = "1";
    }
  }
  if (o.count("list")) {
    for (auto& s : scenarios()) printf("%s\n", s.name);
    return 0;
  }
  if (o.count("cpu")) {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    cpu_set_t all;
    sched_getaffinity(0, sizeof all, &all);
    int want = atoi(o["cpu"].c_str()), k = 0, cnt = CPU_COUNT(&all);
    want %= cnt ? cnt : 1;
    for (int c = 0; c < CPU_SETSIZE; ++c)
      if (CPU_ISSET(c, &all) && k++ == want) CPU_SET(c, &cs);
    sched_setaffinity(0, sizeof cs, &cs);
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  struct itimerval it;
  it.it_interval.tv_sec = it.it_value.tv_sec = 1;
  it.it_interval.tv_usec = it.it_value.tv_usec = 0;
  setitimer(ITIMER_REAL, &it, nullptr);
  double wl = o.count("run-wall") ? atof(o["run-wall"].c_str()) : 60;

  if (o.count("replay") || o.count("minimise")) {
    RunSpec sp;
    std::string cls, vprop;
    uint64_t hash = 0;
    std::string path = o.count("replay") ? o["replay"] : o["minimise"];
    if (!read_replay(path, sp, cls, vprop, hash)) {
      fprintf(stderr, "cannot read %s\n", path.c_str());
      return 3;
    }
    if (o.count("replay")) {
      run_forked(sp, wl);
      Outcome r = take();
      printf("{\"status\":%u,\"prop\":\"%s\",\"class\":\"%s\",\"hash\":%llu,\"same\":%s,\"message\":\"%s\"}\n",
             r.status, r.prop.c_str(), jesc(r.cls.c_str()).c_str(), (unsigned long long)r.hash,
             r.status == 2 && r.hash == hash && r.cls == cls && r.prop == vprop ? "true" : "false",
             jesc(r.msg.c_str()).c_str());
      if (o.count("show")) printf("%s\n", r.log.c_str());
      return r.status == 2 ? 1 : r.status == 1 ? 0 : 3;
    }
    Shrinker sh;
    sh.base = sp;
    sh.wl = wl;
    sh.deadline = wall() + (o.count("time") ? atof(o["time"].c_str()) : 20);
    run_forked(sp, wl);
    if (S->status != 2) {
      printf("{\"status\":%u,\"error\":\"does not reproduce\"}\n", S->status);
      return 3;
    }
    sh.best = take();
    sh.want = sig_of(sh.best);
    size_t before = Shrinker::total(sh.best);
    size_t last;
    do {
      last = Shrinker::total(sh.best);
      for (int s : {SCHED, FAULT, NET, WORK}) sh.shrink_stream(s);
    } while (Shrinker::total(sh.best) < last && wall() < sh.deadline);
    for (int s : {WORK, FAULT, NET}) sh.shrink_values(s);
    sp.replay = true;
    write_replay(o["out"], sp, sh.best);
    printf("{\"status\":2,\"runs\":%d,\"before\":%zu,\"after\":%zu}\n", sh.runs, before,
           Shrinker::total(sh.best));
    return 1;
  }

  // batch search
  RunSpec sp;
  sp.scenario = o["scenario"];
  sp.prop = o["prop"];
  uint64_t base = strtoull(o["seed"].c_str(), nullptr, 10);
  uint64_t start = o.count("start") ? strtoull(o["start"].c_str(), nullptr, 10) : 0;
  uint64_t stride = o.count("stride") ? strtoull(o["stride"].c_str(), nullptr, 10) : 1;
  uint64_t max = o.count("max") ? strtoull(o["max"].c_str(), nullptr, 10) : 1000000000ull;
  double budget = o.count("time") ? atof(o["time"].c_str()) : 10;
  double t0 = wall();
  std::map<std::string, long long> faults, probes;
  std::set<uint64_t> scheds, states, runset;
  uint64_t runs = 0, errors = 0, starved = 0, steps = 0, switches = 0, hashsum = 0, nontrivial = 0;
  double simt = 0, maxwall = 0;
  unsigned long long maxsteps = 0;
  bool verify = o.count("verify") != 0;
  bool hashes = o.count("hashes") != 0;
  uint64_t mismatches = 0;
  std::string sample;
  int fails = 0;
  struct Known {
    std::string id, prop, cls, text;
  };
  std::vector<Known> knowns;  // lines: id TAB property TAB class TAB part of the message
  std::map<std::string, long long> knownhits;
  if (o.count("known")) {
    std::ifstream kf(o["known"]);
    std::string line;
    while (std::getline(kf, line)) {
      std::vector<std::string> p(1);
      for (char c : line)
        if (c == '\t') p.emplace_back();
        else p.back() += c;
      if (p.size() == 4) knowns.push_back(Known{p[0], p[1], p[2], p[3]});
    }
  }
  std::map<std::string, int> failcls;
  int maxfails = o.count("fails") ? atoi(o["fails"].c_str()) : 1;
  if (o.count("exact")) max = 1;
  for (uint64_t i = start; runs < max && wall() - t0 < budget; i += stride) {
    sp.seed = mixseed(base, i);
    sp.replay = false;
    if (o.count("exact")) sp.seed = strtoull(o["exact"].c_str(), nullptr, 10);
    double r0 = wall();
    run_forked(sp, wl);
    maxwall = std::max(maxwall, wall() - r0);
    ++runs;
    Outcome r;
    r = take();
    steps += r.steps;
    maxsteps = std::max<unsigned long long>(maxsteps, r.steps);
    switches += r.switches;
    simt += r.t / 1e9;
    hashsum = (hashsum ^ r.hash) * 1099511628211ull;
    if (hashes) printf("H %llu %llu %u\n", (unsigned long long)sp.seed, (unsigned long long)r.hash, r.status);
    long long nf = 0;
    for (uint32_t k = 0; k < S->nstates; ++k) states.insert(S->states[k]);
    std::istringstream is(S->stats);
    std::string k, n;
    long long v;
    while (is >> k >> n >> v) {
      (k == "F" ? faults : probes)[n] += v;
      if (k == "F") nf += v;
    }
    if (r.status != 3 && (r.switches > 2 || nf > 0)) {
      ++nontrivial;
      runset.insert(r.hash);
      scheds.insert(S->sched_hash);
    }
    if (r.status == 4) {
      ++starved;
      if (starved > 20) break;
      continue;
    }
    if (r.status == 3 || r.status == 0) {
      ++errors;
      fprintf(stderr, "simulator error in seed %llu: %s\n", (unsigned long long)sp.seed, r.msg.c_str());
      if (errors > 3) break;
      continue;
    }
    if (verify && r.status != 3) {
      uint64_t h = r.hash;
      run_forked(sp, wl);
      if (S->status != 4 && S->hash != h) ++mismatches, printf("MISMATCH %llu\n", (unsigned long long)sp.seed);
      // and as a replay of its recorded choices
      RunSpec rp = sp;
      rp.replay = true;
      for (int q = 0; q < NSTREAM; ++q) rp.recs[q] = r.recs[q];
      run_forked(rp, wl);
      if (S->status != 4 && S->hash != h) ++mismatches, printf("REPLAY-MISMATCH %llu\n", (unsigned long long)sp.seed);
    }
    if (sample.empty() && (r.switches > 2 || nf > 0)) {
      std::ostringstream os;
      os << "seed " << sp.seed << ": " << r.steps << " steps, " << r.switches << " switches, "
         << r.t / 1e9 << " s simulated; last events: ";
      std::string l = r.log;
      if (l.size() > 900) l = l.substr(l.size() - 900);
      sample = os.str() + l;
    }
    if (r.status == 2) {
      bool known = false;
      for (auto& kf : knowns)
        if (kf.prop == r.prop && kf.cls == r.cls && r.msg.find(kf.text) != std::string::npos) {
          ++knownhits[kf.id];
          known = true;
          break;
        }
      if (known) continue;
      ++failcls[r.prop + "|" + r.cls];
      ++fails;
      if (o.count("verbose"))
        fprintf(stderr, "seed %llu: %s %s: %s\n", (unsigned long long)sp.seed, r.prop.c_str(),
                r.cls.c_str(), r.msg.c_str());
      if (fails == 1 && o.count("fail-out")) {
        RunSpec rp = sp;
        write_replay(o["fail-out"], rp, r);
      }
      if (fails >= maxfails) break;
    }
  }
  std::ostringstream js;
  js << "{\"runs\":" << runs << ",\"fails\":" << fails << ",\"errors\":" << errors << ",\"starved\":" << starved
     << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"sim_s\":" << simt
     << ",\"wall_s\":" << wall() - t0 << ",\"max_run_wall\":" << maxwall << ",\"max_run_steps\":" << maxsteps
     << ",\"nontrivial\":" << nontrivial << ",\"mismatches\":" << mismatches << ",\"hash\":" << hashsum;
  auto dump = [&](const char* nm, std::map<std::string, long long>& m) {
    js << ",\"" << nm << "\":{";
    bool first = true;
    for (auto& k : m) js << (first ? "" : ",") << "\"" << k.first << "\":" << k.second, first = false;
    js << "}";
  };
  dump("faults", faults);
  dump("probes", probes);
  dump("known", knownhits);
  js << ",\"classes\":{";
  bool first = true;
  for (auto& k : failcls) js << (first ? "" : ",") << "\"" << jesc(k.first.c_str()) << "\":" << k.second, first = false;
  js << "},\"sample\":\"" << jesc(sample.c_str()) << "\"";
  // distinct interleavings / states are merged by the caller over all workers
  auto list = [&](const char* nm, std::set<uint64_t>& s) {
    js << ",\"" << nm << "_n\":" << s.size() << ",\"" << nm << "\":[";
    bool f = true;
    size_t n = 0;
    for (auto v : s) {
      if (++n > 400000) break;
      js << (f ? "" : ",") << v, f = false;
    }
    js << "]";
  };
  if (!o.count("nolists")) {
    list("scheds", scheds);
    list("runset", runset);
    list("states", states);
  }
  js << "}";
  if (o.count("out")) {
    std::ofstream f(o["out"]);
    f << js.str();
  } else {
    printf("%s\n", js.str().c_str());
  }
  return errors ? 3 : fails ? 1 : 0;
}
}  // namespace sim
