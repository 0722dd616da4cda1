// Identifiers drawn by several threads and by forked processes never collide.
#include <set>
#include <thread>
#include "common/random.h"
#include "kit/kit.h"
using namespace lightstep;

namespace {
const char* P = "C10";
struct Draws {
  std::vector<uint64_t> ids;
};
void draw(std::vector<uint64_t>& out, int n) {
  for (int i = 0; i < n; ++i) {
    if (sim::chance(sim::WORK, 0.3)) {
      auto a = GenerateIds<3>();
      sim::Harness g;
      for (auto x : a) out.push_back(x);
    } else {
      uint64_t x = GenerateId();
      sim::Harness g;
      out.push_back(x);
    }
    sim::yield();
  }
}
std::string pack(const std::vector<uint64_t>& v) {
  std::string s;
  char b[24];
  for (auto x : v) {
    snprintf(b, sizeof b, "%llx ", (unsigned long long)x);
    s += b;
  }
  return s;
}
void unpack(const std::string& s, std::vector<uint64_t>& out) {
  const char* p = s.c_str();
  while (*p) {
    char* e;
    uint64_t x = strtoull(p, &e, 16);
    if (e == p) break;
    out.push_back(x);
    p = *e ? e + 1 : e;
  }
}
// What a process does: some threads draw, the forking thread draws and forks.
std::vector<uint64_t> process(int depth) {
  std::vector<uint64_t> all;
  int threads = (int)sim::choose(sim::WORK, depth ? 3 : 4);
  std::vector<std::vector<uint64_t>> per(threads);
  std::vector<std::thread> th;
  for (int i = 0; i < threads; ++i)
    th.emplace_back([&, i] { draw(per[i], (int)sim::range(sim::WORK, 1, 6)); });
  if (sim::chance(sim::WORK, 0.8)) draw(all, (int)sim::range(sim::WORK, 1, 4));
  int forks = depth >= 2 ? 0 : (int)sim::choose(sim::WORK, 4 - (uint64_t)depth);
  for (int f = 0; f < forks; ++f) {
    std::string r = sim::fork_real([&] { return pack(process(depth + 1)); });
    sim::Harness g;
    unpack(r, all);
    sim::probe(depth ? "grandchild" : "child");
  }
  if (sim::chance(sim::WORK, 0.7)) draw(all, (int)sim::range(sim::WORK, 1, 4));
  for (auto& t : th) t.join();
  // threads started after a fork
  if (forks && sim::chance(sim::WORK, 0.4)) {
    std::vector<uint64_t> late;
    std::thread t{[&] { draw(late, 3); }};
    t.join();
    all.insert(all.end(), late.begin(), late.end());
  }
  for (auto& v : per) all.insert(all.end(), v.begin(), v.end());
  return all;
}

// Two threads whose entropy differs in a single word: at least 64 of the bits
// they took must matter.
void independence() {
  uint64_t seed = sim::choose(sim::WORK, 1000);
  int words = 0, matter = 0;
  std::vector<uint64_t> first;
  for (int flip = -1; flip < words; ++flip) {
    std::vector<uint64_t> ids;
    sim::entropy_script(seed, flip);
    std::thread t{[&] { draw(ids, 2); }};
    t.join();
    int n = sim::entropy_script_end();
    sim::Harness g;
    if (flip < 0) words = std::min(n, 64), first = ids;
    else matter += !ids.empty() && !first.empty() && ids[0] != first[0];
  }
  if (words == 0) {
    if (sim::config().entropy_fail == 0) sim::fail(P, "unseeded", "a thread's identifiers don't depend on any entropy");
  } else if (matter < 2) {
    sim::fail(P, "seeding", "%d of %d words of entropy matter for a thread's identifiers", matter, words);
  }
  sim::probe("independence");
}
// A long sequence of one thread.
void sequence() {
  std::vector<uint64_t> v;
  std::thread t{[&] {
    int n = (int)sim::range(sim::WORK, 500, 3000);
    for (int i = 0; i < n; ++i) {
      uint64_t x = GenerateId();
      sim::Harness g;
      v.push_back(x);
    }
  }};
  t.join();
  sim::Harness g;
  std::set<uint64_t> seen;
  for (size_t i = 0; i < v.size(); ++i)
    if (!seen.insert(v[i]).second)
      sim::fail(P, "collision", "identifier %llx was generated twice by one thread, the second time as number %zu",
                (unsigned long long)v[i], i);
  sim::probe("sequence");
}
}  // namespace

SIM_SCENARIO(ids) {
  sim::config().step_cap = 400000;
  if (sim::chance(sim::WORK, 0.1)) return independence();
  if (sim::chance(sim::WORK, 0.05)) return sequence();
  std::vector<uint64_t> all;
  // identifiers are often first drawn by a thread that then forks
  all = process(0);
  sim::Harness g;
  std::set<uint64_t> seen;
  for (auto x : all) {
    if (!seen.insert(x).second)
      sim::fail(P, "collision", "identifier %llx was generated twice among %zu", (unsigned long long)x, all.size());
    sim::probe("ids");
  }
  // no thread's generator may be stuck or unseeded
  if (seen.count(0)) sim::fail(P, "zero", "identifier 0 generated");
}
