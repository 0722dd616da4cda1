#pragma once
#include <cstdint>
#include "internal.h"
namespace sim {
// Lives in memory shared between the driver and the forked run.
struct Shared {
  uint32_t status;  // 0 died, 1 ok, 2 violation, 3 simulator error
  char prop[32];
  char cls[96];
  char msg[6144];
  uint64_t hash, sched_hash, steps, switches;
  int64_t t;
  uint32_t nrec[NSTREAM];
  uint32_t over;  // more choices than fit
  char stats[32768];
  char detail[65536];
  uint32_t nstates;
  uint64_t states[8192];
  uint32_t lognext;
  char logring[256][160];
  Rec recs[NSTREAM][400000];
};
extern Shared* S;
struct RunSpec {
  std::string scenario;
  std::string prop;
  uint64_t seed = 0;
  bool replay = false;
  std::vector<Rec> recs[NSTREAM];
};
// Runs one simulation in a forked child; results in *S.
void run_forked(const RunSpec& spec, double wall_limit);
extern std::string g_prop;
}  // namespace sim
