// What scenarios see of the driver.
#pragma once
#include "sim.h"

namespace sim {
struct Ctx {
  uint64_t seed = 0;
  int life = 0;
  bool thorough = false;
  Rng rng;            // workload choices; same in every life of a run
  SchedConfig sched;  // swarm choice made by the driver, may be adjusted before begin()
  bool op(uint32_t i) const { // is workload step i kept (the minimiser drops some)
    if (i + 1 > sh->nOps) sh->nOps = i + 1;
    return i >= kMaxOps || !sh->opOff[i];
  }
  Rng opRng(uint64_t i) const { return Rng(seed * 0x9e3779b97f4a7c15ull + i * 0x2545f4914f6cdd1dull + 17); }
  void begin() { startSim(sched, seed); if (life > 0) fs::deserialize(); }
  void end() { stopSim(); }
};
using ScenFn = void (*)(Ctx&);
struct Scenario {
  const char* property;
  const char* name;
  double weight;
  ScenFn fn;
};
struct Register {
  Register(const char* property, const char* name, double weight, ScenFn fn);
};
struct RegisterWarm {
  explicit RegisterWarm(void (*fn)());
};
#define SCENARIO(prop, nm, weight)                                              \
  static void scen_##nm(sim::Ctx& ctx);                                        \
  static sim::Register reg_##nm(prop, #nm, weight, scen_##nm);                 \
  static void scen_##nm([[maybe_unused]] sim::Ctx& ctx)

// text notes that survive a simulated crash (acknowledgements)
void note(const std::string& s);
std::vector<std::string> notes();
} // namespace sim
