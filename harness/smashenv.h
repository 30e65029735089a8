// particle lists for the harnesses
#ifndef VERIF_SMASHENV_H
#define VERIF_SMASHENV_H
#include <fstream>
#include <iterator>
#include <string>

#include "smash/decaymodes.h"
#include "smash/isoparticletype.h"
#include "smash/particledata.h"
#include "smash/particletype.h"
#include "smash/random.h"

namespace h {
inline std::string slurp(const std::string &p) {
  std::ifstream f(p);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
inline std::string env(const char *n, const char *d) {
  const char *v = getenv(n);
  return v ? v : d;
}
inline std::string repo() { return env("VERIF_REPO", "/repo"); }
inline std::string verif() { return env("VERIF_DIR", "/verif"); }
inline std::string full_particles() { return slurp(repo() + "/input/particles.txt"); }
inline std::string full_decaymodes() { return slurp(repo() + "/input/decaymodes.txt"); }
inline std::string mid_particles() { return slurp(verif() + "/workloads/mid/particles.txt"); }
inline std::string mid_decaymodes() { return slurp(verif() + "/workloads/mid/decaymodes.txt"); }
inline void load_full(bool modes = true) {
  smash::ParticleType::create_type_list(full_particles());
  if (modes) {
    smash::DecayModes::load_decaymodes(full_decaymodes());
    smash::ParticleType::check_consistency();
  }
}
inline void load_mid(bool modes = true) {
  smash::ParticleType::create_type_list(mid_particles());
  if (modes) {
    smash::DecayModes::load_decaymodes(mid_decaymodes());
    smash::ParticleType::check_consistency();
  }
}
}  // namespace h
#endif
