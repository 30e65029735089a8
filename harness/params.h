// ExperimentParameters with harmless defaults
#ifndef VERIF_PARAMS_H
#define VERIF_PARAMS_H
#include "smash/clock.h"
#include "smash/input_keys.h"
#include "smash/experimentparameters.h"
namespace h {
inline smash::ExperimentParameters params(int testparticles = 1, double dt = 0.1, double t0 = 0., double end = 300.,
                                          double sigma = 1.0, double cutoff = 4.0, int ensembles = 1,
                                          smash::SmearingMode smearing = smash::SmearingMode::CovariantGaussian) {
  using namespace smash;
  ReactionsBitSet all;
  all.set();
  MultiParticleReactionsBitSet none;
  none.reset();
  return ExperimentParameters{std::make_unique<UniformClock>(t0, dt, end),
                              std::make_unique<UniformClock>(t0, 1., end),
                              ensembles,
                              testparticles,
                              DerivativesMode::CovariantGaussian,
                              RestFrameDensityDerivativesMode::Off,
                              FieldDerivativesMode::ChainRule,
                              smearing,
                              sigma,
                              cutoff,
                              0.333333,
                              2.0,
                              CollisionCriterion::Geometric,
                              true,
                              all,
                              none,
                              false,
                              1.0,
                              NNbarTreatment::NoAnnihilation,
                              0.,
                              false,
                              -1.0,
                              200.0,
                              2.5,
                              1.0,
                              false,
                              false,
                              true,
                              SpinInteractionType::Off,
                              std::nullopt};
}
}  // namespace h
#endif
