// Stock parameter structures for harnesses that drive parts of SMASH directly.
#pragma once
#include <memory>

// clang-format off
#include "smash_common.h"
#include "smash/forwarddeclarations.h"
#include "smash/input_keys.h"
#include "smash/experimentparameters.h"
// clang-format on

namespace mc {
struct ParamOptions {
  int ensembles = 1, testparticles = 1;
  double start = 0, dt = 0.1, out = 1., end = 300.;
  smash::CollisionCriterion crit = smash::CollisionCriterion::Geometric;
  bool strings = false;
  smash::NNbarTreatment nnbar = smash::NNbarTreatment::NoAnnihilation;
  smash::ReactionsBitSet two_to_two = smash::ReactionsBitSet().set();
  smash::MultiParticleReactionsBitSet multi =
      smash::MultiParticleReactionsBitSet().reset();
  double box = -1.;
  double max_xs = 200., min_cell = 2.5;
  double scale_xs = 1.;
  double lifetime = 1.;
  bool two_to_one = true;
  smash::SmearingMode smearing = smash::SmearingMode::CovariantGaussian;
  double sigma = 1., cutoff = 4., discrete_weight = 0.333333, tri_range = 2.;
  smash::DerivativesMode deriv = smash::DerivativesMode::CovariantGaussian;
  smash::RestFrameDensityDerivativesMode rho_deriv =
      smash::RestFrameDensityDerivativesMode::Off;
  bool only_participants = false;
  bool non_strong = false, decay_initial = true;
  double low_snn_cut = 0.;
  smash::SpinInteractionType spin = smash::SpinInteractionType::Off;
};
inline smash::ExperimentParameters params(const ParamOptions &o = {}) {
  using namespace smash;
  return ExperimentParameters{
      std::make_unique<UniformClock>(o.start, o.dt, o.end),
      std::make_unique<UniformClock>(o.start, o.out, o.end),
      o.ensembles,
      o.testparticles,
      o.deriv,
      o.rho_deriv,
      FieldDerivativesMode::ChainRule,
      o.smearing,
      o.sigma,
      o.cutoff,
      o.discrete_weight,
      o.tri_range,
      o.crit,
      o.two_to_one,
      o.two_to_two,
      o.multi,
      o.strings,
      o.lifetime,
      o.nnbar,
      o.low_snn_cut,
      false,
      o.box,
      o.max_xs,
      o.min_cell,
      o.scale_xs,
      o.only_participants,
      o.non_strong,
      o.decay_initial,
      o.spin,
      std::nullopt};
}
}  // namespace mc
