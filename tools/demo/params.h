#pragma once
#include "smash/experimentparameters.h"
#include "smash/scatteractionsfinder.h"
// elastic: constant elastic cross section in mb (negative: parametrized)
static smash::Configuration demo_finder_config(double elastic) {
  char t[400];
  std::snprintf(t, sizeof t,
                "Collision_Term: {Elastic_Cross_Section: %g, "
                "Total_Cross_Section_Strategy: \"BottomUp\"}\n"
                "Modi: {Collider: {Collisions_Within_Nucleus: true}}\n",
                elastic);
  return smash::Configuration(t, smash::Configuration::InitializeFromYAMLString);
}
static smash::ExperimentParameters demo_params(bool all = false) {
  using namespace smash;
  ReactionsBitSet el;
  if (all) el.set(); else el.set(IncludedReactions::Elastic);
  return ExperimentParameters{
      std::make_unique<UniformClock>(0., 0.1, 300.),
      std::make_unique<UniformClock>(0., 1., 300.), 1, 1,
      DerivativesMode::CovariantGaussian, RestFrameDensityDerivativesMode::Off,
      FieldDerivativesMode::ChainRule, SmearingMode::CovariantGaussian, 1., 4.,
      0.333333, 2., CollisionCriterion::Geometric, false, el,
      MultiParticleReactionsBitSet(), false, 1., NNbarTreatment::NoAnnihilation,
      0., false, -1., 200., 2.5, 1., false, false, true,
      SpinInteractionType::Off, std::nullopt};
}
