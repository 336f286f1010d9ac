// C41: which particles decay when (within a step) and forced final decays
// down to particles that cannot decay any more.
#include <cmath>

#include "mc_rng.h"
#include "smash/decayaction.h"
#include "smash/decayactionsfinder.h"
#include "smash/constants.h"
#include "smash_params.h"

using namespace smash;

namespace {
const std::vector<double> kU = {1e-6, 0.2, 0.5, 0.9, 2., 0.};

std::set<double> masses(const ParticleType &t) {
  if (t.is_stable())
    return {t.mass()};
  return {t.min_mass_spectral() + 1e-4, t.mass(),
          t.mass() + 3 * t.width_at_pole()};
}

void step(const ParticleType &t) {
  for (double m : masses(t))
    for (double pz : {0., 0.8, -25.})
      for (double dt : {0.05, 1.0, 40., 1e7})
        for (double factor : {1.0, 0.5, 3., 0.})
          for (int formed = 0; formed < 3; formed++)
            for (int initial = 0; initial < 4; initial++)
              for (double u : kU) {
                // initial: bit 0 = never interacted, bit 1 = option off
                const bool never = initial & 1, allow = !(initial & 2);
                if (initial && (formed || factor != 1.0))
                  continue;
                const std::string name = mc::fmt(
                    "%s m=%g pz=%g dt=%g lifetime factor=%g formed=%d "
                    "initial=%d allowed=%d u=%g", t.pdgcode().string().c_str(),
                    m, pz, dt, factor, formed, never, allow, u);
                mc::cur(name);
                DecayActionsFinder finder(factor, false, true,
                                          SpinInteractionType::Off, allow);
                ParticleData p(t, 5);
                p.set_4momentum(m, ThreeVector(0, 0, pz));
                const double t0 = 3.5, t_form = 3.9;
                p.set_4position(FourVector(t0, 1, 2, 3));
                p.set_formation_time(0.);
                p.set_cross_section_scaling_factor(1.);
                if (formed) {
                  p.set_slow_formation_times(1., t_form);
                  p.set_cross_section_scaling_factor(formed == 1 ? 0. : 0.5);
                }
                if (!never)
                  p.set_history(1, 3, ProcessType::Elastic, 1., {});
                ParticleData pion(ParticleType::find(PdgCode("211")), 6);
                pion.set_4momentum(pion.pole_mass(), ThreeVector(0, 0, 1));
                pion.set_4position(FourVector(t0, 0, 0, 0));
                pion.set_formation_time(0.);
                pion.set_cross_section_scaling_factor(1.);
                // the unit exponential variate these answers stand for
                mc::rng_script_u({u, 0.3});
                const double s = random::exponential(1.0);
                mc::rng_script_u({u, 0.3});
                ActionList acts;
                try {
                  acts = finder.find_actions_in_cell({pion, p}, dt, 0., {});
                } catch (const std::exception &e) {
                  mc::viol(name, std::string("failed: ") + e.what());
                  return;
                }
                mc::transition();
                double width = 0;
                if (!t.is_stable())
                  for (auto &b : t.get_partial_widths(
                           p.momentum(), ThreeVector(0, 0, 0),
                           WhichDecaymodes::Hadronic))
                    width += b->weight();
                const double gamma = p.momentum().x0() / m;
                double when = factor * s * gamma * hbarc / width;
                if (formed)
                  when += t_form - t0;
                const bool may = !t.is_stable() && width > 0 &&
                                 (allow || !never);
                if (may && std::fabs(when - dt) < 1e-9 * (1 + dt))
                  continue;
                const bool want = may && when < dt;
                if (acts.size() != (want ? 1u : 0u)) {
                  mc::viol(name, mc::fmt("%zu decays found, the decay is at "
                                         "%g of %g", acts.size(), when, dt));
                  continue;
                }
                if (want) {
                  const auto &a = *acts[0];
                  if (a.incoming_particles().size() != 1 ||
                      a.incoming_particles()[0].id() != 5 ||
                      !mc::close_to(a.time_of_execution(), t0 + when,
                                    1e-9 * (1 + when)) ||
                      !mc::rel_close(a.get_total_weight(), width, 1e-9))
                    mc::viol(name, mc::fmt("decay of %d at %.12g with width "
                                           "%g instead of %.12g, %g",
                                           a.incoming_particles()[0].id(),
                                           a.time_of_execution(),
                                           a.get_total_weight(), t0 + when,
                                           width));
                }
                mc::state(name);
                mc::trace();
              }
}

void cascade(const ParticleType &t, double m, bool force, bool nonstrong,
             double u, int salt) {
  const std::string name =
      mc::fmt("final decays of %s m=%g force=%d nonstrong=%d u=%g salt=%d",
              t.pdgcode().string().c_str(), m, force, nonstrong, u, salt);
  mc::cur(name);
  DecayActionsFinder finder(1., nonstrong, force);
  Particles parts;
  for (int i = 0; i < 2; i++) {
    ParticleData p(t);
    p.set_4momentum(m, ThreeVector(0.2, -0.3, i));
    p.set_4position(FourVector(100., 1, 2, 3 * i));
    p.set_formation_time(0.);
    p.set_cross_section_scaling_factor(1.);
    parts.insert(p);
  }
  FourVector before, after;
  int q = 0, b = 0;
  for (auto &p : parts) {
    before += p.momentum();
    q += p.pdgcode().charge();
    b += p.pdgcode().baryon_number();
  }
  mc::rng_script_u({u}, mc::filler(salt));
  int rounds = 0;
  while (true) {
    ActionList acts = finder.find_final_actions(parts);
    size_t want = 0;
    for (auto &p : parts)
      want += force &&
              !p.type()
                   .get_partial_widths(p.momentum(), ThreeVector(0, 0, 0),
                                       WhichDecaymodes::All)
                   .empty() &&
              (nonstrong || !p.type().is_stable());
    if (acts.size() != want) {
      mc::viol(name, mc::fmt("%zu decays offered for %zu decaying particles",
                             acts.size(), want));
      return;
    }
    if (acts.empty())
      break;
    for (auto &a : acts) {
      try {
        a->update_incoming(parts);
        a->generate_final_state();
        a->perform(&parts, 1 + rounds);
        mc::transition();
      } catch (const std::exception &e) {
        mc::viol(name, std::string("a final decay failed: ") + e.what());
        return;
      }
    }
    if (++rounds > 40) {
      mc::viol(name, "the final decays do not end");
      return;
    }
  }
  for (auto &p : parts) {
    after += p.momentum();
    q -= p.pdgcode().charge();
    b -= p.pdgcode().baryon_number();
    if (std::fabs(p.position().x0() - 100.) > 1e-12)
      mc::viol(name, "a product of a final decay is not at the final time");
  }
  const FourVector d = before - after;
  for (int k = 0; k < 4; k++)
    if (!(std::fabs(d[k]) < 1e-5))
      return mc::viol(name, "the cascade changes four-momentum by " +
                                mc::str(d));
  if (q || b)
    mc::viol(name, mc::fmt("the cascade changes charge by %d, baryon number "
                           "by %d", -q, -b));
  mc::state(name);
  mc::trace();
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_tables();
  uint64_t job = 0;
  for (const ParticleType &t : ParticleType::list_all()) {
    if (!mc::mine(job++) || mc::too_many())
      continue;
    step(t);
    if (t.decay_modes().is_empty())
      continue;
    for (double m : {t.mass(), t.mass() + t.width_at_pole(),
                     t.mass() - 0.5 * t.width_at_pole()}) {
      if (t.is_stable() && m != t.mass())
        continue;
      if (m < t.min_mass_spectral() + 0.01)
        continue;
      for (int force = 0; force < 2; force++)
        for (int ns = 0; ns < 2; ns++)
          for (double u : {0., 0.3, 0.7, 2.})
            for (int salt = 1; salt <= mc::bound(2, 12); salt++)
              cascade(t, m, force, ns, u, salt);
    }
    mc::sample(t.pdgcode().string());
  }
  return mc::finish();
}
