// C06: every shipped decay channel, at masses from threshold to far above the
// pole, for boosted mothers, with enumerated answers of the random engine:
// four-momentum and charges are conserved and daughters are on shell.
#include <cmath>

#include "mc_rng.h"
#include "smash/decayaction.h"
#include "smash/decaytype.h"
#include "smash/kinematics.h"
#include "smash/processbranch.h"
#include "smash_params.h"

using namespace smash;

namespace {
std::string branch_name(const ParticleType &t, const ParticleTypePtrList &l) {
  std::string s = t.pdgcode().string() + "->";
  for (auto p : l)
    s += p->pdgcode().string() + " ";
  return s;
}
struct Sum {
  FourVector p;
  int b = 0, q = 0, s = 0, c = 0, bt = 0;
  void add(const ParticleData &d) {
    p += d.momentum();
    const PdgCode k = d.pdgcode();
    b += k.baryon_number();
    q += k.charge();
    s += k.strangeness();
    c += k.charmness();
    bt += k.bottomness();
  }
};

void one(const ParticleType &t, const DecayBranch &br, double m, ThreeVector mom,
         const std::vector<double> &script, int salt) {
  const auto types = br.particle_types();
  const std::string name =
      branch_name(t, types) +
      mc::fmt("m=%.9g p=%s u=(%g,%g,%g) salt=%d", m, mc::str(mom).c_str(),
              script[0], script[1], script[2], salt);
  mc::cur(name);
  const double t_dec = 12.75;
  Particles parts;
  ParticleData in(t);
  in.set_4momentum(m, mom);
  in.set_4position(FourVector(t_dec - 0.5, 1, -2, 3));
  in.set_formation_time(3.);
  in.set_cross_section_scaling_factor(1.);
  in.set_history(2, 17, ProcessType::Elastic, 2., {});
  parts.insert(in);
  ParticleData bystander(t);
  bystander.set_4momentum(m, mom);
  parts.insert(bystander);
  in = parts.front();
  bystander = parts.back();
  DecayAction act(in, 0.5, SpinInteractionType::Off);
  act.add_decay(std::make_unique<DecayBranch>(br.type(), br.weight()));
  // answers: the enumerated ones, then a well-spread filler
  mc::rng_script_u(script, mc::filler(salt));
  // as the event loop does: propagate to the decay, refresh, decay, perform
  ParticleData moved = in;
  moved.set_4position(FourVector(
      t_dec, in.position().threevec() + in.velocity() * 0.5));
  for (auto &p : parts)
    if (p.id() == in.id())
      p = moved;
  act.update_incoming(parts);
  try {
    act.generate_final_state();
    if (!act.is_valid(parts)) {
      mc::viol(name, "the decay is not valid for its own particle");
      return;
    }
    act.perform(&parts, 99);
  } catch (const std::exception &e) {
    mc::viol(name, std::string("the decay failed: ") + e.what());
    return;
  }
  mc::transition();
  Sum a, b;
  a.add(moved);
  ParticleList out;
  bool found_bystander = false, mother_left = false;
  for (auto &p : parts) {
    if (p.id() == bystander.id()) {
      found_bystander = p.momentum() == bystander.momentum();
      continue;
    }
    if (p.id() == in.id())
      mother_left = true;
    out.push_back(p);
    b.add(p);
  }
  if (!found_bystander || mother_left || out.size() != types.size()) {
    mc::viol(name, mc::fmt("after the decay the list contains %zu products",
                           out.size()));
    return;
  }
  const double e = a.p.x0();
  const FourVector d = a.p - b.p;
  // rounding grows with the boost
  const double tol = 1e-6 * std::max(1., e);
  for (int k = 0; k < 4; k++)
    if (!(std::fabs(d[k]) < tol)) {
      mc::viol(name, "four-momentum changes by " + mc::str(d));
      return;
    }
  if (a.q != b.q || a.b != b.b ||
      (!t.is_stable() && (a.s != b.s || a.c != b.c || a.bt != b.bt))) {
    mc::viol(name, mc::fmt("charges (B,Q,S) change from (%d,%d,%d) to "
                           "(%d,%d,%d)", a.b, a.q, a.s, b.b, b.q, b.s));
    return;
  }
  // daughters are those of the chosen channel, on shell, at the mother's place
  std::multiset<int> want, got;
  double msum = 0;
  for (auto p : types)
    want.insert(p->pdgcode().get_decimal());
  for (auto &p : out) {
    got.insert(p.pdgcode().get_decimal());
    const double mass = p.effective_mass();
    msum += mass;
    const double off = p.momentum().sqr() - mass * mass;
    const bool mass_ok =
        p.type().is_stable()
            ? std::fabs(mass - p.type().mass()) < 1e-6 * std::max(1., e)
            : mass > p.type().min_mass_kinematic() - 1e-6;
    if (!mass_ok ||
        !(std::fabs(off) < 1e-6 * std::max(1., p.momentum().x0() *
                                                    p.momentum().x0()))) {
      mc::viol(name, mc::fmt("product %s has mass %g (off shell by %g)",
                             p.pdgcode().string().c_str(), mass, off));
      return;
    }
    if (p.position() != moved.position() || p.formation_time() != t_dec ||
        p.xsec_scaling_factor() != 1. ||
        p.get_history().id_process != 99 ||
        p.get_history().process_type != ProcessType::Decay ||
        p.get_history().collisions_per_particle < 1 ||
        p.get_history().p1 != t.pdgcode() ||
        p.get_history().time_last_collision != t_dec) {
      const auto h = p.get_history();
      mc::viol(name, "position, formation time or history of product " +
                         p.pdgcode().string() + " is wrong: " +
                         mc::str(p.position()) +
                         mc::fmt(" formed at %g with %g; process %u type %d "
                                 "collisions %d time %g", p.formation_time(),
                                 p.xsec_scaling_factor(), h.id_process,
                                 static_cast<int>(h.process_type),
                                 h.collisions_per_particle,
                                 h.time_last_collision));
      return;
    }
  }
  if (want != got) {
    mc::viol(name, "products are not those of the channel");
    return;
  }
  if (msum > m + 1e-6) {
    mc::viol(name, mc::fmt("the masses of the products add up to %g", msum));
    return;
  }
  mc::trace();
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_tables();
  uint64_t job = 0;
  std::vector<std::vector<double>> scripts;
  const std::vector<double> u = mc::thorough()
                                    ? std::vector<double>{0., 0.21, 0.5, 0.83, 2.}
                                    : std::vector<double>{0., 0.42, 2.};
  for (double a : u)
    for (double b : u)
      for (double c : u)
        scripts.push_back({a, b, c});
  for (const ParticleType &t : ParticleType::list_all()) {
    if (t.decay_modes().is_empty())
      continue;
    if (!mc::mine(job++))
      continue;
    const double g = t.width_at_pole();
    std::set<double> masses;
    if (t.is_stable()) {
      masses = {t.mass()};
    } else {
      const double m0 = t.min_mass_spectral();
      masses = {m0 + 1e-5, m0 + 0.02, t.mass(), t.mass() + g,
                t.mass() + 5 * g + 0.3};
      if (t.mass() - g > m0)
        masses.insert(t.mass() - g);
    }
    std::set<std::string> seen;
    for (double m : masses) {
      FourVector p0(m, 0, 0, 0);
      DecayBranchList all = t.get_partial_widths(p0, ThreeVector(0, 0, 0),
                                                 WhichDecaymodes::All);
      // the open channels have positive width and are kinematically possible
      double total = 0;
      for (auto &br : all) {
        total += br->weight();
        double thr = 0;
        for (auto p : br->particle_types())
          thr += p->min_mass_kinematic();
        if (!(br->weight() > 0.) || thr > m + 1e-9)
          mc::viol(branch_name(t, br->particle_types()),
                   mc::fmt("is offered with width %g at mass %g (threshold %g)",
                           br->weight(), m, thr));
      }
      if (t.is_stable() ? total < 0 : !(std::fabs(total - t.total_width(m)) <=
                                        1e-8 + 1e-6 * total))
        mc::viol(mc::fmt("%s total width at %g", t.pdgcode().string().c_str(),
                         m),
                 mc::fmt("partial widths add up to %g, total width is %g",
                         total, t.total_width(m)));
      for (auto &br : all) {
        seen.insert(branch_name(t, br->particle_types()));
        mc::state(branch_name(t, br->particle_types()) + mc::fmt("%.6g", m));
        // the rejection sampler needs practically forever for channels of
        // vanishing width (daughters far below their poles)
        if (!t.is_stable() &&
            (br->weight() < 1e-3 * total || br->weight() < 1e-6)) {
          mc::extra("(channel, mass) pairs too narrow to be executed");
          continue;
        }
        mc::extra("(channel, mass) pairs executed");
        const bool many = br->particle_types().size() == 3;
        for (ThreeVector mom :
             {ThreeVector(0, 0, 0), ThreeVector(0.3, -0.2, 0.9),
              ThreeVector(-4., 0., -60.)})
          for (size_t i = 0; i < scripts.size(); i++) {
            one(t, *br, m, mom, scripts[i], 1 + static_cast<int>(i));
            if (many && i % 3 == 0)
              one(t, *br, m, mom, scripts[i], 100 + static_cast<int>(i));
            if (mc::too_many())
              return mc::finish();
          }
      }
    }
    // every shipped channel that is open somewhere must have been reached
    for (auto &br : t.decay_modes().decay_mode_list())
      if (!seen.count(branch_name(t, br->particle_types())) &&
          br->weight() > 0. && !t.is_stable()) {
        double thr = 0;
        for (auto p : br->particle_types())
          thr += p->min_mass_kinematic();
        if (thr < *masses.rbegin() - 1e-3)
          mc::extra("channels without width in the mass grid");
      }
    mc::sample(t.pdgcode().string() + mc::fmt(": %zu masses, %zu channels",
                                              masses.size(), seen.size()));
  }
  return mc::finish();
}
