// C42: the collision finder against an independent closest-approach oracle,
// over a grid of pair geometries, criteria, histories and formation states;
// and the three search entry points against each other for every partition.
#include <algorithm>
#include <cmath>

#include "approach.h"
#include "mc_rng.h"
#include "smash/scatteractionsfinder.h"
#include "smash_params.h"

using namespace smash;

namespace {
constexpr double kFm2Mb = 0.1;

std::unique_ptr<ScatterActionsFinder> finder(CollisionCriterion crit,
                                             double sigma, int testparticles,
                                             bool within, double cut = 0.,
                                             double max_xs = 200.,
                                             double scale = 1.) {
  auto cfg = mc::config(mc::fmt(
      "Collision_Term: {Elastic_Cross_Section: %g, "
      "Total_Cross_Section_Strategy: \"BottomUp\"}\n"
      "Modi: {Collider: {Collisions_Within_Nucleus: %s}}\n",
      sigma, within ? "true" : "false"));
  mc::ParamOptions o;
  o.crit = crit;
  o.testparticles = testparticles;
  o.two_to_one = false;
  o.two_to_two.reset();
  o.two_to_two.set(IncludedReactions::Elastic);
  o.low_snn_cut = cut;
  o.max_xs = max_xs;
  o.scale_xs = scale;
  auto p = mc::params(o);
  auto f = std::make_unique<ScatterActionsFinder>(cfg, p);
  cfg.clear();
  return f;
}

const ThreeVector kMom[] = {
    ThreeVector(0, 0, 0),      ThreeVector(0.5, 0, 0), ThreeVector(-0.5, 0, 0),
    ThreeVector(0.1, 0.8, 0),  ThreeVector(0, -0.3, 3),
    ThreeVector(0.2, 0.1, -9), ThreeVector(0.5, 0, 0.01)};
const double kPos[] = {-1.13, 0.29, 1.87};

bool margin(double a, double b) {
  return std::fabs(a - b) < 1e-7 * std::max(1., std::fabs(a));
}

enum Form { Formed, FormsLater, FormsBefore, Smooth };

void pairs() {
  uint64_t job = 0;
  const std::vector<std::pair<const char *, const char *>> sp = {
      {"2212", "2212"}, {"211", "2212"}, {"111", "111"}};
  for (auto crit : {CollisionCriterion::Geometric, CollisionCriterion::Covariant})
    for (double sigma : {8., 61.})
      for (int tp : {1, 3})
        for (bool within : {false, true})
          for (double scale : {1., 0.5}) {
            auto f = finder(crit, sigma, tp, within, 0., 200., scale);
            if (scale != 1. && (tp != 1 || within))
              continue;
            for (auto &s : sp)
              for (const auto &m1 : kMom)
                for (const auto &m2 : kMom) {
                  if (!mc::mine(job++))
                    continue;
                  for (double x : kPos)
                    for (double y : kPos)
                      for (double z : kPos)
                        for (int form = 0; form < 3; form++)
                          for (int hist = 0; hist < 3; hist++)
                            for (int nuc = 0; nuc < 4; nuc++) {
                              if (form && hist)
                                continue;
                              if (nuc && (form || hist == 1))
                                continue;
                              ParticleData a(ParticleType::find(PdgCode(s.first)), 0),
                                  b(ParticleType::find(PdgCode(s.second)), 1);
                              const double t0 = 4.;
                              a.set_4momentum(a.pole_mass(), m1);
                              b.set_4momentum(b.pole_mass(), m2);
                              a.set_4position(FourVector(t0, 0.5, -0.25, 3.));
                              b.set_4position(FourVector(t0, 0.5 + x, -0.25 + y,
                                                         3. + z));
                              for (auto *p : {&a, &b}) {
                                p->set_formation_time(1.);
                                p->set_cross_section_scaling_factor(1.);
                              }
                              if (form) {
                                b.set_cross_section_scaling_factor(0.3);
                                b.set_formation_time(form == 1 ? 100. : 4.6);
                              }
                              int na = 1, nb = 1;
                              int pa = 5, pb = 6;
                              if (hist == 1)
                                pb = 5;
                              if (hist == 2)
                                na = nb = pa = pb = 0;
                              if (nuc) {
                                a.set_belongs_to(BelongsTo::Projectile);
                                b.set_belongs_to(nuc == 2 ? BelongsTo::Target
                                                          : BelongsTo::Projectile);
                                if (nuc == 3)
                                  nb = 0, pb = 0;
                              }
                              a.set_history(na, pa, ProcessType::Elastic, 1., {});
                              b.set_history(nb, pb, ProcessType::Elastic, 1., {});
                              const std::string name = mc::fmt(
                                  "%s sigma=%g tp=%d within=%d scale=%g %s+%s "
                                  "p1=%s p2=%s d=(%g,%g,%g) form=%d hist=%d "
                                  "nuc=%d",
                                  crit == CollisionCriterion::Geometric ? "geometric"
                                                                        : "covariant",
                                  sigma, tp, within, scale, s.first, s.second,
                                  mc::str(m1).c_str(), mc::str(m2).c_str(), x, y,
                                  z, form, hist, nuc);
                              mc::cur(name);
                              mc::state(name);
                              const Approach ap =
                                  approach(a, b, v4(a.momentum()),
                                           v4(b.momentum()),
                                           crit == CollisionCriterion::Covariant);
                              for (double dt : {0.7, 6.}) {
                                bool want = ap.time_defined && ap.time >= 0 &&
                                            ap.time < dt;
                                bool sure =
                                    ap.time_defined &&
                                    !margin(ap.time, 0) && !margin(ap.time, dt);
                                double xs = sigma * kFm2Mb / tp * scale;
                                if (form == 1 || (form == 2 && ap.time + t0 < 4.6))
                                  xs *= 0.3;
                                if (form == 2 && margin(ap.time + t0, 4.6))
                                  sure = false;
                                if (margin(ap.d2, xs / M_PI))
                                  sure = false;
                                want &= ap.d2 < xs / M_PI;
                                // last process the same
                                if (pa > 0 && pa == pb)
                                  want = false;
                                // untouched nucleons of one nucleus
                                if (!within && na == 0 && nb == 0 && nuc &&
                                    nuc != 2)
                                  want = false;
                                if (!ap.time_defined)
                                  want = false, sure = true;
                                for (int ord = 0; ord < 2; ord++) {
                                  const ParticleList l1 =
                                      ord ? ParticleList{b} : ParticleList{a};
                                  const ParticleList l2 =
                                      ord ? ParticleList{a} : ParticleList{b};
                                  ParticleList both = {l1[0], l2[0]};
                                  for (int entry = 0; entry < 2; entry++) {
                                    mc::rng_script_u({0.4});
                                    ActionList got =
                                        entry ? f->find_actions_with_neighbors(
                                                    l1, l2, dt, {})
                                              : f->find_actions_in_cell(both, dt,
                                                                        1., {});
                                    mc::transition();
                                    if (!sure) {
                                      mc::extra("cases on a boundary");
                                      continue;
                                    }
                                    if (got.size() != (want ? 1u : 0u)) {
                                      mc::viol(name,
                                               mc::fmt("dt=%g order %d entry %d: "
                                                       "%zu collisions found, "
                                                       "closest approach %.9g fm "
                                                       "in %.9g fm, cross section "
                                                       "%g fm^2",
                                                       dt, ord, entry, got.size(),
                                                       std::sqrt(ap.d2), ap.time,
                                                       xs));
                                      return;
                                    }
                                    mc::trace();
                                    if (!want)
                                      continue;
                                    mc::extra("collisions found");
                                    const auto in = got[0]->incoming_particles();
                                    std::set<int> ids;
                                    for (auto &p : in)
                                      ids.insert(p.id());
                                    if (ids != std::set<int>{0, 1} ||
                                        std::fabs(got[0]->time_of_execution() -
                                                  (t0 + ap.time)) > 1e-6) {
                                      mc::viol(name,
                                               mc::fmt("collision at %.12g instead "
                                                       "of %.12g",
                                                       got[0]->time_of_execution(),
                                                       t0 + ap.time));
                                      return;
                                    }
                                  }
                                }
                              }
                              if (mc::too_many())
                                return;
                            }
                }
          }
}

/// frozen Fermi motion: untouched initial nucleons move with the beam momentum
void frozen() {
  if (!mc::mine(3))
    return;
  for (auto crit : {CollisionCriterion::Geometric, CollisionCriterion::Covariant}) {
    auto f = finder(crit, 40., 1, true);
    for (int ida : {0, 1, 2, 7})
      for (int idb : {0, 1, 2, 7})
        for (int na : {0, 1})
          for (int nb : {0, 1})
            for (const auto &m1 : kMom)
              for (const auto &m2 : kMom)
                for (double x : kPos)
                  for (double z : kPos) {
                    if (ida == idb)
                      continue;
                    const ParticleType &N = ParticleType::find(PdgCode("2212"));
                    ParticleData a(N, ida), b(N, idb);
                    a.set_4momentum(0.938, m1);
                    b.set_4momentum(0.938, m2);
                    a.set_4position(FourVector(0, 0, 0, 0));
                    b.set_4position(FourVector(0, x, 0.3, z));
                    for (auto *p : {&a, &b}) {
                      p->set_formation_time(0.);
                      p->set_cross_section_scaling_factor(1.);
                    }
                    a.set_history(na, na ? 4 : 0, ProcessType::Elastic, 0., {});
                    b.set_history(nb, nb ? 5 : 0, ProcessType::Elastic, 0., {});
                    const std::vector<FourVector> beam = {
                        FourVector(2., 0, 0, std::sqrt(4 - .938 * .938)),
                        FourVector(2., 0, 0, -std::sqrt(4 - .938 * .938)),
                        FourVector(3., 0, 0, std::sqrt(9 - .938 * .938))};
                    const V4 va = v4(na == 0 && ida < 3 ? beam[ida]
                                                        : a.momentum());
                    const V4 vb = v4(nb == 0 && idb < 3 ? beam[idb]
                                                        : b.momentum());
                    const std::string name = mc::fmt(
                        "frozen Fermi %d ids %d,%d collisions %d,%d p1=%s p2=%s "
                        "d=(%g,0.3,%g)", static_cast<int>(crit), ida, idb, na, nb,
                        mc::str(m1).c_str(), mc::str(m2).c_str(), x, z);
                    mc::cur(name);
                    mc::state(name);
                    const Approach ap = approach(
                        a, b, va, vb, crit == CollisionCriterion::Covariant);
                    const double dt = 3.;
                    const double lim = 40. * kFm2Mb / M_PI;
                    auto got = f->find_actions_with_neighbors({a}, {b}, dt, beam);
                    mc::transition();
                    if (ap.time_defined &&
                        (margin(ap.time, 0) || margin(ap.time, dt)))
                      continue;
                    // at relative rest the distance is a matter of convention
                    if (margin(ap.d2, lim) || m1 == m2)
                      continue;
                    const bool want = ap.time_defined && ap.time >= 0 &&
                                      ap.time < dt && ap.d2 < lim;
                    if (got.size() != (want ? 1u : 0u) ||
                        (want && std::fabs(got[0]->time_of_execution() -
                                           ap.time) > 1e-6)) {
                      mc::viol(name, mc::fmt("%zu collisions at %g, expected %d "
                                             "at %.9g", got.size(),
                                             got.empty()
                                                 ? 0.
                                                 : got[0]->time_of_execution(),
                                             want, ap.time));
                      if (mc::too_many())
                        return;
                      continue;
                    }
                    mc::trace();
                  }
  }
}

/// in-cell, neighbour and surrounding searches agree for every partition
void partitions() {
  const ParticleType &N = ParticleType::find(PdgCode("2212"));
  const int n = mc::bound(4, 5);
  uint64_t job = 0;
  for (auto crit : {CollisionCriterion::Geometric, CollisionCriterion::Covariant}) {
    auto f = finder(crit, 40., 1, true);
    mc::explore([&](mc::Chooser &c) {
      std::vector<int> conf;
      for (int i = 0; i < n; i++)
        conf.push_back(c(6));
      if (!mc::mine(job++))
        return;
      Particles parts;
      ParticleList all;
      for (int i = 0; i < n; i++) {
        ParticleData p(N);
        p.set_4momentum(0.938, kMom[conf[i]]);
        p.set_4position(FourVector(1., 0.9 * i, 0.37 * ((i * 5) % 3),
                                   0.61 * ((i * 7) % 4)));
        p.set_formation_time(0.);
        p.set_cross_section_scaling_factor(1.);
        p.set_history(1, 10 + (i == 3 ? 1 : i), ProcessType::Elastic, 0., {});
        all.push_back(parts.insert(p));
      }
      using Key = std::tuple<int, int, double>;
      auto keys = [](const ActionList &l) {
        std::multiset<Key> s;
        for (auto &a : l) {
          auto in = a->incoming_particles();
          s.insert({std::min(in[0].id(), in[1].id()),
                    std::max(in[0].id(), in[1].id()),
                    std::round(a->time_of_execution() * 1e7)});
        }
        return s;
      };
      const double dt = 2.;
      std::string name = mc::fmt("partition crit=%d conf=", static_cast<int>(crit));
      for (int x : conf)
        name += std::to_string(x);
      mc::cur(name);
      mc::state(name);
      const auto ref = keys(f->find_actions_in_cell(all, dt, 1., {}));
      mc::transition();
      for (int mask = 1; mask < (1 << n) - 1; mask++) {
        ParticleList x, y;
        for (int i = 0; i < n; i++)
          (mask >> i & 1 ? x : y).push_back(all[i]);
        auto got = keys(f->find_actions_in_cell(x, dt, 1., {}));
        got.merge(keys(f->find_actions_in_cell(y, dt, 1., {})));
        auto got2 = got;
        got.merge(keys(f->find_actions_with_neighbors(x, y, dt, {})));
        got2.merge(
            keys(f->find_actions_with_surrounding_particles(x, parts, dt, {})));
        mc::transition(3);
        if (got != ref || got2 != ref) {
          mc::viol(name, mc::fmt("split %d: %zu / %zu collisions instead of %zu",
                                 mask, got.size(), got2.size(), ref.size()));
          return;
        }
        mc::trace();
      }
      mc::extra("collisions in partitions", ref.size());
    });
  }
}

/// stochastic criterion: probability sigma v_rel dt / V, for every answer
void stochastic() {
  uint64_t job = 0;
  const std::vector<double> answers = {0., 0.003, 0.02, 0.1, 0.3,
                                       0.5, 0.7,  0.9,  2.};
  for (double sigma : {8., 61.})
    for (int tp : {1, 3}) {
      auto f = finder(CollisionCriterion::Stochastic, sigma, tp, true);
      for (auto s : {std::make_pair("2212", "2212"), std::make_pair("211", "2212"),
                     std::make_pair("111", "111")})
        for (const auto &m1 : kMom)
          for (const auto &m2 : kMom) {
            if (!mc::mine(job++))
              continue;
            for (double vol : {0., 2.5, 30.})
              for (double dt : {0.1, 0.5})
                for (double sc : {1., 0.25})
                  for (double u : answers) {
                    ParticleData a(ParticleType::find(PdgCode(s.first)), 0),
                        b(ParticleType::find(PdgCode(s.second)), 1);
                    a.set_4momentum(a.pole_mass(), m1);
                    b.set_4momentum(b.pole_mass(), m2);
                    a.set_4position(FourVector(4., 0, 0, 0));
                    b.set_4position(FourVector(4., 0.3, 1, 0));
                    a.set_formation_time(0.);
                    a.set_cross_section_scaling_factor(1.);
                    b.set_formation_time(100.);
                    b.set_cross_section_scaling_factor(sc);
                    a.set_history(1, 5, ProcessType::Elastic, 1., {});
                    b.set_history(1, 5, ProcessType::Elastic, 1., {});
                    const std::string name = mc::fmt(
                        "stochastic sigma=%g tp=%d %s+%s p=%s %s V=%g dt=%g sc=%g "
                        "u=%g", sigma, tp, s.first, s.second,
                        mc::str(m1).c_str(), mc::str(m2).c_str(), vol, dt, sc, u);
                    mc::cur(name);
                    mc::state(name);
                    const V4 pa = v4(a.momentum()), pb = v4(b.momentum());
                    const double pp = pa.t * pb.t - dot(pa.r, pb.r);
                    const double ma = a.pole_mass(), mb = b.pole_mass();
                    const double vrel =
                        std::sqrt(std::max(0., pp * pp - ma * ma * mb * mb)) /
                        (pa.t * pb.t);
                    const double prob = vol > 0 ? sigma * kFm2Mb / tp * sc * vrel *
                                                      dt / vol
                                                : 0.;
                    mc::rng_script_u({u});
                    ActionList got;
                    bool threw = false;
                    try {
                      got = f->find_actions_in_cell({a, b}, dt, vol, {});
                    } catch (const std::runtime_error &) {
                      threw = true;
                    }
                    mc::transition();
                    const double uu = u > 1 ? 1. : u;
                    // head-on at rest: no relative velocity
                    if (std::fabs(prob - uu) < 1e-6 || std::fabs(prob - 1) < 1e-6)
                      continue;
                    const bool want = vol > 0 && uu <= prob;
                    if (threw != (prob > 1) ||
                        (!threw && got.size() != (want ? 1u : 0u))) {
                      mc::viol(name, mc::fmt("%zu collisions (threw %d), "
                                             "probability %.9g", got.size(), threw,
                                             prob));
                      if (mc::too_many())
                        return;
                      continue;
                    }
                    if (!got.empty()) {
                      const double t = got[0]->time_of_execution();
                      if (!(std::fabs(t - (4. + dt * uu)) < 1e-9) || t < 4. ||
                          t > 4. + dt)
                        mc::viol(name, mc::fmt("collision at %.12g", t));
                    }
                    // never across cells
                    if (!f->find_actions_with_neighbors({a}, {b}, dt, {}).empty())
                      mc::viol(name, "stochastic collision across cells");
                    mc::trace();
                  }
          }
    }
}

/// elastic collisions of nucleons below the cut-off are excluded
void cutoff() {
  if (!mc::mine(5))
    return;
  for (double cut : {1.9, 2.0, 2.5})
    for (double over : {0.001, 0.02, 0.1, 0.3, 0.7, 2.})
      for (auto s : {std::make_pair("2212", "2212"), std::make_pair("2212", "2112"),
                     std::make_pair("-2212", "-2112"),
                     std::make_pair("2212", "-2212"),
                     std::make_pair("211", "2212")}) {
        auto f = finder(CollisionCriterion::Geometric, 40., 1, true, cut);
        ParticleData a(ParticleType::find(PdgCode(s.first)), 0),
            b(ParticleType::find(PdgCode(s.second)), 1);
        const double ma = a.pole_mass(), mb = b.pole_mass();
        const double srts = ma + mb + over;
        const double p = std::sqrt((srts * srts - (ma + mb) * (ma + mb)) *
                                   (srts * srts - (ma - mb) * (ma - mb))) /
                         (2 * srts);
        a.set_4momentum(ma, ThreeVector(p, 0, 0));
        b.set_4momentum(mb, ThreeVector(-p, 0, 0));
        a.set_4position(FourVector(0, -0.01, 0, 0));
        b.set_4position(FourVector(0, 0.01, 0, 0));
        for (auto *q : {&a, &b}) {
          q->set_formation_time(0.);
          q->set_cross_section_scaling_factor(1.);
        }
        a.set_history(1, 5, ProcessType::Elastic, 0., {});
        b.set_history(1, 6, ProcessType::Elastic, 0., {});
        const bool nn = a.pdgcode().is_nucleon() && b.pdgcode().is_nucleon() &&
                        a.pdgcode().baryon_number() == b.pdgcode().baryon_number();
        const std::string name =
            mc::fmt("cut=%g %s+%s at %g GeV", cut, s.first, s.second, srts);
        mc::state(name);
        auto got = f->find_actions_in_cell({a, b}, 1., 1., {});
        mc::transition();
        const bool want = !(nn && srts < cut);
        if (got.size() != (want ? 1u : 0u))
          mc::viol(name, mc::fmt("%zu collisions", got.size()));
        else
          mc::trace();
      }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_tables();
  mc::sample("geometric sigma=61 tp=3 211+2212 at all 27 displacements");
  pairs();
  frozen();
  partitions();
  stochastic();
  cutoff();
  return mc::finish();
}
