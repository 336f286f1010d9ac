// C20: dynamic fluidization takes hadrons into the core exactly if the
// documented conditions hold, and core and corona are kept apart.
// clang-format off
#include "mc_rng.h"
#include "smash_common.h"
#include "smash_params.h"
#include "smash/scatteractionsfinder.h"
#include "smash/experiment.h"
#include "smash/collidermodus.h"
#include "smash/decayaction.h"
#include "smash/dynamicfluidfinder.h"
#include "smash/fluidizationaction.h"
#include "smash/freeforallaction.h"
#include "smash/isoparticletype.h"
#include "smash/scatteraction.h"
// clang-format on
#include <filesystem>
#include <map>
#include <set>

using namespace smash;
using mc::fmt;
namespace fs = std::filesystem;

namespace {
uint64_t job = 0;
using Lat = RectangularLattice<EnergyMomentumTensor>;

void bad(const std::string &k, const std::string &m) {
  if (!mc::too_many()) mc::viol(k, m);
}
/// energy-momentum tensor of an ideal fluid moving with velocity b
EnergyMomentumTensor ideal(double e, double p, const ThreeVector &b) {
  const double g = 1 / std::sqrt(1 - b.sqr());
  const double u[] = {g, g * b.x1(), g * b.x2(), g * b.x3()};
  EnergyMomentumTensor::tmn_type t{};
  for (int i = 0; i < 4; i++)
    for (int k = i; k < 4; k++)
      t[EnergyMomentumTensor::tmn_index(i, k)] =
          (e + p) * u[i] * u[k] - (i == k ? (i == 0 ? p : -p) : 0.);
  return EnergyMomentumTensor(t);
}
const ProcessType kProc[] = {ProcessType::None, ProcessType::Elastic, ProcessType::TwoToOne,
                             ProcessType::TwoToTwo, ProcessType::TwoToThree,
                             ProcessType::TwoToFour, ProcessType::TwoToFive, ProcessType::Decay,
                             ProcessType::Thermalization,
                             ProcessType::MultiParticleThreeMesonsToOne,
                             ProcessType::MultiParticleThreeToTwo,
                             ProcessType::MultiParticleFourToTwo,
                             ProcessType::MultiParticleFiveToTwo,
                             ProcessType::StringSoftSingleDiffractiveAX,
                             ProcessType::StringSoftSingleDiffractiveXB,
                             ProcessType::StringSoftDoubleDiffractive,
                             ProcessType::StringSoftAnnihilation,
                             ProcessType::StringSoftNonDiffractive, ProcessType::StringHard};
/// which bit of the configured set allows a process; -1: never
int family(ProcessType t) {
  const int n = int(t);
  if (n == 1) return 0;
  if (n == 5) return 1;
  if (n == 2 || n == 3 || n == 4 || n == 15 || n == 13 || n == 10 || n == 11 || n == 14 ||
      n == 12)
    return 2;
  if (n >= 41 && n <= 45) return 3;
  if (n == 46) return 4;
  return -1;
}
InitialConditionParameters icpar() {
  InitialConditionParameters p{};
  p.type = FluidizationType::Dynamic;
  p.fluidizable_processes = FluidizableProcessesBitSet{}.set();
  p.energy_density_threshold = 0.5;
  p.min_time = 0;
  p.max_time = 100;
  p.num_fluid_cells = 4;
  p.formation_time_fraction = 1;
  p.smearing_kernel_at_0 = std::pow(2 * M_PI, -1.5);
  p.delay_initial_elastic = false;
  return p;
}

// ---- which processes ---------------------------------------------------------------
void processes() {
  Lat lat({8, 8, 8}, {4, 4, 4}, {-4, -4, -4}, false, LatticeUpdate::EveryTimestep);
  for (auto &x : lat) x = ideal(5., 1., ThreeVector());
  std::map<int32_t, double> bg;
  for (unsigned mask = 0; mask < 32; mask++)
    for (int delay = 0; delay < 2; delay++) {
      if (!mc::mine(job++)) continue;
      InitialConditionParameters ip = icpar();
      ip.fluidizable_processes = FluidizableProcessesBitSet(mask);
      ip.delay_initial_elastic = delay;
      DynamicFluidizationFinder f(lat, bg, ip);
      for (ProcessType t : kProc)
        for (int n = 0; n < 4; n++) {
          ParticleData p{ParticleType::find(n % 2 ? pdg::p : pdg::pi_z), 3};
          p.set_4momentum(p.pole_mass(), 0.1, 0, 0.2);
          p.set_4position(FourVector(1, 0.5, -1.5, 2.5));
          p.set_formation_time(0.5);
          HistoryData h;
          h.collisions_per_particle = n;
          h.process_type = t;
          h.time_last_collision = 0.4;
          p.set_history(std::move(h));
          const int fam = family(t);
          bool want = fam >= 0 && (mask >> fam & 1);
          if (fam == 0 && delay && n == 1) want = false;
          const bool got = f.find_actions_in_cell({p}, 0.1, 1., {}).size() == 1;
          mc::transition();
          mc::state(fmt("proc %u %d %d %d", mask, delay, int(t), n));
          mc::eval(2);
          if (got != want || f.is_process_fluidizable(p.get_history()) != want)
            bad(fmt("C20-process %d mask %u delay %d collisions %d", int(t), mask, delay, n),
                got ? "taken into the core" : "not taken into the core");
        }
    }
}

// ---- times -----------------------------------------------------------------------------
void times() {
  Lat lat({8, 8, 8}, {4, 4, 4}, {-4, -4, -4}, false, LatticeUpdate::EveryTimestep);
  for (auto &x : lat) x = ideal(5., 1., ThreeVector());
  std::map<int32_t, double> bg;
  const std::pair<double, double> windows[] = {{0., 100.}, {1.02, 4.01}, {3., 3.02}, {0., 2.9}};
  const double t0s[] = {0.01, 0.99, 1.3, 2.95, 3.05, 4.2, 99.95, 100.3};
  const double dts[] = {0.1, 0.6, 5.};
  const double form[] = {-5., -1., -0.05, 0.03, 0.3, 2., 9.};     // relative to now
  const double len[] = {0., 0.02, 0.5, 4.};  // formation takes this long
  const double frac[] = {0., 0.3, 1., 1.5};
  const double fac[] = {0., 0.5, 1.};
  for (auto &w : windows)
    for (double t0 : t0s)
      for (double dt : dts) {
        if (!mc::mine(job++)) continue;
        for (double fo : form)
          for (double le : len)
            for (double fr : frac)
              for (double xs : fac)
                for (int core = 0; core < 2; core++) {
                  InitialConditionParameters ip = icpar();
                  ip.min_time = w.first, ip.max_time = w.second;
                  ip.formation_time_fraction = fr;
                  DynamicFluidizationFinder f(lat, bg, ip);
                  ParticleData p{ParticleType::find(pdg::pi_p), 3};
                  p.set_4momentum(p.pole_mass(), 0.1, 0, 0.2);
                  p.set_4position(FourVector(t0, 0.5, -1.5, 2.5));
                  p.set_slow_formation_times(t0 + fo - le, t0 + fo);
                  p.set_cross_section_scaling_factor(xs);
                  if (core) p.fluidize();
                  HistoryData h;
                  h.collisions_per_particle = 2;
                  h.process_type = ProcessType::StringSoftNonDiffractive;
                  p.set_history(std::move(h));
                  const double ft = t0 + fo - le + fr * le;  // allowed from here on
                  if (std::fabs(ft - t0 - dt) < 1e-9) continue;
                  const bool want = !core && t0 + dt > w.first && t0 < w.second && ft < t0 + dt;
                  auto a = f.find_actions_in_cell({p}, dt, 1., {});
                  mc::transition();
                  const std::string id =
                      fmt("window %g-%g t=%g dt=%g formation +%g-%g fraction %g factor %g core %d",
                          w.first, w.second, t0, dt, fo - le, fo, fr, xs, core);
                  mc::state(id);
                  if (a.size() != size_t(want)) {
                    bad("C20-when " + id, want ? "not taken into the core" : "taken into the core");
                    continue;
                  }
                  mc::eval();
                  if (!want) continue;
                  const double late = std::max(ft, t0);
                  const double at = a[0]->time_of_execution();
                  // full cross section: at once; otherwise when it is allowed
                  const bool formed = p.xsec_scaling_factor() >= 1 - 1e-6;
                  if (formed ? (at < t0 - 1e-9 || at > late + 1e-9)
                             : std::fabs(at - late) > 1e-9)
                    bad("C20-time " + id, fmt("at %.12g, allowed from %.12g", at, ft));
                  if (a[0]->get_type() != ProcessType::FluidizationNoRemoval)
                    bad("C20-type " + id, fmt("%d", int(a[0]->get_type())));
                  a[0]->generate_final_state();
                  const ParticleList o = a[0]->outgoing_particles();
                  if (o.size() != 1 || !o[0].is_core() || o[0].type() != p.type() ||
                      std::fabs((o[0].momentum() - p.momentum()).sqr3()) > 1e-20 ||
                      o[0].momentum().x0() != p.momentum().x0())
                    bad("C20-outgoing " + id, "the hadron is not just marked as core");
                }
      }
}

// ---- energy density ----------------------------------------------------------------------
void density() {
  const std::array<int, 3> n{4, 5, 3};
  const std::array<double, 3> l{8, 10, 9}, o{-4, -5, -4};
  const double es[] = {0.05, 0.3, 0.5, 0.8, 3.};
  const double ps[] = {0., 0.1, 0.333};  // pressure over energy density
  const ThreeVector bs[] = {{0, 0, 0}, {0.3, 0, 0}, {0, -0.7, 0}, {0.2, 0.3, -0.5}, {0, 0, 0.95}};
  const PdgCode kinds[] = {pdg::pi_z, pdg::p, pdg::K_p, pdg::Lambda};
  const double thr[] = {0.2, 0.5, 1.1};
  const double kern[] = {0.0635, 0.4, 0.01};
  const double back[] = {0., 0.15, -0.2, 2.};
  for (double e : es)
    for (double pr : ps)
      for (auto &b : bs) {
        if (!mc::mine(job++)) continue;
        for (auto &k : kinds)
          for (double th : thr)
            for (double ke : kern)
              for (double ba : back)
                for (int cell = 0; cell < 60; cell += 7) {
                  Lat lat(l, n, o, false, LatticeUpdate::EveryTimestep);
                  lat[cell] = ideal(e, pr * e, b);
                  const int ix = cell % 4, iy = cell / 4 % 5, iz = cell / 20;
                  std::map<int32_t, double> bg;
                  if (ba != 0) bg[7] = ba;
                  bg[6] = 100, bg[8] = -100;
                  InitialConditionParameters ip = icpar();
                  ip.energy_density_threshold = th, ip.smearing_kernel_at_0 = ke;
                  DynamicFluidizationFinder f(lat, bg, ip);
                  ParticleData p{ParticleType::find(k), 7};
                  p.set_4momentum(p.pole_mass(), 0.4, -0.3, 1.2);
                  HistoryData h;
                  h.collisions_per_particle = 2;
                  h.process_type = ProcessType::Decay;
                  p.set_history(std::move(h));
                  for (int in = 0; in < 3; in++) {
                    // in the cell, in the next one, outside
                    const double q = cell % 3 ? 0.1 : 0.9;
                    FourVector x(2, o[0] + (ix + q) * 2, o[1] + (iy + 1 - q) * 2,
                                 o[2] + (iz + q) * 3);
                    if (in == 1) x.set_x1(x.x1() + (ix < 3 ? 2 : -2));
                    if (in == 2) x.set_x2(iy % 2 ? 5.2 : -5.2);
                    p.set_4position(x);
                    p.set_formation_time(1.5);
                    const double own = p.type().mass() * ke;
                    const double have = (in == 0 ? e : 0.) + ba;
                    if (std::fabs(have - th - own) < 1e-6) continue;
                    const bool want = in < 2 && have > th + own;
                    const bool got = f.above_threshold(p);
                    const bool got2 = f.find_actions_in_cell({p}, 0.2, 1., {}).size() == 1;
                    mc::transition();
                    mc::eval();
                    if (got != want || got2 != want)
                      bad(fmt("C20-density %s e=%g p=%g threshold %g kernel %g background %g "
                              "cell %d place %d ",
                              k.string().c_str(), e, pr * e, th, ke, ba, cell, in) +
                              mc::str(FourVector(0, b)),
                          want ? "is above, but not seen" : "is not above");
                  }
                }
        mc::state(fmt("density %g %g ", e, pr) + mc::str(FourVector(0, b)));
      }
}

// ---- core and corona -----------------------------------------------------------------------
void apart() {
  mc::ParamOptions po;
  po.nnbar = NNbarTreatment::Resonances;
  const double mom[] = {0.2, 0.7, 2.};
  const PdgCode a[] = {pdg::p, pdg::pi_p, pdg::p, pdg::K_p, pdg::pi_m};
  const PdgCode b[] = {pdg::p, pdg::pi_m, pdg::n, pdg::n, pdg::p};
  ExperimentParameters ep = mc::params(po);
  Configuration c = mc::config(
      "Collision_Term: {Strings: False, Total_Cross_Section_Strategy: BottomUp}\n");
  ScatterActionsFinder finder(c, ep);
  c.clear();
  for (int k = 0; k < 5; k++)
    for (double q : mom)
      for (int core = 0; core < 4; core++)
        for (int seed = 0; seed < (mc::thorough() ? 120 : 30); seed++) {
          if (!mc::mine(job++)) continue;
          Particles ps;
          ParticleData x{ParticleType::find(a[k])}, y{ParticleType::find(b[k])};
          x.set_4momentum(x.pole_mass(), 0, 0, q), y.set_4momentum(y.pole_mass(), 0, 0, -q);
          x.set_4position(FourVector(1, 0, 0, -0.2)), y.set_4position(FourVector(1, 0.1, 0, 0.2));
          x.set_formation_time(0), y.set_formation_time(0);
          if (core & 1) x.fluidize();
          if (core & 2) y.fluidize();
          const ParticleData &px = ps.insert(x), &py = ps.insert(y);
          random::set_seed(1000 + seed);
          auto acts = finder.find_actions_in_cell({px, py}, 5., 1., {});
          mc::transition();
          const std::string id = fmt("pair %d momentum %g core %d seed %d", k, q, core, seed);
          mc::state(id);
          for (auto &act : acts) {
            act->generate_final_state();
            mc::trace();
            mc::eval();
            const bool el = act->get_type() == ProcessType::Elastic;
            if ((core == 1 || core == 2) && !el)
              bad("C20-mixed " + id, fmt("process %d", int(act->get_type())));
            const ParticleList in = act->incoming_particles(), out = act->outgoing_particles();
            for (size_t i = 0; i < out.size(); i++) {
              const bool want = el ? in[i].is_core() : core == 3;
              if (out[i].is_core() != want)
                bad("C20-inherit " + id, fmt("process %d: product %zu", int(act->get_type()), i));
            }
          }
        }
  // decays
  for (const ParticleType &t : ParticleType::list_all()) {
    if (t.is_stable() || !mc::mine(job++)) continue;
    for (int core = 0; core < 2; core++) {
      ParticleData p{t, 5};
      p.set_4momentum(t.mass(), 0.1, 0.3, 0.5);
      p.set_4position(FourVector(2, 0, 0, 0));
      if (core) p.fluidize();
      DecayAction act(p, 0.1);
      act.add_decays(t.decay_modes().decay_mode_list().empty()
                         ? DecayBranchList{}
                         : t.get_partial_widths(p.momentum(), ThreeVector(),
                                                WhichDecaymodes::Hadronic));
      if (act.get_total_weight() <= 0) continue;
      random::set_seed(7);
      try {
        act.generate_final_state();
      } catch (const std::exception &) {
        continue;
      }
      mc::transition();
      mc::eval();
      mc::state(fmt("decay %s %d", t.name().c_str(), core));
      for (auto &o : act.outgoing_particles())
        if (o.is_core() != bool(core))
          bad("C20-decay " + t.name(), "the products are not what the decaying hadron was");
    }
  }
}

// ---- the end of an event ------------------------------------------------------------------
void final_actions() {
  Lat lat({8, 8, 8}, {4, 4, 4}, {-4, -4, -4}, false, LatticeUpdate::EveryTimestep);
  std::map<int32_t, double> bg;
  // each of five hadrons: core, spectator, just collided, corona
  for (int code = 0; code < 1024; code++) {
    if (!mc::mine(job++)) continue;
    DynamicFluidizationFinder f(lat, bg, icpar());
    Particles ps;
    bool any = false;
    const double t = 20;
    std::vector<int> kind;
    for (int i = 0, c = code; i < 5; i++, c /= 4) {
      ParticleData p{ParticleType::find(i % 2 ? pdg::p : pdg::pi_m)};
      p.set_4momentum(p.pole_mass(), 0.3 * i, -0.2, 0.7 - i);
      p.set_4position(FourVector(t, i, 2. - i, 3.));
      p.set_formation_time(0.);
      HistoryData h;
      h.process_type = ProcessType::Elastic;
      h.collisions_per_particle = c % 4 == 1 ? 0 : i + 1;
      h.time_last_collision = c % 4 == 2 ? t : c % 4 == 1 ? 0. : 3. * i + 2;
      p.set_history(std::move(h));
      if (c % 4 == 0) p.fluidize(), any = true;
      kind.push_back(c % 4);
      ps.insert(p);
    }
    auto acts = f.find_final_actions(ps);
    mc::transition();
    mc::state(fmt("final %d", code));
    mc::eval();
    size_t removed = 0, added = 0;
    std::set<int> gone;
    for (auto &a : acts) {
      if (a->get_type() != ProcessType::Freeforall) bad(fmt("C20-final-type %d", code), "");
      for (auto &p : a->incoming_particles()) removed++, gone.insert(p.id());
      a->generate_final_state();
      for (auto &p : a->outgoing_particles()) {
        added++;
        bool match = false;
        int i = 0;
        for (auto &q : ps) {
          const double tl = q.get_history().time_last_collision + 0.01;
          const ThreeVector r = q.position().threevec() - (t - tl) * q.velocity();
          if (kind[i++] == 3 && q.type() == p.type() &&
              (q.momentum() - p.momentum()).sqr3() < 1e-18 &&
              std::fabs(p.position().x0() - tl) < 1e-9 &&
              (p.position().threevec() - r).abs() < 1e-9)
            match = true;
        }
        if (!match) bad(fmt("C20-final-place %d", code), mc::str(p.position()));
        if (std::fabs(a->time_of_execution() - p.position().x0()) > 1e-9)
          bad(fmt("C20-final-time %d", code), "");
      }
    }
    size_t i = 0, cores = 0, corona = 0;
    bool right = true;
    for (auto &q : ps) {
      const int k = kind[i++];
      cores += k == 0, corona += k == 3;
      if (gone.count(q.id()) != (any ? k == 0 : k == 3)) right = false;
    }
    if (!right || removed != (any ? cores : corona) || added != (any ? 0 : corona))
      bad(fmt("C20-final %d", code), fmt("%zu removed, %zu added", removed, added));
  }
}

// ---- parameters and lattice in a collider run -------------------------------------------------
struct Conf {
  double sigma = 1., thr = 0.5, tmin = 0, tmax = 100, frac = 1;
  int cells = 30, seed = 1, delay = 1, events = 1;
  const char *procs = "[All]";
  const char *nuc = "{2212: 16, 2112: 16}";
  double snn = 3.5, dt = 0.4, end = 25;
  std::string yaml() const {
    return fmt(
        "General: {Modus: Collider, End_Time: %g, Nevents: %d, Randomseed: %d, Delta_Time: %g, "
        "Gaussian_Sigma: %g}\nCollision_Term: {Strings: False, Collision_Criterion: Covariant, "
        "NNbar_Treatment: \"resonances\", Total_Cross_Section_Strategy: BottomUp}\n"
        "Output: {Output_Interval: 5., Initial_Conditions: {Format: [\"Oscar2013\"], Extended: "
        "True}, Collisions: {Format: [\"Oscar2013\"], Extended: True}}\nModi: {Collider: "
        "{Projectile: {Particles: %s}, Target: {Particles: %s}, Sqrtsnn: %g, "
        "Initial_Conditions: {Type: Dynamic, Energy_Density_Threshold: %g, Minimum_Time: %g, "
        "Maximum_Time: %g, Fluidization_Cells: %d, Formation_Time_Fraction: %g, "
        "Fluidizable_Processes: %s, Delay_Initial_Elastic: %s}}}\n",
        end, events, seed, dt, sigma, nuc, nuc, snn, thr, tmin, tmax, cells, frac, procs,
        delay ? "True" : "False");
  }
};
double own_kernel(const ThreeVector &r, const ThreeVector &p, double m, double sigma,
                  double cut) {
  const double g = std::sqrt(1 + p.sqr() / m / m);
  const double d2 = r.sqr() + std::pow(r * p / m, 2);
  if (d2 > std::pow(sigma * cut, 2)) return 0;
  return g * std::exp(-0.5 * d2 / sigma / sigma);
}

void lattice() {
  for (double sigma : {1., 0.7, 1.6})
    for (double tmin : {0., 3., 55.})
      for (int cells : {8, 21})
        for (int order = 0; order < 3; order++) {
          if (!mc::mine(job++)) continue;
          Conf k;
          k.sigma = sigma, k.tmin = tmin, k.cells = cells, k.tmax = 72, k.dt = 1.;
          const std::string y = k.yaml(), dir = mc::G().scratch;
          Configuration c = mc::config(y);
          Experiment<ColliderModus> e(c, dir);
          c.clear();
          ColliderModus &m = *e.modus();
          const auto &ip = m.IC_parameters();
          mc::transition();
          if (!mc::rel_close(*ip.smearing_kernel_at_0,
                             std::pow(2 * M_PI * sigma * sigma, -1.5), 1e-9))
            bad(fmt("C20-kernel sigma=%g", sigma), fmt("%g", *ip.smearing_kernel_at_0));
          if (*ip.min_time != tmin || *ip.max_time != 72 || *ip.energy_density_threshold != 0.5 ||
              *ip.num_fluid_cells != cells || *ip.formation_time_fraction != 1 ||
              !*ip.delay_initial_elastic || !ip.fluidizable_processes->all())
            bad("C20-parameters " + y, "are not as configured");
          mc::ParamOptions po;
          po.sigma = sigma;
          const DensityParameters dp(mc::params(po));
          const double half0 = std::max(40., tmin);
          // times in order of two events
          std::vector<double> ts;
          for (double t = order ? 1 : 0; t < 75; t += order == 2 ? 2.5 : 1.) ts.push_back(t);
          const size_t one = ts.size();
          for (size_t i = 0; i < one; i++) ts.push_back(ts[i]);
          std::vector<EnergyMomentumTensor> frozen;
          for (size_t it = 0; it < ts.size(); it++) {
            const double t = ts[it];
            std::vector<Particles> ens(1);
            for (int i = 0; i < 4; i++) {
              ParticleData p{ParticleType::find(i % 2 ? pdg::p : pdg::K_m)};
              p.set_4momentum(p.pole_mass(), 0.2 * i, -0.3, 0.1 + 0.7 * i);
              p.set_4position(FourVector(t, 0.11 * t * (i - 1.5), 0.3 * i, 0.99 * t * (i - 2) / 2));
              p.set_formation_time(i == 3 ? t + 5 : 0.);
              ens[0].insert(p);
            }
            frozen.assign(m.fluid_lattice().begin(), m.fluid_lattice().end());
            const double side0 = m.fluid_lattice().lattice_sizes()[0];
            m.build_fluidization_lattice(t, ens, dp);
            mc::transition();
            mc::eval();
            const Lat &lat = m.fluid_lattice();
            const std::string id = fmt("sigma=%g tmin=%g cells=%d order=%d event %d t=%g", sigma,
                                       tmin, cells, order, it >= one, t);
            mc::state(id);
            if (t < tmin || t > 72) {
              bool same = side0 == lat.lattice_sizes()[0];
              for (size_t i = 0; i < lat.size(); i++)
                for (int q = 0; q < 10; q++)
                  if (lat[i][q] != frozen[i][q]) same = false;
              if (!same) bad("C20-lattice-frozen " + id, "changes outside of the time window");
              continue;
            }
            double half = half0;
            while (half < t) half += 5;
            for (int d = 0; d < 3; d++)
              if (lat.n_cells()[d] != cells ||
                  std::fabs(lat.origin()[d] + lat.lattice_sizes()[d] / 2) > 1e-9 ||
                  lat.lattice_sizes()[d] / 2 < t - 1e-9 ||
                  std::fabs(lat.lattice_sizes()[d] - 2 * half) > 1e-9)
                bad("C20-lattice-size " + id,
                    fmt("%d cells from %g, length %g, expected %g", lat.n_cells()[d],
                        lat.origin()[d], lat.lattice_sizes()[d], 2 * half));
            // energy-momentum tensor: all formed hadrons, in the cell's centre
            if (it % 9) continue;
            const double ce = lat.lattice_sizes()[0] / cells;
            for (int z = 0; z < cells; z++)
              for (int yy = 0; yy < cells; yy++)
                for (int x = 0; x < cells; x++) {
                  EnergyMomentumTensor::tmn_type want{};
                  const ThreeVector at(lat.origin()[0] + (x + 0.5) * ce,
                                       lat.origin()[1] + (yy + 0.5) * ce,
                                       lat.origin()[2] + (z + 0.5) * ce);
                  for (auto &p : ens[0]) {
                    const ThreeVector r = at - p.position().threevec();
                    const double sf = own_kernel(r, p.momentum().threevec(), p.pole_mass(),
                                                 sigma, 4.) *
                                      dp.norm_factor_sf();
                    for (int a = 0; a < 4; a++)
                      for (int b = a; b < 4; b++)
                        want[EnergyMomentumTensor::tmn_index(a, b)] +=
                            p.momentum()[a] * p.momentum()[b] / p.momentum()[0] * sf;
                  }
                  const auto &got = lat[x + cells * (yy + cells * z)];
                  for (int q = 0; q < 10; q++)
                    if (!mc::rel_close(got[q], want[q], 1e-6, 1e-9)) {
                      bad("C20-tensor " + id, fmt("cell %d %d %d component %d: %g not %g", x, yy,
                                                  z, q, got[q], want[q]));
                      x = yy = z = cells;
                      break;
                    }
                }
          }
        }
}

// ---- whole collisions -------------------------------------------------------------------------
struct Rec {
  double t, p[4], last;
  int id, ncoll, ptype;
};
Rec parse(const std::string &l) {
  std::istringstream s(l);
  Rec r;
  double x, m, form, xs;
  std::string pdg;
  int charge;
  unsigned long pid;
  s >> r.t >> x >> x >> x >> m;
  for (double &q : r.p) s >> q;
  s >> pdg >> r.id >> charge >> r.ncoll >> form >> xs >> pid >> r.ptype >> r.last;
  if (!s) bad("C20-line", l);
  return r;
}
void runs() {
  std::vector<Conf> all;
  for (int seed = 1; seed <= (mc::thorough() ? 40 : 6); seed++)
    for (int v = 0; v < 8; v++) {  // variants
      Conf k;
      k.seed = seed;
      k.thr = v % 2 ? 0.1 : 0.25;
      if (v == 2) k.tmin = 2, k.tmax = 6;
      if (v == 3) k.procs = "[\"Decay\", \"Inelastic\"]";
      if (v == 4) k.procs = "[\"Elastic\"]", k.delay = 0;
      if (v == 5) k.procs = "[\"Elastic\"]", k.cells = 60;
      if (v == 6) k.sigma = 0.8, k.dt = 0.1;
      if (v == 7) k.nuc = "{2212: 1}", k.snn = 5.;
      all.push_back(k);
    }
  for (const Conf &k : all) {
    if (!mc::mine(job++)) continue;
    const std::string y = k.yaml(), dir = mc::G().scratch;
    mc::cur(y);
    mc::state(y);
    for (auto &e : fs::directory_iterator(dir)) fs::remove_all(e.path());
    Configuration c = mc::config(y);
    FourVector before, mid, end, incore;
    std::map<int, bool> core_at_end;
    std::vector<ParticleData> evolved, fin;
    {
      Experiment<ColliderModus> e(c, dir);
      c.clear();
      e.initialize_new_event();
      for (auto &p : *e.first_ensemble()) before += p.momentum();
      e.run_time_evolution(k.end);
      for (auto &p : *e.first_ensemble()) {
        mid += p.momentum();
        core_at_end[p.id()] = p.is_core();
        if (p.is_core()) incore += p.momentum();
        evolved.push_back(p);
      }
      e.do_final_interactions();
      for (auto &p : *e.first_ensemble()) end += p.momentum(), fin.push_back(p);
      e.final_output();
    }
    mc::trace();
    mc::transition();
    for (int q = 0; q < 4; q++) {
      if (std::fabs(before[q] - mid[q]) > 1e-4)
        bad("C20-run-momentum " + y, mc::str(before) + mc::str(mid));
      if (std::fabs(mid[q] - incore[q] - end[q]) > 1e-4)
        bad("C20-run-final " + y, "the corona is not what is left at the end");
    }
    for (auto &p : fin) {
      if (p.is_core()) bad("C20-run-core-left " + y, "core particle left at the end");
      bool match = false;
      for (auto &q : evolved) {
        if (q.type() != p.type() || (q.momentum() - p.momentum()).sqr3() > 1e-16) continue;
        const ThreeVector r = q.position().threevec() -
                              (q.position().x0() - p.position().x0()) * q.velocity();
        const bool moved = q.get_history().collisions_per_particle > 0;
        const double t = q.get_history().time_last_collision;
        if ((r - p.position().threevec()).abs() < 1e-6 &&
            (!moved || std::fabs(p.position().x0() - t) < 0.011))
          match = true;
      }
      // decays at the end make new ones
      if (!match && p.get_history().process_type != ProcessType::Decay && !evolved.empty() &&
          std::all_of(evolved.begin(), evolved.end(),
                      [](const ParticleData &q) { return q.type().is_stable(); }))
        bad("C20-run-back " + y, mc::str(p.position()));
    }
    // replay the collisions
    std::map<int, bool> core;
    std::vector<Rec> fluid;
    std::string text = mc::slurp(dir + "/full_event_history.oscar");
    if (text.empty()) text = mc::slurp(dir + "/full_event_history.oscar.unfinished");
    std::istringstream in(text);
    for (std::string l; std::getline(in, l);) {
      int nin, nout, type;
      double rho, w, pw;
      if (std::sscanf(l.c_str(), "# interaction in %d out %d rho %lf weight %lf partial %lf type %d",
                      &nin, &nout, &rho, &w, &pw, &type) != 6)
        continue;
      std::vector<Rec> i, o;
      for (int q = 0; q < nin + nout; q++) {
        std::string m;
        std::getline(in, m);
        (q < nin ? i : o).push_back(parse(m));
      }
      if (type == 90) break;  // final actions
      mc::eval();
      int ncore = 0;
      for (auto &r : i) ncore += core[r.id];
      if (type == 21) {
        fluid.push_back(i[0]);
        if (ncore) bad("C20-run-again " + y, fmt("hadron %d becomes core twice", i[0].id));
        if (nin != 1 || nout != 1 || i[0].id != o[0].id)
          bad("C20-run-fluid " + y, fmt("%d to %d hadrons", nin, nout));
        core[o[0].id] = true;
        // the lattice is that of the time step's start
        if (i[0].t < k.tmin - k.dt || i[0].t > k.tmax + k.dt)
          bad("C20-run-window " + y, fmt("at %g", i[0].t));
        const int fam = family(ProcessType(i[0].ptype));
        const std::string pr = k.procs;
        bool ok = fam >= 0 && (pr == "[All]" || (fam == 0 && pr.find("Elastic") != pr.npos) ||
                               (fam == 1 && pr.find("Decay") != pr.npos) ||
                               (fam == 2 && pr.find("Inelastic") != pr.npos));
        if (fam == 0 && k.delay && i[0].ncoll == 1) ok = false;
        if (!ok) bad("C20-run-process " + y, fmt("from %d", i[0].ptype));
      } else if (ncore && ncore < nin) {
        if (type != 1) bad("C20-run-mixed " + y, fmt("type %d of core and corona", type));
      } else {
        for (auto &r : o) core[r.id] = ncore > 0;
      }
    }
    for (auto &kv : core_at_end)
      if (core[kv.first] != kv.second)
        bad("C20-run-status " + y, fmt("hadron %d core: %d", kv.first, kv.second));
    // what is written
    text = mc::slurp(dir + "/SMASH_IC.oscar");
    if (text.empty()) text = mc::slurp(dir + "/SMASH_IC.oscar.unfinished");
    std::istringstream ic(text);
    size_t n = 0;
    for (std::string l; std::getline(ic, l);) {
      if (l.empty() || l[0] == '#') continue;
      const Rec r = parse(l);
      if (n < fluid.size()) {
        const Rec &f = fluid[n];
        if (f.id != r.id || f.t != r.t || f.p[0] != r.p[0] || f.p[3] != r.p[3])
          bad("C20-run-written " + y, l);
      }
      n++;
    }
    if (n != fluid.size()) bad("C20-run-number " + y, fmt("%zu of %zu written", n, fluid.size()));
    mc::extra("fluidized hadrons", fluid.size());
  }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_light_tables(1.45);
  sha256::Context ctx;
  IsoParticleType::tabulate_integrals(ctx.finalize(), "");
  FluidizationAction::remove_particle_ = false;
  const bool tell = getenv("MC_TIMES");
  auto part = [&](const char *n, void (*f)()) {
    const double a = clock();
    f();
    if (tell) std::fprintf(stderr, "%s %g s\n", n, (clock() - a) / CLOCKS_PER_SEC);
  };
  part("processes", processes);
  part("times", times);
  part("density", density);
  part("apart", apart);
  part("final", final_actions);
  part("lattice", lattice);
  part("runs", runs);
  return mc::finish();
}
