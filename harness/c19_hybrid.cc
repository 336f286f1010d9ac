// C19: every hadron that crosses the hypersurface of constant proper time is
// taken out exactly there, exactly once, if it is within the cuts.
// clang-format off
#include "mc_rng.h"
#include "smash_common.h"
#include "smash_params.h"
#include "smash/scatteractionsfinder.h"
#include "smash/experiment.h"
#include "smash/collidermodus.h"
#include "smash/fluidizationaction.h"
#include "smash/hypersurfacecrossingfinder.h"
#include "smash/isoparticletype.h"
// clang-format on
#include <filesystem>
#include <set>

using namespace smash;
using mc::fmt;
namespace fs = std::filesystem;

namespace {
uint64_t job = 0;

void bad(const std::string &k, const std::string &m) {
  if (!mc::too_many()) mc::viol(k, m);
}
/// time at which a straight line reaches the hypersurface
double crossing(double t0, double z0, double v, double tau) {
  const double n = z0 - v * t0;
  return (n * v + std::sqrt(n * n + (1 - v * v) * tau * tau)) / (1 - v * v);
}

// ---- one time step -------------------------------------------------------------
void steps() {
  const double times[] = {-3., -1., -0.2, 0., 0.3, 1.0, 4.0};
  const double zs[] = {-4., -2.5, -0.9, -0.25, 0., 0.1, 0.8, 3.};
  const double dts[] = {0.05, 0.5, 3., 40.};
  const double taus[] = {0.2, 0.5, 1.7, 5.};
  const double pzs[] = {-20., -1.2, -0.1, 0., 0.35, 2.5, 60.};
  const double pts[] = {0., 0.4, 1.5};
  const double betas[] = {2., 0., 0.6, -0.95};  // 2: no frozen Fermi motion
  const double ycuts[] = {0., 0.5, 2.}, ptcuts[] = {0., 0.3, 1.};
  for (double t0 : times)
    for (double z0 : zs)
      for (double dt : dts)
        for (double tau : taus)
          for (double pz : pzs)
            for (double pt : pts) {
              if (!mc::mine(job++)) continue;
              for (double beta : betas)
                for (int hist = 0; hist < 2; hist++) {
                  ParticleData p{ParticleType::find(job % 3 ? pdg::p : pdg::pi_p), 1};
                  p.set_4momentum(p.pole_mass(), pt * 0.6, -pt * 0.8, pz);
                  p.set_4position(FourVector(t0, 0.3, -0.7, z0));
                  p.set_formation_time(t0);
                  if (hist)
                    p.set_history(1, 1, ProcessType::Elastic, t0, ParticleList{p});
                  std::vector<FourVector> beam;
                  if (beta < 2) {
                    const double g = 1 / std::sqrt(1 - beta * beta);
                    beam = {FourVector(7, 0, 0, 1), FourVector(g, 0, 0, g * beta),
                            FourVector(7, 0, 0, 2)};
                  }
                  const bool fr = beta < 2 && !hist;
                  const ThreeVector v = fr ? ThreeVector(0, 0, beta) : p.velocity();
                  if (beta < 2 && hist && beta != 0.6) continue;
                  const double tc = crossing(t0, z0, v.x3(), tau);
                  if (std::fabs(tc - t0) < 1e-9 || std::fabs(tc - t0 - dt) < 1e-9) continue;
                  const bool in = tc > t0 && tc < t0 + dt;
                  for (double yc : ycuts)
                    for (double pc : ptcuts) {
                      const std::string id =
                          fmt("t=%g z=%g dt=%g tau=%g p=(%g,%g) beam %g history %d cuts %g %g", t0,
                              z0, dt, tau, pt, pz, beta, hist, yc, pc);
                      mc::cur(id);
                      HyperSurfaceCrossActionsFinder f(tau, yc, pc);
                      FluidizationAction::remove_particle_ = true;
                      auto acts = f.find_actions_in_cell({p}, dt, 0., beam);
                      mc::transition();
                      const double y = p.rapidity();
                      const bool cut =
                          (yc > 0 && std::fabs(y) > yc) || (pc > 0 && pt > pc);
                      if (acts.size() != size_t(in && !cut)) {
                        bad("C19-found " + id,
                            fmt("%zu actions; crossing at t=%.9g", acts.size(), tc));
                        continue;
                      }
                      mc::eval();
                      if (acts.empty()) continue;
                      mc::trace();
                      Action &a = *acts[0];
                      if (!mc::rel_close(a.time_of_execution(), tc, 1e-7, 1e-9))
                        bad("C19-time " + id,
                            fmt("executed at %.12g, not %.12g", a.time_of_execution(), tc));
                      if (a.get_type() != ProcessType::Fluidization ||
                          a.incoming_particles().size() != 1 ||
                          a.incoming_particles()[0].id() != p.id())
                        bad("C19-action " + id, "wrong action");
                      if (a.outgoing_particles().size() == 1) {
                        const FourVector x = a.outgoing_particles()[0].position();
                        const FourVector want(tc, p.position().threevec() + v * (tc - t0));
                        for (int k = 0; k < 4; k++)
                          if (!mc::rel_close(x[k], want[k], 1e-7, 1e-8)) {
                            bad("C19-position " + id, mc::str(x) + " not " + mc::str(want));
                            break;
                          }
                      } else {
                        bad("C19-outgoing " + id, "no position");
                      }
                      a.generate_final_state();
                      if (!a.outgoing_particles().empty()) bad("C19-removed " + id, "not removed");
                    }
                }
              mc::state(fmt("%llu", (unsigned long long)job));
            }
  if (!mc::mine(job++)) return;
  // core particles are left alone; lists of several particles
  HyperSurfaceCrossActionsFinder f(0.5, 0, 0);
  ParticleList l;
  for (int i = 0; i < 12; i++) {
    ParticleData p{ParticleType::find(pdg::p), i};
    p.set_4momentum(p.pole_mass(), 0, 0, 0.1 * i);
    p.set_4position(FourVector(0.45, 0, 0, 0));
    if (i % 3 == 0) p.fluidize();
    l.push_back(p);
  }
  if (f.find_actions_in_cell(l, 0.2, 0., {}).size() != 8)
    bad("C19-core", "wrong number of actions");
}

// ---- a particle over several steps is found once -----------------------------------
void chains() {
  for (double tau : {0.3, 0.5, 1.25})
    for (double pz : {-30., -0.8, 0., 0.3, 3.})
      for (double z0 : {-3., -1., -0.1, 0.})
        for (double dt : {0.05, 0.125, 0.3, 1.0})
          for (double start : {-2., -0.5, 0.}) {
            if (!mc::mine(job++)) continue;
            HyperSurfaceCrossActionsFinder f(tau, 0, 0);
            ParticleData p{ParticleType::find(pdg::pi_p), 0};
            p.set_4momentum(p.pole_mass(), 0.1, 0, pz);
            const double v = p.velocity().x3(), tc = crossing(start, z0, v, tau);
            if (tc < start) continue;
            int found = 0;
            double when = 0;
            int n = 0;
            for (double t = start; t < tc + 3 * dt && n < 20000; t = start + ++n * dt) {
              p.set_4position(FourVector(t, 0.2, 0, z0 + v * (t - start)));
              auto a = f.find_actions_in_cell({p}, dt, 0., {});
              mc::transition();
              if (a.empty()) continue;
              found++, when = a[0]->time_of_execution();
              break;  // it is taken out
            }
            mc::state(fmt("%llu", (unsigned long long)job));
            if (n >= 20000) continue;
            if (found != 1 || !mc::close_to(when, tc, 1e-7 * (1 + tc)))
              bad(fmt("C19-steps tau=%g pz=%g z=%g dt=%g start=%g", tau, pz, z0, dt, start),
                  fmt("found %d times, at %.9g for %.9g", found, when, tc));
          }
}

// ---- whole collisions ---------------------------------------------------------------
struct Line {
  double x[4], m, p[4];
  std::string pdg;
  int id, charge;
};
void runs() {
  struct R {
    const char *p, *t;
    double snn;
    const char *fermi;
  };
  const R rs[] = {{"{2212: 1}", "{2212: 1}", 3.0, "off"},
                  {"{2212: 6, 2112: 6}", "{2212: 6, 2112: 6}", 3.5, "off"},
                  {"{2212: 6, 2112: 6}", "{2212: 6, 2112: 6}", 3.5, "frozen"},
                  {"{2212: 2, 2112: 2}", "{2212: 6, 2112: 6}", 2.6, "frozen"},
                  {"{2212: 8, 2112: 8}", "{2212: 8, 2112: 8}", 4.5, "off"}};
  const double taus[] = {0.5, 2.0, 0.};
  const std::pair<double, double> cuts[] = {{0, 0}, {0.6, 0}, {0, 0.4}};
  for (const R &r : rs)
    for (double tau : taus)
      for (auto &cut : cuts)
        for (const char *steps : {"Fixed", "None"})
          for (int seed = 1; seed <= (mc::thorough() ? 40 : 6); seed++) {
            if (!mc::mine(job++)) continue;
            const std::string dir = mc::G().scratch;
            std::string y = fmt(
                "General: {Modus: Collider, End_Time: 60., Nevents: 1, Randomseed: %d, "
                "Time_Step_Mode: %s%s}\nCollision_Term: {Strings: False, "
                "Collision_Criterion: Covariant, NNbar_Treatment: \"resonances\", "
                "Total_Cross_Section_Strategy: BottomUp}\n"
                "Output: {Output_Interval: 20., Initial_Conditions: {Format: "
                "[\"Oscar2013\"]}}\nModi: {Collider: {Projectile: {Particles: %s}, "
                "Target: {Particles: %s}, Sqrtsnn: %g, Fermi_Motion: \"%s\", "
                "Initial_Conditions: {Type: Constant_Tau",
                seed, std::string(steps) == "None" ? "\"None\"" : steps,
                *steps == 'F' ? ", Delta_Time: 0.5" : "", r.p, r.t, r.snn, r.fermi);
            if (tau > 0) y += fmt(", Proper_Time: %g", tau);
            if (tau == 0 && seed == 2) y += ", Lower_Bound: 6.0, Proper_Time_Scaling: 1.5";
            if (cut.first > 0) y += fmt(", Rapidity_Cut: %g", cut.first);
            if (cut.second > 0) y += fmt(", pT_Cut: %g", cut.second);
            y += "}}}\n";
            mc::cur(y);
            mc::state(fmt("%llu", (unsigned long long)job));
            for (auto &e : fs::directory_iterator(dir)) fs::remove_all(e.path());
            FourVector before, left;
            int q0 = 0, b0 = 0, q1 = 0, b1 = 0;
            std::vector<ParticleData> rest;
            double want = tau;
            Configuration c = mc::config(y);
            try {
              Experiment<ColliderModus> e(c, dir);
              c.clear();
              e.initialize_new_event();
              for (auto &p : *e.first_ensemble()) {
                before += p.momentum();
                q0 += p.type().charge(), b0 += p.type().baryon_number();
              }
              e.run_time_evolution(60.);
              for (auto &p : *e.first_ensemble()) rest.push_back(p);
              e.final_output();
            } catch (const std::exception &x) {
              c.clear();
              bad("C19-run-throws " + y, x.what());
              continue;
            }
            c.clear();
            mc::transition();
            mc::trace();
            if (tau == 0) {
              auto rad = [](const char *s) {
                const std::string t = s;
                const int a = t == "{2212: 1}" ? 1
                              : t.find("6, ") != std::string::npos ? 12
                              : t.find("8, ") != std::string::npos ? 16
                                                                   : 4;
                return a == 1 ? 0. : 1.2 * std::cbrt(a);
              };
              const double pass = (rad(r.p) + rad(r.t)) /
                                  std::sqrt(std::pow(r.snn / 2 / nucleon_mass, 2) - 1);
              want = seed == 2 ? std::max(6. * 1.5, pass * 1.5) : std::max(0.5, pass);
            }
            std::string text = mc::slurp(dir + "/SMASH_IC.oscar");
            if (text.empty()) text = mc::slurp(dir + "/SMASH_IC.oscar.unfinished");
            std::istringstream in(text);
            std::set<int> ids;
            int n = 0;
            for (std::string l; std::getline(in, l);) {
              if (l.empty() || l[0] == '#') continue;
              std::istringstream s(l);
              Line a;
              s >> a.x[0] >> a.x[1] >> a.x[2] >> a.x[3] >> a.m;
              for (double &p : a.p) s >> p;
              s >> a.pdg >> a.id >> a.charge;
              if (!s) {
                bad("C19-run-line " + y, l);
                continue;
              }
              n++;
              if (!ids.insert(a.id).second) bad("C19-run-twice " + y, l);
              const double t2 = a.x[0] * a.x[0] - a.x[3] * a.x[3];
              if (a.x[0] <= 0 || std::fabs(t2 - want * want) > 2e-4 * (1 + a.x[0] * a.x[0]))
                bad("C19-run-tau " + y,
                    fmt("tau=%.6g for %.6g: ", std::sqrt(std::fabs(t2)), want) + l);
              const double yy = std::atanh(a.p[3] / a.p[0]);
              if ((cut.first > 0 && std::fabs(yy) > cut.first + 1e-4) ||
                  (cut.second > 0 && std::hypot(a.p[1], a.p[2]) > cut.second + 1e-4))
                bad("C19-run-cut " + y, l);
              const PdgCode code(a.pdg);
              left += FourVector(a.p[0], a.p[1], a.p[2], a.p[3]);
              q1 += code.charge(), b1 += code.baryon_number();
              mc::eval(4);
            }
            for (auto &p : rest) {
              left += p.momentum();
              q1 += p.type().charge(), b1 += p.type().baryon_number();
              const bool out =
                  (cut.first > 0 && std::fabs(p.rapidity()) > cut.first) ||
                  (cut.second > 0 &&
                   std::hypot(p.momentum().x1(), p.momentum().x2()) > cut.second);
              const double z = p.position().x3(), t = p.position().x0();
              // products of a collision start between the colliding hadrons,
              // which may be behind the hypersurface already
              const double tl = p.get_history().time_last_collision;
              const double zl = z - (t - tl) * p.velocity().x3();
              if (p.get_history().collisions_per_particle > 0 &&
                  tl * tl - zl * zl > want * want - 1e-6)
                continue;
              if (cut.first == 0 && cut.second == 0 && !out && t * t - z * z > want * want + 1e-6)
                bad("C19-run-left " + y,
                    fmt("%s %d at ", p.type().name().c_str(), p.id()) + mc::str(p.position()) +
                        fmt(" was not taken out, %d were", n));
            }
            if (q0 != q1 || b0 != b1) bad("C19-run-charge " + y, fmt("%d %d %d %d", q0, q1, b0, b1));
            for (int k = 0; k < 4; k++)
              if (std::fabs(before[k] - left[k]) > 1e-3 * before[0])
                bad("C19-run-momentum " + y, mc::str(before) + " " + mc::str(left));
            mc::extra("hadrons on hypersurfaces", n);
          }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_light_tables(1.45);
  sha256::Context ctx;
  IsoParticleType::tabulate_integrals(ctx.finalize(), "");
  steps();
  chains();
  runs();
  return mc::finish();
}
