// C04: straight-line motion, frozen Fermi motion, back-propagation, metric
// expansion, and periodic walls (finder + action + modus), over full grids.
#include <cmath>

#include "smash/boxmodus.h"
#include "smash/outputinterface.h"
#include "smash/propagation.h"
#include "smash/wallcrossingaction.h"
#include "smash_params.h"

using namespace smash;

namespace {
const double kEps = 1e-9;

bool same_mom(const ParticleData &a, const ParticleData &b) {
  return a.momentum() == b.momentum() && a.pdgcode() == b.pdgcode() &&
         a.id() == b.id() && a.effective_mass() == b.effective_mass();
}

ParticleData make(const char *pdg, double m, ThreeVector p, FourVector x) {
  ParticleData d(ParticleType::find(PdgCode(pdg)));
  d.set_4momentum(m, p);
  d.set_4position(x);
  d.set_formation_time(x.x0());
  d.set_cross_section_scaling_factor(1.);
  return d;
}

/// every field of motion against x + v (t - t0)
void straight() {
  const std::vector<double> times = {-3.7, 0., 0.1, 2.5, 200.};
  const std::vector<std::pair<const char *, double>> kinds = {
      {"2212", 0.938}, {"211", 0.138}, {"22", 0.}, {"2214", 1.4}};
  const std::vector<double> mom = {-1.3, 0., 0.2};
  uint64_t job = 0;
  for (auto [pdg, m] : kinds)
    for (double px : mom)
      for (double py : mom)
        for (double pz : mom)
          for (double dt1 : {0., 0.1, 3.3, 120.})
            for (double dt2 : {0., 1e-7, 0.7})
              for (double t0 : times)
                for (int nbeam : {0, 1, 2, 3, 9})
                  for (int coll = 0; coll < 2; coll++) {
                    if (!mc::mine(job++))
                      continue;
                    if (m == 0. && px == 0. && py == 0. && pz == 0.)
                      continue;
                    const std::string name = mc::fmt(
                        "straight %s p=(%g,%g,%g) t0=%g dt=%g,%g beam=%d "
                        "collided=%d", pdg, px, py, pz, t0, dt1, dt2, nbeam,
                        coll);
                    mc::cur(name);
                    Particles parts;
                    std::vector<FourVector> beam;
                    for (int i = 0; i < nbeam; i++)
                      beam.push_back(FourVector(2. + i, 0.1 * i, -0.2, 1.5));
                    std::vector<ParticleData> start;
                    for (int i = 0; i < 3; i++) {
                      ParticleData d = make(
                          pdg, m, ThreeVector(px, py + 0.1 * i, pz),
                          FourVector(t0, 1. + i, -20.25 * i, 0.5));
                      if (m == 0. && d.momentum().x0() == 0.)
                        d.set_4momentum(m, ThreeVector(0.3, 0, 0));
                      if (coll && i != 2)
                        d.set_history(1, 7, ProcessType::Elastic, t0, {});
                      parts.insert(d);
                    }
                    for (auto &p : parts)
                      start.push_back(p);
                    double t = t0;
                    for (double dt : {dt1, dt2}) {
                      t += dt;
                      propagate_straight_line(&parts, t, beam);
                      mc::transition();
                    }
                    size_t i = 0;
                    for (auto &p : parts) {
                      const ParticleData &s = start[i];
                      const bool frozen =
                          static_cast<int>(i) < nbeam &&
                          s.get_history().collisions_per_particle == 0;
                      const ThreeVector v =
                          frozen ? beam[i].threevec() / beam[i].x0()
                                 : s.momentum().threevec() / s.momentum().x0();
                      const ThreeVector want =
                          s.position().threevec() + v * (t - t0);
                      if (p.position().x0() != t || !same_mom(p, s) ||
                          (p.position().threevec() - want).abs() >
                              kEps * (1 + want.abs()))
                        mc::viol(name,
                                 mc::fmt("particle %zu is at %s instead of "
                                         "(%g; %s) or its momentum changed",
                                         i, mc::str(p.position()).c_str(), t,
                                         mc::str(want).c_str()));
                      i++;
                    }
                    mc::state(name);
                    mc::trace();
                  }
  mc::sample("straight 2212 p=(-1.3,0,0.2) t0=-3.7 dt=3.3,0.7 beam=2");
}

void backwards() {
  for (double t_a : {0., 0.3, 7.})
    for (double t_b : {0.1, 3.})
      for (double back : {-5., -0.1, 0.})
        for (double px : {-0.7, 0., 2.})
          for (double pz : {0., 1.1}) {
            const std::string name = mc::fmt(
                "back t=%g,%g to %g p=(%g,0.2,%g)", t_a, t_b, back, px, pz);
            mc::cur(name);
            Particles parts;
            std::vector<ParticleData> s;
            for (double t : {t_a, t_b})
              parts.insert(make("211", 0.138, ThreeVector(px, 0.2, pz),
                                FourVector(t, 1, 2, 3)));
            for (auto &p : parts)
              s.push_back(p);
            backpropagate_straight_line(&parts, back);
            int i = 0;
            for (auto &p : parts) {
              const double t0 = s[i].position().x0();
              const ThreeVector want =
                  s[i].position().threevec() + s[i].velocity() * (back - t0);
              if (p.position().x0() != back || !same_mom(p, s[i]) ||
                  p.formation_time() != t0 ||
                  (p.position().threevec() - want).abs() > kEps ||
                  (t0 > back && p.xsec_scaling_factor() != 0.))
                mc::viol(name, "wrong back-propagated particle " +
                                   std::to_string(i));
              // propagating forward again restores the position
              i++;
            }
            mc::state(name);
            mc::transition();
            mc::trace();
          }
}

void hubble() {
  const std::vector<ExpansionMode> modes = {
      ExpansionMode::NoExpansion, ExpansionMode::MasslessFRW,
      ExpansionMode::MassiveFRW, ExpansionMode::Exponential};
  for (auto mode : modes)
    for (double b : {0.01, 0.1, 1.})
      for (double t : {0., 0.5, 10.})
        for (double dt : {0.01, 0.1})
          for (double px : {0., -0.4, 1.5}) {
            const std::string name =
                mc::fmt("expansion mode %d b=%g t=%g dt=%g px=%g",
                        static_cast<int>(mode), b, t, dt, px);
            mc::cur(name);
            double h = 0;
            if (mode == ExpansionMode::MasslessFRW)
              h = b / (2 * (b * t + 1));
            else if (mode == ExpansionMode::MassiveFRW)
              h = 2 * b / (3 * (b * t + 1));
            else if (mode == ExpansionMode::Exponential)
              h = b * t;
            ExpansionProperties metric(mode, b);
            if (!mc::close_to(calc_hubble(t, metric), h, 1e-12))
              mc::viol(name, mc::fmt("Hubble parameter %g instead of %g",
                                     calc_hubble(t, metric), h));
            mc::ParamOptions o;
            o.dt = dt;
            o.start = t;
            auto par = mc::params(o);
            Particles parts;
            parts.insert(make("211", 0.138, ThreeVector(px, 0.3, -0.2),
                              FourVector(t, 5, -6, 7)));
            parts.insert(make("22", 0., ThreeVector(px, 0.3, 0.),
                              FourVector(t, -1, 0, 3)));
            std::vector<ParticleData> s;
            for (auto &p : parts)
              s.push_back(p);
            expand_space_time(&parts, par, metric);
            int i = 0;
            for (auto &p : parts) {
              const ThreeVector x = s[i].position().threevec() * (1 + h * dt);
              const ThreeVector q = s[i].momentum().threevec() * (1 - h * dt);
              const double m = p.pole_mass();
              if ((p.position().threevec() - x).abs() > kEps ||
                  p.position().x0() != t ||
                  (p.momentum().threevec() - q).abs() > kEps ||
                  !mc::close_to(p.momentum().x0(), std::sqrt(m * m + q.sqr()),
                                kEps))
                mc::viol(name, "wrong expanded particle " + std::to_string(i));
              i++;
            }
            mc::state(name);
            mc::transition();
            mc::trace();
          }
}

void walls() {
  uint64_t job = 0;
  const std::vector<double> vel =
      mc::thorough()
          ? std::vector<double>{-0.56, -0.5, -0.3, -1e-3, -1e-5, -1e-9, 0., 3e-8,
                                1e-4,  0.1,  0.2,  0.5,   0.57}
          : std::vector<double>{-0.56, -0.3, -1e-5, -1e-9, 0.,
                                3e-8,  0.2,  0.5,   0.57};
  for (double L : {1.0, 3.3, 10.})
    for (double fx : {0., 0.25, 0.5, 1.})
      for (double fy : {0., 0.5, 0.999999})
        for (double fz : {0.3, 1.})
          for (double vx : vel)
            for (double vy : vel)
              for (double vz : vel)
                for (double t_total : {0.3, 4.0, 31.0})
                  for (double t0 : {0., 17.5}) {
                    if (!mc::mine(job++) || mc::too_many())
                      continue;
                    const std::string name = mc::fmt(
                        "walls L=%g r=(%g,%g,%g)L v=(%g,%g,%g) t=%g t0=%g", L,
                        fx, fy, fz, vx, vy, vz, t_total, t0);
                    mc::cur(name);
                    WallCrossActionsFinder finder(L);
                    const double m = 0.138;
                    const ThreeVector v(vx, vy, vz);
                    const double g = 1. / std::sqrt(1. - v.sqr());
                    Particles parts;
                    ParticleData d =
                        make("211", m, v * (g * m),
                             FourVector(t0, fx * L, fy * L, fz * L));
                    d.set_history(3, 42, ProcessType::Elastic, t0, {});
                    parts.insert(d);
                    const ParticleData s = parts.front();
                    std::array<int, 3> crossed{};
                    double now = t0;
                    int n = 0;
                    bool ok = true;
                    while (ok) {
                      const double left = t0 + t_total - now;
                      if (left <= 0)
                        break;
                      ActionList acts = finder.find_actions_in_cell(
                          parts.copy_to_vector(), left, 0., {});
                      if (acts.empty())
                        break;
                      if (acts.size() > 1) {
                        mc::viol(name, "several crossings for one particle");
                        ok = false;
                        break;
                      }
                      const double when = acts[0]->time_of_execution();
                      if (when < now - kEps || when > t0 + t_total + kEps) {
                        mc::viol(name, mc::fmt("crossing at %g outside of the "
                                               "step (%g,%g)", when, now,
                                               t0 + t_total));
                        ok = false;
                        break;
                      }
                      propagate_straight_line(&parts, when, {});
                      const ParticleData before = parts.front();
                      if (!acts[0]->is_valid(parts)) {
                        mc::viol(name, "the found crossing is not valid");
                        ok = false;
                        break;
                      }
                      acts[0]->update_incoming(parts);
                      acts[0]->generate_final_state();
                      acts[0]->perform(&parts, 100 + n);
                      const ParticleData after = parts.front();
                      int axes = 0;
                      for (int k = 0; k < 3; k++) {
                        const double a = before.position()[k + 1],
                                     b = after.position()[k + 1];
                        if (std::fabs(a - b) > kEps * (1 + L)) {
                          axes++;
                          const bool up = v[k] > 0;
                          // must leave through a wall and enter opposite
                          if (std::fabs(a - (up ? L : 0.)) > kEps * (1 + L) ||
                              std::fabs(b - (up ? 0. : L)) > kEps * (1 + L)) {
                            mc::viol(name, mc::fmt("axis %d goes from %g to %g",
                                                   k, a, b));
                            ok = false;
                          }
                          crossed[k] += up ? 1 : -1;
                        }
                      }
                      if (axes != 1) {
                        mc::viol(name, mc::fmt("a crossing moves %d axes",
                                               axes));
                        ok = false;
                      }
                      if (after.id() != s.id() || parts.size() != 1 ||
                          !same_mom(after, s) ||
                          after.get_history().collisions_per_particle != 3 ||
                          after.get_history().id_process != 42 ||
                          acts[0]->get_type() != ProcessType::Wall) {
                        mc::viol(name, "the crossing changed more than the "
                                       "position");
                        ok = false;
                      }
                      now = std::max(now, when);
                      mc::transition();
                      if (++n > 2000) {
                        mc::viol(name, "endless wall crossings");
                        ok = false;
                      }
                    }
                    if (!ok)
                      continue;
                    propagate_straight_line(&parts, t0 + t_total, {});
                    const FourVector x = parts.front().position();
                    for (int k = 0; k < 3; k++) {
                      const double want = s.position()[k + 1] + v[k] * t_total -
                                          crossed[k] * L;
                      if (x[k + 1] < -1e-8 || x[k + 1] > L + 1e-8 ||
                          std::fabs(x[k + 1] - want) > 1e-8 * (1 + n)) {
                        mc::viol(name, mc::fmt("axis %d ends at %.12g (free "
                                               "motion minus %d boxes: %.12g)",
                                               k, x[k + 1], crossed[k], want));
                        break;
                      }
                    }
                    mc::state(name);
                    mc::trace();
                  }
  mc::sample("walls L=1 r=(0.25,0.5,0.3)L v=(0.5,-0.3,0.2) t=31: every "
             "crossing found, performed and followed by free motion");
}

struct Spy : OutputInterface {
  Spy(bool dil, bool phot)
      : OutputInterface(dil ? "Dileptons" : phot ? "Photons" : "Spy") {}
  void at_interaction(const Action &a, const double) override {
    n++;
    wall = wall && a.get_type() == ProcessType::Wall;
    in = a.incoming_particles()[0].position();
    out = a.outgoing_particles()[0].position();
  }
  int n = 0;
  bool wall = true;
  FourVector in, out;
};

void impose() {
  mc::ParamOptions o;
  o.box = 4.0;
  auto par = mc::params(o);
  BoxModus *box = nullptr;
  try {
    Configuration full = mc::config(
        "Modi: {Box: {Initial_Condition: \"thermal momenta\", Length: 4.0, "
        "Temperature: 0.2, Start_Time: 0.0, Init_Multiplicities: {211: 1}}}");
    box = new BoxModus(std::move(full), par);
  } catch (const std::exception &e) {
    mc::viol("box modus", std::string("cannot be constructed: ") + e.what());
    return;
  }
  const double L = 4.0;
  const std::vector<double> pos = {-4.,  -3.9, -1e-3, 0.,     1.,
                                   3.99, 4.,   4.001, 7.9999};
  for (double x : pos)
    for (double y : pos)
      for (double z : pos) {
        const std::string name = mc::fmt("impose (%g,%g,%g)", x, y, z);
        mc::cur(name);
        Particles parts;
        parts.insert(make("211", 0.138, ThreeVector(0.1, 0.2, 0.3),
                          FourVector(2., x, y, z)));
        parts.insert(make("211", 0.138, ThreeVector(0.1, 0.2, 0.3),
                          FourVector(2., 1, 2, 3)));
        const ParticleData s = parts.front(), s2 = parts.back();
        OutputsList outs;
        outs.push_back(std::make_unique<Spy>(false, false));
        const int w = box->impose_boundary_conditions(&parts, outs);
        Spy *spy = static_cast<Spy *>(outs[0].get());
        const double in[3] = {x, y, z};
        bool outside = false;
        for (double c : in)
          outside = outside || c < 0 || c >= L;
        bool ok = w == (outside ? 1 : 0) && spy->n == w && spy->wall;
        const FourVector r = parts.front().position();
        for (int k = 0; k < 3; k++) {
          const double want = in[k] < 0 ? in[k] + L : in[k] >= L ? in[k] - L
                                                                 : in[k];
          ok = ok && std::fabs(r[k + 1] - want) < kEps;
        }
        ok = ok && r.x0() == 2. && same_mom(parts.front(), s) &&
             parts.back().position() == s2.position();
        if (w)
          ok = ok && spy->in == s.position() && spy->out == r;
        if (!ok)
          mc::viol(name, mc::fmt("wraps=%d reported=%d result=%s", w, spy->n,
                                 mc::str(r).c_str()));
        mc::state(name);
        mc::transition();
        mc::trace();
      }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_particles();
  straight();
  if (mc::mine(0))
    backwards();
  if (mc::mine(1))
    hubble();
  if (mc::mine(2))
    impose();
  walls();
  return mc::finish();
}
