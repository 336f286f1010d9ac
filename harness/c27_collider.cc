// C27: the initial state of a collision is the configured one: energies, frame,
// impact parameter, positions, distributions and Fermi momenta of the nucleons.
// clang-format off
#include "mc_rng.h"
#include "smash_common.h"
#include "smash_params.h"
#include "smash/alphaclusterednucleus.h"
#include "smash/collidermodus.h"
#include "smash/constants.h"
#include "smash/customnucleus.h"
#include "smash/deformednucleus.h"
#include "smash/nucleus.h"
// clang-format on
#include <algorithm>
#include <array>
#include <functional>

using namespace smash;
using mc::fmt;

namespace {
uint64_t job = 0;
std::string scratch;
void st() { mc::state(fmt("%llu", (unsigned long long)job)); }

// ---- energies, frames and positions ----------------------------------------------
struct Nuc {
  const char *name, *particles;
  int a, z;
};
const Nuc nucs[] = {{"p", "{2212: 1}", 1, 1},
                    {"n", "{2112: 1}", 1, 0},
                    {"d", "{2212: 1, 2112: 1}", 2, 1},
                    {"C", "{2212: 6, 2112: 6}", 12, 6},
                    {"Au", "{2212: 79, 2112: 118}", 197, 79},
                    {"t", "{2212: 1, 2112: 1, 3122: 1}", 3, 1},
                    {"pi", "{-211: 1}", 1, 0}};
double avg_mass(const Nuc &n) {
  const double mp = ParticleType::find(pdg::p).mass(), mn = ParticleType::find(pdg::n).mass();
  if (std::string(n.name) == "t")
    return (mp + mn + ParticleType::find(pdg::Lambda).mass()) / 3;
  if (std::string(n.name) == "pi") return ParticleType::find(pdg::pi_m).mass();
  return (n.z * mp + (n.a - n.z) * mn) / n.a;
}
const char *frames[] = {"center of velocity", "center of mass", "fixed target"};
const char *fermis[] = {"off", "on", "frozen"};

std::string cfg(const Nuc &p, const Nuc &t, const std::string &pe, const std::string &te,
                const std::string &e, const char *frame, const char *fermi, double dist,
                const std::string &impact) {
  return fmt("Modi: {Collider: {Projectile: {Particles: %s%s}, Target: {Particles: %s%s}%s, "
             "Calculation_Frame: \"%s\", Fermi_Motion: \"%s\", Initial_Distance: %.17g%s}}",
             p.particles, pe.c_str(), t.particles, te.c_str(), e.c_str(), frame, fermi, dist,
             impact.c_str());
}
ThreeVector at_rest(const ParticleData &p, double v) {  // momentum in the nucleus' frame
  const double g = 1 / std::sqrt(1 - v * v);
  return ThreeVector(p.momentum().x1(), p.momentum().x2(),
                     g * (p.momentum().x3() - v * p.momentum().x0()));
}

void energies() {
  struct E {
    const char *key;
    int kind;  // 0 sqrtsnn, 1 etot, 2 ekin, 3 plab
    double e[2];
    bool beams;
  };
  std::vector<E> es;
  for (double e : {3.0, 5.0, 17.3, 200., 5020.}) es.push_back({"Sqrtsnn", 0, {e, 0}, false});
  const char *n[] = {"", "E_Tot", "E_Kin", "P_Lab"};
  for (int k : {1, 2, 3})
    for (double e : {1.2, 1.23, 3.5, 40., 158., 2000.}) {
      es.push_back({n[k], k, {e, 0}, false});
      for (double f : {1.2, 4.1, 70.}) es.push_back({n[k], k, {e, f}, true});
    }
  for (const Nuc &p : nucs)
    for (const Nuc &t : nucs)
      for (const E &e : es)
        for (const char *frame : frames) {
          if (!mc::mine(job++)) continue;
          // one Fermi mode, distance and impact parameter per combination
          const char *fermi = fermis[job / 3 % 3];
          const double dist = std::array<double, 3>{4., 0.5, 20.}[job / 9 % 3];
          const double b = std::array<double, 3>{0., 7.25, 1.5}[job / 5 % 3];
          const bool plane = job / 11 % 2;
          if (p.a * t.a > 2000 && job % 5 && !mc::thorough()) continue;
          const std::string one = e.beams ? "" : fmt(", %s: %.17g", e.key, e.e[0]);
          const std::string pe = e.beams ? fmt(", %s: %.17g", e.key, e.e[0]) : "";
          const std::string te = e.beams ? fmt(", %s: %.17g", e.key, e.e[1]) : "";
          const std::string yaml =
              cfg(p, t, pe, te, one, frame, fermi, dist,
                  fmt(", Impact: {Value: %.17g, Random_Reaction_Plane: %s}", b,
                      plane ? "true" : "false"));
          mc::cur(yaml);
          st();
          const double ma = avg_mass(p), mb = avg_mass(t), Ma = ma * p.a, Mb = mb * t.a;
          double grel;
          auto gamma = [](int kind, double v, double m) {
            return kind == 1 ? v / m : kind == 2 ? (v + m) / m : std::sqrt(v * v + m * m) / m;
          };
          if (e.kind == 0) {
            grel = (e.e[0] * e.e[0] - ma * ma - mb * mb) / (2 * ma * mb);
          } else {
            const double g1 = gamma(e.kind, e.e[0], ma);
            grel = g1;
            if (e.beams) {
              const double g2 = gamma(e.kind, e.e[1], mb);
              grel = g1 * g2 + std::sqrt((g1 * g1 - 1) * (g2 * g2 - 1));
            }
            if (!(g1 >= 1) || !(grel >= 1)) continue;
          }
          if (grel > (frame == frames[0] ? 1e9 : 3e4)) continue;  // 1 - v cannot be resolved
          const double y = std::acosh(grel);
          double ya, yb;
          if (frame == frames[2]) {
            ya = y, yb = 0;
          } else if (frame == frames[0]) {
            ya = y / 2, yb = -y / 2;
          } else {  // Ma sinh(ya) + Mb sinh(ya - y) = 0
            ya = std::atanh(Mb * std::sinh(y) / (Ma + Mb * std::cosh(y)));
            yb = ya - y;
          }
          const double va = std::tanh(ya), vb = std::tanh(yb);
          auto par = mc::params();
          std::unique_ptr<ColliderModus> m;
          Particles list;
          double t0;
          mc::rng_script_u({}, mc::filler(job % 7));
          try {
            m = std::make_unique<ColliderModus>(mc::config(yaml), par);
            m->sample_impact();
            t0 = m->initial_conditions(&list, par);
          } catch (const std::exception &x) {
            mc::viol("C27-throws " + yaml, x.what());
            continue;
          }
          mc::transition();
          mc::trace();
          auto bad = [&](const char *k, const std::string &msg) {
            if (!mc::too_many()) mc::viol(std::string("C27-") + k + " " + yaml, msg);
          };
          const double snn = std::sqrt(ma * ma + mb * mb + 2 * ma * mb * grel);
          if (!mc::rel_close(m->sqrt_s_NN(), snn, 1e-6, 1e-9))
            bad("snn", fmt("sqrt(s_NN) %.10g, not %.10g", m->sqrt_s_NN(), snn));
          if (!mc::close_to(m->impact_parameter(), b, 1e-12)) bad("b", "impact parameter");
          if (list.size() != size_t(p.a + t.a)) {
            bad("number", "number of particles");
            continue;
          }
          const bool frozen = fermi == fermis[2];
          // loss of precision: 1 - v
          const double tolv = 1e-7;
          if (frozen && (std::fabs(m->velocity_projectile() - va) > tolv ||
                         std::fabs(m->velocity_target() - vb) > tolv))
            bad("beam", "beam velocities");
          const double ttol = 1e-6 * (1 + std::fabs(dist / va));
          if (!mc::close_to(t0, -dist / 2 / va, ttol))
            bad("start", fmt("start at %.10g, not %.10g", t0, -dist / 2 / va));
          ThreeVector c[2], ptot[2];
          int np[2] = {0, 0}, count[2] = {0, 0};
          double total[4] = {0, 0, 0, 0};
          for (const ParticleData &d : list) {
            const int i = d.belongs_to() == BelongsTo::Projectile ? 0
                          : d.belongs_to() == BelongsTo::Target   ? 1
                                                                  : -1;
            if (i < 0) {
              bad("label", "particle belongs to neither nucleus");
              break;
            }
            count[i]++;
            np[i] += d.pdgcode() == pdg::p;
            c[i] += d.position().threevec();
            const double v = i ? vb : va, mm = d.type().mass();
            const ThreeVector q = at_rest(d, v);
            ptot[i] += q;
            const double et = std::sqrt(d.momentum().threevec().sqr() + mm * mm);
            if (!mc::rel_close(d.momentum().x0(), et, 1e-9, 1e-12)) bad("shell", "off mass shell");
            const double g = 1 / std::sqrt(1 - v * v);
            if (fermi == fermis[0] && (std::fabs(q.x3()) > 1e-6 * g * g || q.x1() || q.x2()))
              bad("velocity", fmt("nucleon not at rest in its nucleus: %.3g", q.x3()));
            for (int k = 0; k < 4; k++) total[k] += d.momentum()[k];
            if (d.position().x0() != t0 || d.formation_time() != t0) bad("time", "particle time");
            if (d.get_history().collisions_per_particle != 0) bad("history", "history");
          }
          if (count[0] != p.a || count[1] != t.a || np[0] != p.z || np[1] != t.z) {
            bad("content", "content of the nuclei");
            continue;
          }
          // centres
          ThreeVector ca = c[0] / p.a, cb = c[1] / t.a;
          const double ga = std::cosh(ya), gb = std::cosh(yb);
          auto size = [](const Nuc &u) {
            if (u.a == 1) return 0.;
            if (u.a == 197) return 6.55 + 0.523;
            return 1.2 * std::cbrt(u.a) + 0.545;
          };
          const double za = -dist / 2 - size(p) / ga,
                       zb = dist / 2 * std::fabs(vb / va) + size(t) / gb;
          const double rel = 1e-6 * (1 + dist);
          if (!mc::close_to(ca.x3(), za, rel) || !mc::close_to(cb.x3(), zb, rel))
            bad("z", fmt("centres at z=%.10g, %.10g, not %.10g, %.10g", ca.x3(), cb.x3(), za, zb));
          const double dx = ca.x1() - cb.x1(), dy = ca.x2() - cb.x2();
          if (!mc::close_to(std::hypot(dx, dy), b, 1e-9) ||
              std::hypot(ca.x1() + cb.x1(), ca.x2() + cb.x2()) > 1e-9)
            bad("impact", fmt("transverse distance %.10g, not %.10g", std::hypot(dx, dy), b));
          if (!plane && (std::fabs(dy) > 1e-9 || dx < -1e-9)) bad("plane", "reaction plane");
          // Fermi momenta cancel
          if (fermi != fermis[0])
            for (int i : {0, 1}) {
              const Nuc &u = i ? t : p;
              if (std::string(u.name) == "t" || std::string(u.name) == "pi") continue;
              const double g = i ? gb : ga;
              if (ptot[i].abs() > 1e-7 * u.a * g * g)
                bad("fermi-sum", fmt("sum of Fermi momenta %.3g", ptot[i].abs()));
            }
          if (fermi == fermis[0] && frame == frames[1] &&
              std::fabs(total[3]) > 1e-6 * total[0])
            bad("cm", fmt("momentum %.3g in the centre of mass", total[3]));
          mc::eval(list.size() * 4);
        }
  // exactly one way to give the energy
  const char *one[] = {"Sqrtsnn: 5.0", "E_Tot: 5.0", "E_Kin: 5.0", "P_Lab: 5.0"};
  for (int mask = 0; mask < 128; mask++) {
    if (!mc::mine(job++)) continue;
    std::string e, pe, te;
    int n = 0;
    for (int k = 0; k < 4; k++)
      if (mask >> k & 1) e += std::string(", ") + one[k], n++;
    for (int k = 1; k < 4; k++)
      if (mask >> (k + 3) & 1) pe += std::string(", ") + one[k], te = pe, n++;
    const std::string yaml = cfg(nucs[3], nucs[3], pe, te, e, frames[0], fermis[0], 4, "");
    mc::cur(yaml);
    st();
    bool thrown = false;
    try {
      ColliderModus m(mc::config(yaml), mc::params());
    } catch (const std::exception &) {
      thrown = true;
    }
    if (thrown != (n != 1)) mc::viol("C27-one-energy " + yaml, thrown ? "refused" : "accepted");
  }
  // energies that do not exist
  const char *no[] = {"Sqrtsnn: 1.8", "Sqrtsnn: 0", "E_Tot: -1", "E_Kin: -0.1", "P_Lab: -2"};
  for (const char *e : no) {
    if (!mc::mine(job++)) continue;
    st();
    bool thrown = false;
    const std::string yaml =
        cfg(nucs[3], nucs[3], "", "", std::string(", ") + e, frames[0], fermis[0], 4, "");
    try {
      ColliderModus m(mc::config(yaml), mc::params());
    } catch (const std::exception &) {
      thrown = true;
    }
    if (!thrown) mc::viol("C27-energy-range " + yaml, "accepted");
  }
}

// ---- positions in the rest frame do not depend on the calculation frame ------------
void frames_agree() {
  for (const Nuc &p : nucs)
    for (const Nuc &t : nucs)
      for (int f = 0; f < 3; f++)
        for (double e : {2.7, 6.0, 17.3}) {
          if (!mc::mine(job++)) continue;
          std::vector<ThreeVector> pos[3], mom[3];
          const double lo = avg_mass(p) + avg_mass(t);
          for (int k = 0; k < 3; k++) {
            const std::string yaml = cfg(p, t, "", "", fmt(", Sqrtsnn: %.17g", lo + e - 1.7),
                                         frames[k], fermis[f], 3., ", Impact: {Value: 2.0}");
            mc::cur(yaml);
            st();
            mc::rng_script_u({}, mc::filler(job % 11));
            ColliderModus m(mc::config(yaml), mc::params());
            Particles list;
            m.initial_conditions(&list, mc::params());
            const double grel = (std::pow(lo + e - 1.7, 2) - std::pow(avg_mass(p), 2) -
                                 std::pow(avg_mass(t), 2)) /
                                (2 * avg_mass(p) * avg_mass(t));
            const double y = std::acosh(grel);
            const double Ma = avg_mass(p) * p.a, Mb = avg_mass(t) * t.a;
            const double ya = k == 2   ? y
                              : k == 0 ? y / 2
                                       : std::atanh(Mb * std::sinh(y) / (Ma + Mb * std::cosh(y)));
            ThreeVector c[2];
            for (auto &d : list) c[d.belongs_to() == BelongsTo::Target] += d.position().threevec();
            c[0] = c[0] / p.a, c[1] = c[1] / t.a;
            for (auto &d : list) {
              const int i = d.belongs_to() == BelongsTo::Target;
              const double yy = i ? ya - y : ya;
              ThreeVector r = d.position().threevec() - c[i];
              r.set_x3(r.x3() * std::cosh(yy));
              pos[k].push_back(r);
              mom[k].push_back(at_rest(d, std::tanh(yy)));
            }
            mc::transition();
          }
          for (int k : {1, 2})
            for (size_t i = 0; i < pos[0].size(); i++) {
              mc::eval();
              if ((pos[0][i] - pos[k][i]).abs() > 1e-6)
                mc::viol(fmt("C27-frame-pos %s %s %d", p.name, t.name, k),
                         mc::str(pos[0][i]) + " and " + mc::str(pos[k][i]));
              if ((mom[0][i] - mom[k][i]).abs() > 1e-5)
                mc::viol(fmt("C27-frame-mom %s %s %d", p.name, t.name, k),
                         mc::str(mom[0][i]) + " and " + mc::str(mom[k][i]));
              if (mc::too_many()) return;
            }
        }
}

// ---- impact parameter ---------------------------------------------------------------
void impact() {
  struct I {
    std::string yaml;
    int kind;  // 0 fixed, 1 quadratic, 2 uniform, 3 custom
    double lo, hi;
  };
  std::vector<I> is = {{"", 0, 0, 0}, {", Impact: {Value: 3.5}", 0, 3.5, 3.5}};
  const double lim[][2] = {{0, 10}, {2, 7}, {3, 3}, {7, 2}, {0, 0.1}, {5.5, 15}};
  for (auto &l : lim) {
    const std::string r = fmt("Range: [%.17g, %.17g]", l[0], l[1]);
    is.push_back({", Impact: {" + r + "}", 1, l[0], l[1]});
    is.push_back({", Impact: {" + r + ", Sample: \"quadratic\"}", 1, l[0], l[1]});
    is.push_back({", Impact: {" + r + ", Sample: \"uniform\"}", 2, l[0], l[1]});
    if (l[0] == 0) {
      is.push_back({fmt(", Impact: {Max: %.17g}", l[1]), 1, 0, l[1]});
      is.push_back({fmt(", Impact: {Max: %.17g, Range: [3, 5]}", l[1]), 1, 0, l[1]});
      is.push_back({fmt(", Impact: {Max: %.17g, Sample: \"uniform\"}", l[1]), 2, 0, l[1]});
    }
  }
  for (I &i : is) {
    if (!mc::mine(job++)) continue;
    mc::cur(i.yaml);
    ColliderModus m(mc::config(cfg(nucs[3], nucs[3], "", "", ", Sqrtsnn: 5.0", frames[0],
                                   fermis[0], 4, i.yaml)),
                    mc::params());
    const int n = mc::thorough() ? 100000 : 5000;
    st();
    bool up = true, down = true;
    for (int k = 0; k < n; k++) {
      const double u = (k + 0.5) / n;
      mc::rng_fast(&u, 1);
      m.sample_impact();
      mc::transition();
      const double b = m.impact_parameter();
      const double want =
          i.kind == 0   ? i.lo
          : i.kind == 1 ? std::sqrt(i.lo * i.lo + u * (i.hi * i.hi - i.lo * i.lo))
                        : i.lo + u * (i.hi - i.lo);
      const double other =
          i.kind == 0   ? i.lo
          : i.kind == 1 ? std::sqrt(i.hi * i.hi - u * (i.hi * i.hi - i.lo * i.lo))
                        : i.hi - u * (i.hi - i.lo);
      up = up && mc::close_to(b, want, 1e-9);
      down = down && mc::close_to(b, other, 1e-9);
    }
    if (!up && !down) mc::viol("C27-impact" + i.yaml, "impact parameters are not so distributed");
  }
  // spectra given by the user
  const std::pair<const char *, const char *> sp[] = {
      {"[0.0, 3.0, 6.0, 9.0]", "[0.0, 3.0, 6.0, 9.0]"},
      {"[0.0, 3.0, 6.0, 9.0]", "[1.0, 4.0, 2.0, 0.0]"},
      {"[1.0, 2.0, 12.0]", "[5.0, 1.0, 0.5]"},
      {"[2.0, 4.0]", "[3.0, 3.0]"}};
  for (auto &s : sp) {
    if (!mc::mine(job++)) continue;
    auto nums = [](std::string t) {
      std::vector<double> v;
      for (auto &ch : t)
        if (strchr("[],", ch)) ch = ' ';
      std::istringstream in(t);
      for (double d; in >> d;) v.push_back(d);
      return v;
    };
    const auto x = nums(s.first), w = nums(s.second);
    ColliderModus m(
        mc::config(cfg(nucs[3], nucs[3], "", "", ", Sqrtsnn: 5.0", frames[0], fermis[0], 4,
                       std::string(", Impact: {Sample: \"custom\", Values: ") + s.first +
                           ", Yields: " + s.second + "}")),
        mc::params());
    st();
    auto cum = [&](double b) {
      double t = 0, all = 0;
      for (size_t i = 0; i + 1 < x.size(); i++) {
        const double d = x[i + 1] - x[i], k = (w[i + 1] - w[i]) / d;
        all += d * (w[i] + w[i + 1]) / 2;
        const double q = std::min(std::max(b - x[i], 0.), d);
        t += q * (w[i] + 0.5 * k * q);
      }
      return t / all;
    };
    const int n = mc::thorough() ? 1500 : 400;
    std::vector<double> f;
    for (int i = 0; i < n; i++)
      for (int k = 0; k < n; k++) {
        const double u[] = {(i + 0.5) / n, (k + 0.5) / n};
        mc::rng_fast(u, 2);
        m.sample_impact();
        mc::transition();
        if (mc::rng_used_fast() != 2) continue;
        f.push_back(cum(m.impact_parameter()));
      }
    std::sort(f.begin(), f.end());
    double d = f.empty() ? 1 : 0;
    for (size_t i = 0; i < f.size(); i++) d = std::max(d, std::fabs(f[i] - (i + 0.5) / f.size()));
    if (d > 4. / n)
      mc::viol(std::string("C27-spectrum ") + s.second, fmt("off by %.4g in probability", d));
  }
}

// ---- distributions of nucleons ---------------------------------------------------------
double ks(std::vector<std::pair<double, double>> &v) {  // (F(x), weight)
  std::sort(v.begin(), v.end());
  double all = 0, s = 0, d = v.empty() ? 1 : 0;
  for (auto &p : v) all += p.second;
  for (size_t i = 0; i < v.size();) {
    size_t j = i;
    double w = 0;
    for (; j < v.size() && v[j].first == v[i].first; j++) w += v[j].second;
    d = std::max(d, std::fabs(v[i].first - (s + w / 2) / all));
    s += w;
    i = j;
  }
  return d;
}
struct Table {  // cumulative distribution on a fine grid
  double lo, step;
  std::vector<double> c;
  Table(double a, double b, int n, const std::function<double(double)> &f)
      : lo(a), step((b - a) / n), c(n + 1, 0.) {
    for (int i = 0; i < n; i++) {
      const double x = a + i * step;
      c[i + 1] = c[i] + step / 6 * (f(x) + 4 * f(x + step / 2) + f(x + step));
    }
  }
  double operator()(double x) const {
    const double q = (x - lo) / step;
    if (q <= 0) return 0;
    const size_t i = static_cast<size_t>(q);
    if (i + 1 >= c.size()) return 1;
    return (c[i] + (q - i) * (c[i + 1] - c[i])) / c.back();
  }
};

void woods_saxon() {
  struct W {
    double r, d;
  };
  for (const W &w : {W{6.55, 0.523}, W{2.747, 0.545}, W{1.676, 0.322}, W{6., 0.}, W{1.2, 0.9}}) {
    Nucleus n({{pdg::p, 6}, {pdg::n, 6}}, 1);
    n.set_nuclear_radius(w.r);
    n.set_diffusiveness(w.d);
    const double top = w.r + 45 * std::max(w.d, 0.02);
    Table cum(0, top, 20000, [&](double r) {
      if (w.d == 0) return r <= w.r ? r * r : 0.;
      return r * r / (std::exp((r - w.r) / w.d) + 1);
    });
    if (mc::mine(job++)) {  // direction: uniform, independent of the rest
      st();
      const int g = mc::thorough() ? 1000 : 300;
      std::vector<std::pair<double, double>> fc, fp;
      double lock[2] = {0, 0};
      for (int i = 0; i < g; i++)
        for (int k = 0; k < g; k++) {
          const double u[] = {(i + 0.5) / g, (k + 0.5) / g, 0.1, 0.7, 0.2, 0.2, 0.2};
          mc::rng_fast(u, 7);
          const ThreeVector p = n.distribute_nucleon();
          mc::transition();
          fc.push_back({0.5 + 0.5 * p.x3() / p.abs(), 1});
          double ph = std::atan2(p.x2(), p.x1()) / (2 * M_PI);
          if (ph < 0) ph += 1;
          fp.push_back({ph, 1});
          lock[0] += p.x1() * p.x3(), lock[1] += p.x2() * p.x3();
        }
      const double a = ks(fc), b = ks(fp);
      if (a > 2. / g || b > 2. / g || std::hypot(lock[0], lock[1]) > 1e-3 * g * g)
        mc::viol(fmt("C27-direction %g %g", w.r, w.d), fmt("off by %.4g, %.4g", a, b));
    }
    if (!mc::mine(job++)) continue;
    st();
    mc::cur(fmt("Woods-Saxon %g %g", w.r, w.d));
    std::vector<std::pair<double, double>> f;
    // tree of answers: the number of draws left depends on the ones before
    const int g1 = mc::thorough() ? 400 : 200, rej = mc::thorough() ? 64 : 32;
    const int gk[] = {0, mc::thorough() ? 1200 : 400, mc::thorough() ? 120 : 48,
                      mc::thorough() ? 40 : 20};
    auto run = [&](const std::vector<double> &t, double &r) {
      double u[16] = {0.3, 0.6};
      for (size_t i = 0; i < t.size(); i++) u[2 + i] = t[i];
      mc::rng_fast(u, 2 + t.size());
      const ThreeVector p = n.distribute_nucleon();
      mc::transition();
      r = p.abs();
      return mc::rng_used_fast();
    };
    double r;
    if (w.d == 0) {
      for (int i = 0; i < 20000; i++) {
        run({(i + 0.5) / 20000}, r);
        f.push_back({cum(r), 1});
      }
    } else {
      for (int i = 0; i < g1; i++) {
        const double a = (i + 0.5) / g1;
        // length of the shortest accepted sequence: last number small
        size_t len = 0;
        for (size_t l = 1; l <= 3 && !len; l++) {
          std::vector<double> t{a};
          for (size_t k = 0; k < l; k++) t.push_back(0.37);
          t.push_back(1e-9);
          if (run(t, r) == 2 + t.size()) len = l;
        }
        if (!len) {
          mc::extra("branches without a short sequence");
          continue;
        }
        const int g = gk[len];
        const long all = len == 1 ? g : len == 2 ? g * g : g * g * g;
        for (long k = 0; k < all; k++) {
          std::vector<double> t{a};
          long q = k;
          for (size_t j = 0; j < len; j++, q /= g) t.push_back((q % g + 0.5) / g);
          t.push_back(0);
          // acceptance: find the largest number accepted
          int acc = 0;
          // monotone in the last number
          int lo = 0, hi = rej;
          while (lo < hi) {
            const int mid = (lo + hi) / 2;
            t.back() = (mid + 0.5) / rej;
            if (run(t, r) == 2 + t.size())
              lo = mid + 1;
            else
              hi = mid;
          }
          acc = lo;
          if (!acc) continue;
          t.back() = 0.5 / rej;
          run(t, r);
          f.push_back({cum(r), double(acc) / all});
        }
      }
    }
    const double d = ks(f);
    if (d > 0.012)
      mc::viol(fmt("C27-woods-saxon %g %g", w.r, w.d), fmt("off by %.4g in probability", d));
  }
}

double ylm(int l, int m, double c, double phi) {
  if (l == 2 && m == 0) return std::sqrt(5 / (16 * M_PI)) * (3 * c * c - 1);
  if (l == 2) return std::sqrt(15 / (32 * M_PI)) * (1 - c * c) * std::cos(2 * phi);
  if (l == 3) return std::sqrt(7 / (16 * M_PI)) * (5 * c * c * c - 3 * c);
  return 3. / 16 / std::sqrt(M_PI) * (35 * c * c * c * c - 30 * c * c + 3);
}
struct Def {
  int z, a;
  bool automatic;
  double b2, g, b3, b4, r, d;
};
double surface(const Def &q, double c, double ph) {
  return q.r * (1 + q.b2 * (std::cos(q.g) * ylm(2, 0, c, ph) +
                            std::sqrt(2.) * std::sin(q.g) * ylm(2, 2, c, ph)) +
                q.b3 * ylm(3, 0, c, ph) + q.b4 * ylm(4, 0, c, ph));
}
void deformed() {
  const std::vector<Def> ds = {
      {92, 238, true, 0.28, 0, 0, 0.093, 6.86, 0.556},
      {82, 208, true, 0, 0, 0, 0, 6.67, 0.54},
      {79, 197, true, -0.131, 0, 0, -0.031, 6.55, 0.523},
      {54, 129, true, 0.162, 0, 0, -0.003, 5.36, 0.59},
      {29, 63, true, 0.162, 0, 0, -0.006, 4.20641, 0.5977},
      {40, 96, true, 0, 0, 0, 0, 5.02, 0.46},
      {44, 96, true, 0.158, 0, 0, 0, 5.085, 0.46},
      {44, 96, false, 0.3, 0.5236, 0, 0, 5.085, 0.46},
      {79, 197, false, -0.2, 0, 0.15, 0.05, 6.55, 0.523},
      {92, 238, false, 0.1, 1.0, 0.2, 0, 6.86, 0.556},
      {20, 40, false, 0.1, 0, 0, 0.2, 0, 0.54}};
  for (Def q : ds) {
    if (!q.r) q.r = 1.12 * std::cbrt(q.a) - 0.86 / std::cbrt(q.a);
    for (int side : {0, 1}) {
      if (!mc::mine(job++)) continue;
      std::string y = fmt("Modi: {Collider: {%s: {Particles: {2212: %d, 2112: %d}, Deformed: {",
                          side ? "Target" : "Projectile", q.z, q.a - q.z);
      y += q.automatic ? "Automatic: true}}}}"
                       : fmt("Automatic: false, Beta_2: %.17g%s, Beta_3: %.17g, Beta_4: "
                             "%.17g}}}}",
                             q.b2, q.g ? fmt(", Gamma: %.17g", q.g).c_str() : "", q.b3, q.b4);
      mc::cur(y);
      st();
      auto c = mc::config(y);
      if (true) {  // read Automatic, as the modus does
        bool a = side ? c.take(InputKeys::modi_collider_target_deformed_automatic)
                      : c.take(InputKeys::modi_collider_projectile_deformed_automatic);
        (void)a;
      }
      DeformedNucleus n(c, 1, q.automatic);
      if (!mc::rel_close(n.get_nuclear_radius(), q.r, 1e-9, 0) ||
          !mc::rel_close(n.get_diffusiveness(), q.d, 1e-9, 0))
        mc::viol("C27-nucleus-parameters " + y,
                 fmt("%.6g %.6g", n.get_nuclear_radius(), n.get_diffusiveness()));
      const double rho0 = n.get_saturation_density();
      double mom[5] = {0, 0, 0, 0, 0}, all = 0, rr = 0;
      const int nr = 300, nc = 60, np = 48;
      const double rmax = q.r * 1.5 + 12 * q.d;
      for (int i = 0; i < nr; i++)
        for (int k = 0; k < nc; k++)
          for (int l = 0; l < np; l++) {
            const double r = rmax * (i + 0.5) / nr, ct = -1 + 2 * (k + 0.5) / nc,
                         ph = 2 * M_PI * (l + 0.5) / np;
            const double rel = 1 / (1 + std::exp((r - surface(q, ct, ph)) / q.d));
            if ((i * nc + k) % 7 == 0) {
              mc::eval();
              if (!mc::rel_close(n.nucleon_density(r, ct, ph), rho0 * rel, 1e-9, 1e-12)) {
                mc::viol("C27-deformed-density " + y, fmt("at %g %g %g", r, ct, ph));
                i = nr, k = nc;
                break;
              }
            }
            const double wt = r * r * rel;
            all += wt;
            rr += wt * r * r;
            mom[0] += wt * ylm(2, 0, ct, ph), mom[1] += wt * ylm(2, 2, ct, ph);
            mom[2] += wt * ylm(3, 0, ct, ph), mom[3] += wt * ylm(4, 0, ct, ph);
            mom[4] += wt * ct;
          }
      const double integral = all * rmax / nr * 2 / nc * 2 * M_PI / np;
      if (q.automatic && !mc::rel_close(rho0 * integral, q.a, 3e-3, 0))
        mc::viol("C27-normalization " + y, fmt("%.6g nucleons", rho0 * integral));
      // sampled distribution
      // the range of the last number that is accepted is the weight
      const int gp = mc::thorough() ? 24 : 10, gc = mc::thorough() ? 120 : 50,
                gr = mc::thorough() ? 600 : 200;
      double s[5] = {0, 0, 0, 0, 0}, sn = 0, sr = 0;
      for (int a = 0; a < gp; a++)
        for (int b = 0; b < gc; b++)
          for (int e = 0; e < gr; e++) {
            ThreeVector p;
            auto run = [&](double last) {
              const double u[] = {(a + 0.5) / gp, (b + 0.5) / gc, (e + 0.5) / gr, last};
              mc::rng_fast(u, 4);
              p = n.distribute_nucleon();
              mc::transition();
              return mc::rng_used_fast() == 4;
            };
            double lo = 0, hi = 1;
            while (hi - lo > 1e-4) {
              const double mid = (lo + hi) / 2;
              (run(mid) ? lo : hi) = mid;
            }
            if (!run(lo)) continue;
            const double r = p.abs(), ct = p.x3() / r, ph = std::atan2(p.x2(), p.x1());
            const double w = (lo + hi) / 2;
            sn += w, sr += w * r * r;
            s[0] += w * ylm(2, 0, ct, ph), s[1] += w * ylm(2, 2, ct, ph);
            s[2] += w * ylm(3, 0, ct, ph), s[3] += w * ylm(4, 0, ct, ph), s[4] += w * ct;
          }
      bool bad = !mc::rel_close(sr / sn, rr / all, 0.01, 0);
      for (int k = 0; k < 5; k++) bad = bad || std::fabs(s[k] / sn - mom[k] / all) > 0.002;
      if (bad)
        mc::viol("C27-deformed " + y,
                 fmt("<r^2> %.4g for %.4g; moments %.4f %.4f %.4f %.4f for %.4f %.4f %.4f %.4f",
                     sr / sn, rr / all, s[0] / sn, s[1] / sn, s[2] / sn, s[3] / sn, mom[0] / all,
                     mom[1] / all, mom[2] / all, mom[3] / all));
    }
  }
}

// ---- default parameters, densities, Fermi momenta -----------------------------------------
void parameters() {
  struct K {
    int a, z;
    double r, d;
  };
  std::vector<K> ks = {{238, 92, 6.86, 0.556},  {208, 82, 6.67, 0.54},    {197, 79, 6.55, 0.523},
                       {129, 54, 5.36, 0.59},   {63, 29, 4.20641, 0.5977}, {96, 40, 5.02, 0.46},
                       {96, 44, 5.085, 0.46}};
  for (int a = 2; a <= 250; a++)
    for (int z : {a / 2, a * 2 / 5, a / 3}) {
      bool known = false;
      for (auto &k : ks) known = known || (k.a == a && k.z == z && k.r > 0);
      if (known || z < 1) continue;
      ks.push_back({a, z, a <= 16 ? 1.2 * std::cbrt(a) : 1.12 * std::cbrt(a) - 0.86 / std::cbrt(a),
                    a <= 16 ? 0.545 : 0.54});
    }
  for (auto &k : ks)
    for (int test : {1, 3}) {
      if (!mc::mine(job++)) continue;
      st();
      mc::cur(fmt("A=%d Z=%d", k.a, k.z));
      Nucleus n({{pdg::p, k.z}, {pdg::n, k.a - k.z}}, test);
      if (int(n.number_of_particles()) != k.a || int(n.number_of_protons()) != k.z ||
          int(n.size()) != k.a * test)
        mc::viol(fmt("C27-count A=%d Z=%d", k.a, k.z), "numbers");
      if (!mc::rel_close(n.get_nuclear_radius(), k.r, 1e-9, 0) ||
          !mc::rel_close(n.get_diffusiveness(), k.d, 1e-9, 0))
        mc::viol(fmt("C27-parameters A=%d Z=%d", k.a, k.z),
                 fmt("radius %.6g, diffusiveness %.6g", n.get_nuclear_radius(),
                     n.get_diffusiveness()));
      double sum = 0;
      for (int i = 0; i < 4000; i++) {
        const double r = 30. * (i + 0.5) / 4000;
        sum += 4 * M_PI * r * r * n.nucleon_density(r, 0.3, 0.2) * 30 / 4000;
      }
      mc::eval(2);
      if (!mc::rel_close(sum, k.a, 2e-3, 0))
        mc::viol(fmt("C27-density A=%d Z=%d", k.a, k.z), fmt("integrates to %.6g", sum));
      const double mass = k.z * ParticleType::find(pdg::p).mass() +
                          (k.a - k.z) * ParticleType::find(pdg::n).mass();
      if (!mc::rel_close(n.mass(), mass, 1e-9, 0)) mc::viol("C27-mass", fmt("%.9g", n.mass()));
    }
}

void fermi() {
  const int sets[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 0}};
  for (auto &s : sets)
    for (int where = 0; where < 4; where++) {
      if (!mc::mine(job++)) continue;
      Nucleus n({{pdg::p, s[0]}, {pdg::n, s[1]}}, 1);
      const int a = s[0] + s[1];
      mc::cur(fmt("Fermi %d %d %d", s[0], s[1], where));
      const double q = std::array<double, 4>{0.02, 0.4, 0.7, 0.95}[where];
      mc::rng_script_u({}, {q, 0.3 + 0.1 * where, 0.55, 0.2, 0.77 * q});
      n.arrange_nucleons();
      std::vector<double> pf;
      ThreeVector c = n.center().threevec();
      if (c.abs() > 1e-9) mc::viol("C27-centre", mc::str(c));
      for (auto i = n.cbegin(); i != n.cend(); ++i) {
        const double r = (i->position().threevec() - c).abs();
        const double rho = n.get_saturation_density() /
                           (1 + std::exp((r - n.get_nuclear_radius()) / n.get_diffusiveness()));
        pf.push_back(hbarc * std::cbrt(3 * M_PI * M_PI * rho *
                                       (i->pdgcode() == pdg::p ? s[0] : s[1]) / a));
      }
      auto keep = n;
      // all momenta at the largest and in opposite directions: bound is reached
      std::vector<std::vector<double>> most(a, std::vector<double>(a, 0.));
      const double v[] = {0., 0.5, mc::kMaxU};
      const int nd = 3 * a;
      long all = 1;
      for (int i = 0; i < nd; i++) all *= 3;
      st();
      for (long k = 0; k < all; k++) {
        double u[9];
        long t = k;
        for (int i = 0; i < nd; i++, t /= 3) u[i] = v[t % 3];
        mc::rng_fast(u, nd);
        n.generate_fermi_momenta();
        mc::transition();
        ThreeVector sum;
        for (auto i = n.cbegin(); i != n.cend(); ++i) {
          sum += i->momentum().threevec();
          if (!mc::close_to(i->momentum().abs(), i->type().mass(), 1e-9))
            mc::viol("C27-fermi-shell", "nucleon off its mass shell");
        }
        if (sum.abs() > 1e-12) mc::viol("C27-fermi-total", mc::str(sum));
        for (int i = 0; i < a; i++)
          for (int j = 0; j < i; j++)
            most[i][j] = std::max(most[i][j], ((n.cbegin() + i)->momentum().threevec() -
                                               (n.cbegin() + j)->momentum().threevec())
                                                  .abs());
        if (mc::too_many()) return;
      }
      for (int i = 0; i < a; i++)
        for (int j = 0; j < i; j++)
          if (!mc::rel_close(most[i][j], pf[i] + pf[j], 1e-6, 0))
            mc::viol(fmt("C27-fermi-momentum %d+%d", s[0], s[1]),
                     fmt("largest difference %.9g, Fermi momenta add up to %.9g", most[i][j],
                         pf[i] + pf[j]));
      if (a > 2) continue;
      // filling of the Fermi sphere
      const int g = mc::thorough() ? 11 : 7;
      double m2 = 0, m4 = 0, cnt = 0, mx[3] = {0, 0, 0}, off[3] = {0, 0, 0};
      all = 1;
      for (int i = 0; i < 6; i++) all *= g;
      for (long k = 0; k < all; k++) {
        double u[6];
        long t = k;
        for (int i = 0; i < 6; i++, t /= g) u[i] = (t % g + 0.5) / g;
        mc::rng_fast(u, 6);
        n.generate_fermi_momenta();
        mc::transition();
        const ThreeVector d =
            n.cbegin()->momentum().threevec() - (n.cbegin() + 1)->momentum().threevec();
        m2 += d.sqr(), m4 += d.sqr() * d.sqr(), cnt++;
        const double x[3] = {d.x1(), d.x2(), d.x3()};
        for (int i = 0; i < 3; i++) mx[i] += x[i] * x[i], off[i] += x[i] * x[(i + 1) % 3];
      }
      // uniform in the sphere: <p^2> = 3/5 pF^2, <p^4> = 3/7 pF^4
      const double A = pf[0] * pf[0], B = pf[1] * pf[1];
      const double w2 = 0.6 * (A + B),
                   w4 = 3. / 7 * (A * A + B * B) + (2 + 4. / 3) * 0.36 * A * B;
      bool bad = !mc::rel_close(m2 / cnt, w2, 0.015, 0) || !mc::rel_close(m4 / cnt, w4, 0.03, 0);
      for (int i = 0; i < 3; i++)
        bad = bad || !mc::rel_close(mx[i] / cnt, w2 / 3, 0.03, 0) ||
              std::fabs(off[i] / cnt) > 0.01 * w2;
      if (bad)
        mc::viol(fmt("C27-fermi-sphere %d+%d", s[0], s[1]),
                 fmt("<p^2> %.6g for %.6g, <p^4> %.6g for %.6g", m2 / cnt, w2, m4 / cnt, w4));
    }
}

// ---- clusters and orientation -------------------------------------------------------------
using Mat = std::array<std::array<double, 3>, 3>;
Mat mul(const Mat &a, const Mat &b) {
  Mat r{};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int k = 0; k < 3; k++) r[i][j] += a[i][k] * b[k][j];
  return r;
}
Mat rz(double a) {
  return {{{std::cos(a), -std::sin(a), 0}, {std::sin(a), std::cos(a), 0}, {0, 0, 1}}};
}
Mat rx(double a) {
  return {{{1, 0, 0}, {0, std::cos(a), -std::sin(a)}, {0, std::sin(a), std::cos(a)}}};
}
ThreeVector rotated(const Mat &m, const ThreeVector &v) {
  double r[3], x[3] = {v.x1(), v.x2(), v.x3()};
  for (int i = 0; i < 3; i++) r[i] = m[i][0] * x[0] + m[i][1] * x[1] + m[i][2] * x[2];
  return ThreeVector(r[0], r[1], r[2]);
}
std::unique_ptr<Nucleus> alpha(int side, double length, const std::string &orient) {
  auto c = mc::config(fmt("Modi: {Collider: {%s: {Particles: {2212: 8, 2112: 8}, "
                          "Alpha_Clustered: {Automatic: %s%s}%s}}}",
                          side ? "Target" : "Projectile", length ? "false" : "true",
                          length ? fmt(", Side_Length: %.17g", length).c_str() : "",
                          orient.c_str()));
  if (side)
    c.take(InputKeys::modi_collider_target_alphaClustered_automatic);
  else
    c.take(InputKeys::modi_collider_projectile_alphaClustered_automatic);
  return std::make_unique<AlphaClusteredNucleus>(c, 1, length == 0);
}
void clusters() {
  const double s8 = std::sqrt(8.), s24 = std::sqrt(24.);
  const ThreeVector vert[] = {{1, 0, 0},
                              {-1. / 3, s8 / 3, 0},
                              {-1. / 3, -s8 / 6, s24 / 6},
                              {-1. / 3, -s8 / 6, -s24 / 6}};
  for (int side : {0, 1})
    for (double len : {0., 1., 3.0, 6.5}) {
      if (!mc::mine(job++)) continue;
      st();
      auto n = alpha(side, len, "");
      const double scale = std::sqrt(6.) / 4 * (len ? len : 3.42);
      for (int event = 0; event < 3; event++) {
        mc::rng_script_u({0.}, {0.});  // every nucleon in the centre of its cluster
        n->arrange_nucleons();
        mc::transition();
        int prot[4] = {0, 0, 0, 0}, cnt[4] = {0, 0, 0, 0};
        for (auto i = n->cbegin(); i != n->cend(); ++i)
          for (int k = 0; k < 4; k++)
            if ((i->position().threevec() - scale * vert[k]).abs() < 1e-4)
              cnt[k]++, prot[k] += i->pdgcode() == pdg::p;
        for (int k = 0; k < 4; k++)
          if (cnt[k] != 4 || prot[k] != 2)
            mc::viol(fmt("C27-cluster %g", len), fmt("vertex %d has %d nucleons", k, cnt[k]));
      }
    }
  const double ang[] = {0., 0.4, M_PI / 2, 2.5, M_PI, 4.4};
  for (int side : {0, 1})
    for (double ph : ang)
      for (double th : ang)
        for (double ps : ang) {
          if (!mc::mine(job++)) continue;
          st();
          mc::cur(fmt("rotation %g %g %g", ph, th, ps));
          const Mat m = mul(mul(rz(ph), rx(th)), rz(ps));
          auto n = alpha(side, 0, ""),
               r = alpha(side, 0,
                         fmt(", Orientation: {Phi: %.17g, Theta: %.17g, Psi: %.17g}", ph, th, ps));
          for (int salt : {1, 2}) {
            mc::rng_script_u({}, mc::filler(salt));
            n->arrange_nucleons();
            mc::rng_script_u({}, mc::filler(salt));
            r->arrange_nucleons();
            mc::transition();
            for (int i = 0; i < 16; i++) {
              mc::eval();
              const ThreeVector want = rotated(m, (n->cbegin() + i)->position().threevec());
              if ((want - (r->cbegin() + i)->position().threevec()).abs() > 1e-9)
                return mc::viol(fmt("C27-orientation %g %g %g", ph, th, ps),
                                mc::str((r->cbegin() + i)->position().threevec()) + " for " +
                                    mc::str(want));
            }
          }
        }
  for (int side : {0, 1}) {
    if (!mc::mine(job++)) continue;
    auto n = alpha(side, 0, ""), r = alpha(side, 0, ", Orientation: {Random_Rotation: true}");
    mc::rng_script_u({0.}, {0.});
    n->arrange_nucleons();
    const size_t used = mc::rng_used();
    const int g = mc::thorough() ? 40 : 20;
    Mat one{};
    double two[3][3][3][3] = {};
    double count = 0;
    st();
    for (int a = 0; a < g; a++)
      for (int b = 0; b < g; b++)
        for (int c = 0; c < g; c++) {
          std::vector<double> u(used, 0.);
          u.push_back((a + 0.5) / g), u.push_back((b + 0.5) / g), u.push_back((c + 0.5) / g);
          mc::rng_fast(u.data(), u.size());
          r->arrange_nucleons();
          mc::transition();
          // images of the axes
          const double scale = std::sqrt(6.) / 4 * 3.42;
          ThreeVector v[4];
          for (int k = 0; k < 4; k++)  // nucleons 0..3 sit on vertices 0..3 in turn
            for (int i = 0; i < 16; i++)
              if (((n->cbegin() + i)->position().threevec() - scale * vert[k]).abs() < 1e-4)
                v[k] = (r->cbegin() + i)->position().threevec() / scale;
          const ThreeVector ex = v[0], ey = (v[1] + ex * (1. / 3)) * (3 / s8),
                            ez = (v[2] - v[3]) * (3 / s24);
          const double R[3][3] = {{ex.x1(), ey.x1(), ez.x1()},
                                  {ex.x2(), ey.x2(), ez.x2()},
                                  {ex.x3(), ey.x3(), ez.x3()}};
          count++;
          for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) {
              one[i][j] += R[i][j];
              for (int k = 0; k < 3; k++)
                for (int l = 0; l < 3; l++) two[i][j][k][l] += R[i][j] * R[k][l];
            }
        }
    double worst = 0;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        worst = std::max(worst, std::fabs(one[i][j] / count));
        for (int k = 0; k < 3; k++)
          for (int l = 0; l < 3; l++)
            worst = std::max(worst,
                             std::fabs(two[i][j][k][l] / count - (i == k && j == l ? 1. / 3 : 0)));
      }
    if (worst > 0.01)
      mc::viol("C27-random-rotation", fmt("not uniform over rotations: %.4g", worst));
  }
}

// ---- configurations from a file ------------------------------------------------------------
void custom() {
  unsigned shared = 0;
  struct N {
    double x, y, z;
    int q;
  };
  for (int nconf : {1, 2, 3, 5})
    for (bool same : {true, false})
      for (bool newline : {true, false})
        for (int ntest : {1}) {
          // nuclei from the same file share a stream in the whole process
          const unsigned turn = same ? shared++ : 0;
          if (same ? turn % mc::G().nshards != mc::G().shard || turn >= mc::G().nshards
                   : !mc::mine(job++))
            continue;
          st();
          const int a = 4;
          std::vector<std::vector<N>> conf[2];
          std::string files[2];
          for (int f = 0; f < 2; f++) {
            std::string text;
            for (int k = 0; k < nconf; k++) {
              std::vector<N> c;
              for (int i = 0; i < a; i++) {
                N x{0.3 * i * i + 0.7 * k, 1.1 * i - 0.2 * k * k + f, 0.05 * i * i * i - k * 0.1 * i,
                    (i + k) % 2};
                c.push_back(x);
                text += fmt("%.6f %.6f %.6f 1 %d", x.x, x.y, x.z, x.q);
                if (newline || k + 1 < nconf || i + 1 < a) text += "\n";
              }
              conf[f].push_back(c);
            }
            files[f] = fmt("nuc%d_%d_%d_%d", f, nconf, int(same), int(newline));
            std::ofstream(scratch + "/" + files[f]) << text;
          }
          if (same) conf[1] = conf[0], files[1] = files[0];
          const std::string yaml = fmt(
              "Modi: {Collider: {Projectile: {Particles: {2212: 2, 2112: 2}, Custom: "
              "{File_Directory: \"%s\", File_Name: \"%s\"}}, Target: {Particles: {2212: 2, 2112: "
              "2}, Custom: {File_Directory: \"%s/\", File_Name: \"%s\"}}, Sqrtsnn: 4.0, "
              "Fermi_Motion: \"%s\", Impact: {Value: 1.0}}}",
              scratch.c_str(), files[0].c_str(), scratch.c_str(), files[1].c_str(),
              nconf % 2 ? "off" : "frozen");
          const std::string id = fmt(" %d configurations, %s, %s", nconf,
                                     same ? "same file" : "two files",
                                     newline ? "newline at the end" : "none");
          mc::cur("custom nuclei" + id);
          try {
            ColliderModus m(mc::config(yaml), mc::params());
            for (int event = 0; event < 7; event++) {
              Particles list;
              mc::rng_script_u({}, mc::filler(event + 3));
              m.initial_conditions(&list, mc::params());
              mc::transition();
              std::vector<ParticleData> got[2];
              for (auto &p : list) {
                if (p.belongs_to() == BelongsTo::Nothing)
                  mc::viol("C27-custom-label" + id, fmt("no nucleus in event %d", event));
                got[got[0].size() == size_t(a)].push_back(p);
              }
              if (got[0].size() + got[1].size() != size_t(2 * a)) {
                mc::viol("C27-custom-number" + id, fmt("event %d", event));
                continue;
              }
              for (int f = 0; f < 2; f++) {
                const int k = same ? (2 * event + f) % nconf : event % nconf;
                const auto &c = conf[f][k];
                ThreeVector mean;
                const double gz = 4.0 / (2 * 0.938);  // Lorentz factor of the nuclei
                (void)gz;
                for (auto &p : got[f]) mean += p.position().threevec() / a;
                const double g2 = got[f][0].type().mass();
                const double gamma = 4.0 / 2 / g2;
                bool ok = true;
                for (int i = 0; i < a; i++) {
                  ok = ok && (got[f][i].pdgcode() == pdg::p) == (c[i].q == 1);
                  for (int j = 0; j < i; j++) {
                    ThreeVector d =
                        got[f][i].position().threevec() - got[f][j].position().threevec();
                    d.set_x3(d.x3() * gamma);
                    const double want =
                        std::sqrt(std::pow(c[i].x - c[j].x, 2) + std::pow(c[i].y - c[j].y, 2) +
                                  std::pow(c[i].z - c[j].z, 2));
                    ok = ok && mc::close_to(d.abs(), want, 1e-5);
                    mc::eval();
                  }
                }
                if (!ok)
                  mc::viol("C27-custom" + id,
                           fmt("event %d, nucleus %d is not configuration %d", event, f, k));
              }
              if (mc::too_many()) return;
            }
          } catch (const std::exception &x) {
            mc::viol("C27-custom-throws" + id, x.what());
          }
        }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_particles();
  scratch = mc::G().scratch;
  energies();
  frames_agree();
  impact();
  woods_saxon();
  deformed();
  parameters();
  fermi();
  clusters();
  custom();
  return mc::finish();
}
