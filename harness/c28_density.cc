// C28: densities, currents and energy-momentum tensors, at points and on
// lattices, for all small sets of particles, against sums over particles.
// clang-format off
#include "smash_params.h"
#include "smash/density.h"
#include "smash/energymomentumtensor.h"
#include "smash/lattice.h"
#include "smash/particles.h"
// clang-format on

using namespace smash;

namespace {
uint64_t job = 0;
const std::vector<DensityType> kTypes = {
    DensityType::None,         DensityType::Hadron,  DensityType::Baryon,
    DensityType::BaryonicIsospin, DensityType::Pion, DensityType::Isospin3_tot,
    DensityType::Charge,       DensityType::Strangeness};

struct Kind {
  const char *pdg;
  double hadron, baryon, bi3, pion, i3, charge, strange;
  double of(DensityType t) const {
    switch (t) {
      case DensityType::Hadron: return hadron;
      case DensityType::Baryon: return baryon;
      case DensityType::BaryonicIsospin: return bi3;
      case DensityType::Pion: return pion;
      case DensityType::Isospin3_tot: return 2 * i3;  // SMASH counts halves
      case DensityType::Charge: return charge;
      case DensityType::Strangeness: return strange;
      default: return 0;
    }
  }
};
// isospin3_rel is the isospin component relative to the total isospin
const std::vector<Kind> kKinds = {
    {"2212", 1, 1, 1, 0, 0.5, 1, 0},     {"2112", 1, 1, -1, 0, -0.5, 0, 0},
    {"-2212", 1, -1, -1, 0, -0.5, -1, 0}, {"211", 1, 0, 0, 1, 1, 1, 0},
    {"111", 1, 0, 0, 1, 0, 0, 0},        {"-211", 1, 0, 0, 1, -1, -1, 0},
    {"321", 1, 0, 0, 0, 0.5, 1, 1},      {"-321", 1, 0, 0, 0, -0.5, -1, -1},
    {"3122", 1, 1, 0, 0, 0, 0, -1},      {"-3312", 1, -1, 1, 0, 0.5, 1, 2},
    {"2224", 1, 1, 1, 0, 1.5, 2, 0},     {"2214", 1, 1, 1. / 3, 0, 0.5, 1, 0},
    {"3112", 1, 1, -1, 0, -1, -1, -1},   {"331", 1, 0, 0, 0, 0, 0, 0},
    {"11", 0, 0, 0, 0, 0, -1, 0},        {"22", 0, 0, 0, 0, 0, 0, 0}};

struct One {
  int kind;
  double m, x, y, z, px, py, pz;
  bool participant = true;
  FourVector p() const {
    return FourVector(std::sqrt(m * m + px * px + py * py + pz * pz), px, py, pz);
  }
  ThreeVector v() const { return p().threevec() / p().x0(); }
  ParticleData data() const {
    ParticleData d{ParticleType::find(PdgCode(kKinds[kind].pdg))};
    d.set_4position(FourVector(0, x, y, z));
    d.set_4momentum(p());
    if (participant)
      d.set_history(1, 7, ProcessType::Elastic, 0., ParticleList{});
    return d;
  }
  std::string str() const {
    return mc::fmt("%s m=%g at (%g,%g,%g) p=(%g,%g,%g)%s; ", kKinds[kind].pdg, m, x, y, z,
                   px, py, pz, participant ? "" : " spectator");
  }
};
using Set = std::vector<One>;
std::string str(const Set &s) {
  std::string r;
  for (auto &p : s) r += p.str();
  return r;
}

struct Par {
  SmearingMode smear = SmearingMode::CovariantGaussian;
  DerivativesMode der = DerivativesMode::CovariantGaussian;
  RestFrameDensityDerivativesMode rho = RestFrameDensityDerivativesMode::Off;
  double sigma = 1., cut = 4., weight = 1. / 3, range = 2.;
  int nt = 1, ne = 1;
  bool part = false;
  DensityParameters make() const {
    mc::ParamOptions o;
    o.smearing = smear, o.deriv = der, o.rho_deriv = rho, o.sigma = sigma, o.cutoff = cut;
    o.discrete_weight = weight, o.tri_range = range, o.testparticles = nt, o.ensembles = ne;
    o.only_participants = part;
    return DensityParameters(mc::params(o));
  }
  std::string str() const {
    return mc::fmt("smear %d der %d rho %d sigma %g cut %g weight %g range %g nt %d ne %d part %d ",
                   int(smear), int(der), int(rho), sigma, cut, weight, range, nt, ne, part);
  }
  // normalisation of a Gaussian which is cut off
  double norm() const {
    // 4 pi int_0^cut r^2 exp(-r^2/2) dr by Simpson
    const int n = 2000;
    const double h = cut / n;
    double s = 0;
    for (int i = 0; i <= n; i++) {
      const double r = i * h;
      s += (i == 0 || i == n ? 1 : i % 2 ? 4 : 2) * r * r * std::exp(-r * r / 2);
    }
    return 4 * M_PI * s * h / 3 * sigma * sigma * sigma * nt * ne;
  }
};

/// current j^mu at a point, and the weight of the contributions by sign; with
/// derivatives (time, space)
struct J {
  FourVector pos, neg;
  std::array<FourVector, 4> d;
  bool edge = false;  // a particle is about at the cut-off
  FourVector net() const { return pos + neg; }
  double rho() const { return pos.abs() - neg.abs(); }
};
J current(const Set &s, const ThreeVector &r, const Par &par, DensityType t, double norm,
          double L = 0) {
  J j;
  const int im = L > 0 ? 1 : 0;
  for (auto &p : s) {
    if (par.part && !p.participant) continue;
    const double f = kKinds[p.kind].of(t);
    if (f == 0) continue;
    const FourVector q = p.p(), u = q / q.abs();
    for (int a = -im; a <= im; a++)
      for (int b = -im; b <= im; b++)
        for (int c = -im; c <= im; c++) {
          const double d[] = {r[0] - p.x - a * L, r[1] - p.y - b * L, r[2] - p.z - c * L};
          const double ud = u[1] * d[0] + u[2] * d[1] + u[3] * d[2];
          const double rest2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2] + ud * ud;
          const double cut2 = std::pow(par.cut * par.sigma, 2);
          if (std::fabs(rest2 - cut2) < 1e-9 * cut2) j.edge = true;
          if (rest2 > cut2) continue;
          const double g = std::exp(-rest2 / (2 * par.sigma * par.sigma)) * u[0] / norm;
          const FourVector vel(1., p.v());
          const FourVector w = vel * (f * g);
          (f > 0 ? j.pos : j.neg) += w;
          double dt = 0;
          for (int k = 0; k < 3; k++) {
            const double dk = -(d[k] + u[k + 1] * ud) / (par.sigma * par.sigma);
            j.d[k + 1] += w * dk;
            dt -= dk * vel[k + 1];  // moves with its velocity
          }
          j.d[0] += w * dt;
        }
  }
  return j;
}
bool same(const FourVector &a, const FourVector &b, double tol) {
  for (int i = 0; i < 4; i++)
    if (!(std::fabs(a[i] - b[i]) <= tol)) return false;
  return true;
}

void fail(const std::string &what, const std::string &msg) { mc::viol(what, msg); }

std::vector<Set> sets() {
  std::vector<One> alphabet;
  const double ps[][3] = {{0, 0, 0}, {0.3, -0.2, 0.5}, {-1.5, 0.4, 0}, {0, 0, 4.}};
  const double xs[][3] = {{0.1, -0.2, 0.3}, {-0.7, 0.9, 0.2}, {1.4, -0.8, -1.2}};
  for (size_t k = 0; k < kKinds.size(); k++) {
    const double m = ParticleType::find(PdgCode(kKinds[k].pdg)).mass();
    for (int p = 0; p < 4; p++)
      for (int x = 0; x < 3; x++) {
        if (m == 0 && p == 0) continue;
        alphabet.push_back({int(k), m, xs[x][0], xs[x][1], xs[x][2], ps[p][0], ps[p][1],
                            ps[p][2]});
      }
  }
  std::vector<Set> r = {{}};
  for (auto &a : alphabet) r.push_back({a});
  const size_t n = alphabet.size();
  const int step2 = 1;
  for (size_t i = 0; i < n * n; i += step2)
    if (i / n <= i % n) r.push_back({alphabet[i / n], alphabet[i % n]});
  const size_t step3 = mc::thorough() ? 17 : 311;
  for (size_t i = 0; i < n * n * n; i += step3)
    r.push_back({alphabet[i / n / n], alphabet[i / n % n], alphabet[i % n]});
  // heavier than the pole, spectators
  for (size_t i = 0; i < r.size(); i++)
    for (size_t k = 0; k < r[i].size(); k++) {
      if (i % 3 == 1 && r[i][k].m > 0) r[i][k].m *= 1.2;
      if ((i + k) % 4 == 2) r[i][k].participant = false;
    }
  return r;
}

void factors() {
  if (!mc::mine(job++)) return;
  for (auto &k : kKinds)
    for (auto t : kTypes) {
      mc::eval();
      const double f = density_factor(ParticleType::find(PdgCode(k.pdg)), t);
      if (!mc::close_to(f, k.of(t), 1e-12))
        fail(mc::fmt("factor %s %d", k.pdg, int(t)),
             mc::fmt("the contribution of %s to density %d is %g, expected %g", k.pdg, int(t),
                     f, k.of(t)));
    }
}

void at_points(const std::vector<Set> &all) {
  const ThreeVector points[] = {{0, 0, 0}, {0.4, -0.3, 0.7}, {-1.9, 0.2, 0.5}, {0.1, 2.5, -1.},
                                {3., 3., 3.}, {0.1, -0.2, 0.3}};
  std::vector<Par> pars(6);
  pars[1].sigma = 0.6;
  pars[2].cut = 2.5, pars[2].part = true;
  pars[3].nt = 7, pars[3].sigma = 1.3;
  pars[4].ne = 4, pars[4].nt = 2;
  pars[5].part = true, pars[5].nt = 3, pars[5].ne = 5;
  for (size_t i = 0; i < all.size(); i++) {
    if (!mc::mine(job++) || mc::too_many()) continue;
    const Set &s = all[i];
    const Par &par = pars[i % 6];
    const DensityParameters dp = par.make();
    const double norm = par.norm();
    ParticleList list;
    Particles parts;
    for (auto &p : s) list.push_back(p.data()), parts.insert(p.data());
    mc::cur(par.str() + str(s));
    mc::state(par.str() + str(s));
    mc::trace();
    if (!mc::rel_close(dp.norm_factor_sf(), 1 / norm, 1e-9))
      fail("norm " + par.str(), mc::fmt("the normalisation is %.12g, expected %.12g",
                                        dp.norm_factor_sf(), 1 / norm));
    for (auto &r : points)
      for (auto t : kTypes)
        for (int grad = 0; grad < 2; grad++) {
          const J j = current(s, r, par, t, norm);
          if (j.edge) continue;
          mc::eval();
          mc::transition();
          const auto a = current_eckart(r, list, dp, t, grad, true);
          const auto b = current_eckart(r, parts, dp, t, grad, true);
          const double tol = 1e-9 / norm * (1 + 30 * s.size());
          const std::string key = mc::fmt("current type %d ", int(t)) + par.str() + str(s);
          for (auto &x : {a, b}) {
            if (!same(std::get<1>(x), j.net(), tol))
              fail(key, "current " + mc::str(std::get<1>(x)) + " expected " + mc::str(j.net()));
            if (!(std::fabs(std::get<0>(x) - j.rho()) < 1e-6 / norm * 10))
              fail(key, mc::fmt("density %.12g, expected %.12g", std::get<0>(x), j.rho()));
            if (!grad) continue;
            const FourVector *d[] = {&std::get<4>(x), &std::get<5>(x), &std::get<6>(x),
                                     &std::get<7>(x)};
            for (int k = 0; k < 4; k++)
              if (!same(*d[k], j.d[k], 30 * tol))
                fail(key, mc::fmt("derivative %d: ", k) + mc::str(*d[k]) + " expected " +
                              mc::str(j.d[k]));
            const ThreeVector g = std::get<2>(x), c = std::get<3>(x);
            const ThreeVector curl(j.d[2][3] - j.d[3][2], j.d[3][1] - j.d[1][3],
                                   j.d[1][2] - j.d[2][1]);
            for (int k = 0; k < 3; k++)
              if (!(std::fabs(g[k] - j.d[k + 1][0]) < 30 * tol) ||
                  !(std::fabs(c[k] - curl[k]) < 30 * tol))
                fail(key, "gradient or curl is wrong");
          }
        }
  }
}

void on_lattices(const std::vector<Set> &all) {
  const int dummy = 0;
  (void)dummy;
  for (size_t i = 0; i < all.size(); i++) {
    if (!mc::mine(job++) || mc::too_many()) continue;
    const bool per = i % 2;
    const double L = 6.;
    const std::array<int, 3> n = {6 + int(i % 3), 6 + int(i / 3 % 3), 8};
    const std::array<double, 3> l = {L, L, L}, o = {-3., -3., -3.};
    Par par;
    par.sigma = 0.8, par.cut = i % 5 ? 3. : 4.;
    if (per) par.cut = 3.;
    par.nt = 1 + i % 3, par.ne = 1 + i / 2 % 2, par.part = i % 7 == 3;
    par.rho = i % 4 < 2 ? RestFrameDensityDerivativesMode::On
                        : RestFrameDensityDerivativesMode::Off;
    const double norm = par.norm();
    const DensityParameters dp = par.make();
    const DensityType t = kTypes[1 + i % 7];
    const LatticeUpdate when = i % 3 ? LatticeUpdate::EveryTimestep : LatticeUpdate::AtOutput;
    RectangularLattice<DensityOnLattice> lat(l, n, o, per, when);
    RectangularLattice<EnergyMomentumTensor> tmn(l, n, o, per, when);
    // the particles, distributed over ensembles; the last one is far away
    std::vector<Particles> ens(par.ne);
    Set s = all[i];
    for (size_t k = 0; k < s.size(); k++) ens[k % par.ne].insert(s[k].data());
    mc::cur("lattice " + par.str() + str(s));
    mc::state(mc::fmt("lattice %d %d ", per, int(t)) + par.str() + str(s));
    mc::trace();
    const std::string key = mc::fmt("lattice %s type %d ", per ? "periodic" : "open", int(t)) +
                            par.str() + str(s);
    // twice: nothing may be left of the first time
    for (int again = 0; again < 2; again++) {
      mc::transition(2);
      update_lattice(&lat, nullptr, nullptr, nullptr, when, t, dp, ens, 0.1, true);
      update_lattice_accumulating_ensembles(&tmn, when, t, dp, ens, false);
    }
    update_lattice(&lat, nullptr, nullptr, nullptr,
                   when == LatticeUpdate::AtOutput ? LatticeUpdate::EveryTimestep
                                                   : LatticeUpdate::AtOutput,
                   t, dp, {}, 0.1, true);  // not its turn
    double total = 0, energy = 0;
    for (int a = 0; a < n[0]; a++)
      for (int b = 0; b < n[1]; b++)
        for (int c = 0; c < n[2]; c++) {
          const ThreeVector r = lat.cell_center(a, b, c);
          // cells at the edge of the cube searched
          const J j = current(s, r, par, t, norm, per ? L : 0);
          if (j.edge) continue;
          DensityOnLattice node = lat.node(a, b, c);
          mc::eval();
          const double tol = 1e-9 / norm * (1 + 30 * s.size());
          const std::string at = mc::fmt("cell (%d,%d,%d): ", a, b, c);
          if (!same(node.jmu_net(), j.net(), tol))
            fail(key, at + "current " + mc::str(node.jmu_net()) + " expected " +
                          mc::str(j.net()));
          if (!(std::fabs(node.rho() - j.rho()) < 1e-5 / norm) ||
              !(std::fabs(node.rho(2.5) - 2.5 * j.rho()) < 1e-4 / norm))
            fail(key, at + mc::fmt("density %.12g, expected %.12g", node.rho(), j.rho()));
          const auto d = node.djmu_dxnu();
          for (int k = 0; k < 4; k++)
            if (!same(d[k], j.d[k], 30 * tol))
              fail(key, at + mc::fmt("derivative %d: ", k) + mc::str(d[k]) + " expected " +
                            mc::str(j.d[k]));
          const ThreeVector g = node.grad_j0(), cu = node.curl_vecj(2.), dt = node.dvecj_dt();
          const ThreeVector curl(j.d[2][3] - j.d[3][2], j.d[3][1] - j.d[1][3],
                                 j.d[1][2] - j.d[2][1]);
          for (int k = 0; k < 3; k++)
            if (!(std::fabs(g[k] - j.d[k + 1][0]) < 30 * tol) ||
                !(std::fabs(cu[k] - 2 * curl[k]) < 60 * tol) ||
                !(std::fabs(dt[k] - j.d[0][k + 1]) < 30 * tol))
              fail(key, at + "gradient, curl or time derivative is wrong");
          if (par.rho == RestFrameDensityDerivativesMode::On && std::fabs(j.rho()) * norm > 1e-3) {
            const FourVector got = node.drho_dxnu(), net = j.net();
            ThreeVector gr;
            bool ok = true;
            for (int k = 0; k < 4; k++) {
              const double want = (net[0] * j.d[k][0] - net[1] * j.d[k][1] -
                                   net[2] * j.d[k][2] - net[3] * j.d[k][3]) / j.rho();
              ok &= mc::close_to(got[k], want, 1e-4 / norm + 1e-5 * std::fabs(want));
              if (k) gr[k - 1] = got[k];
            }
            const ThreeVector x = node.grad_rho_cross_vecj();
            const ThreeVector w(gr[1] * net[3] - gr[2] * net[2], gr[2] * net[1] - gr[0] * net[3],
                                gr[0] * net[2] - gr[1] * net[1]);
            for (int k = 0; k < 3; k++) ok &= mc::close_to(x[k], w[k], 1e-8);
            if (!ok) fail(key, at + "derivative of the rest frame density is wrong");
          }
          total += node.jmu_net()[0];
          // energy-momentum tensor: sum p^mu p^nu / E times the same weights
          double T[10] = {0};
          for (auto &p : s) {
            const J one = current({p}, r, par, t, norm, per ? L : 0);
            const double w = one.net()[0];
            const FourVector q = p.p();
            int m = 0;
            for (int mu = 0; mu < 4; mu++)
              for (int nu = mu; nu < 4; nu++) T[m++] += w * q[mu] * q[nu] / q[0];
          }
          const EnergyMomentumTensor &got = tmn.node(a, b, c);
          for (int m = 0; m < 10; m++)
            if (!mc::close_to(got[m], T[m], 5 * tol))
              fail(key, at + mc::fmt("component %d of the tensor is %g, expected %g", m, got[m],
                                     T[m]));
          energy += got[0];
        }
    // smooth periodic densities sum up to the charge
    if (per) {
      double want = 0, maxg = 1;
      for (auto &p : s)
        if (!par.part || p.participant) {
          want += kKinds[p.kind].of(t) / par.nt / par.ne;
          maxg = std::max(maxg, p.p().x0() / std::max(p.m, 1e-3));
        }
      const double V = L * L * L / (n[0] * n[1] * n[2]);
      if (maxg < 1.2 && !mc::close_to(total * V, want, 0.03 * (s.size() + 0.1)))
        fail(key, mc::fmt("the density sums up to %g, expected %g", total * V, want));
    }
  }
}

/// smearing to cells: discrete and triangular
void coarse(const std::vector<Set> &all) {
  for (size_t i = 0; i < all.size(); i++) {
    if (!mc::mine(job++) || mc::too_many() || all[i].empty()) continue;
    for (int mode = 0; mode < 4; mode++) {
      const bool per = (i / 2 + mode) % 2;
      const std::array<int, 3> n = {4 + int(i % 2), 5, 4 + int(i % 3)};
      const std::array<double, 3> l = {4.4, 5.5, 3.6 + (i % 4)}, o = {-2.2, -2., -1.9};
      Par par;
      par.smear = mode < 2 ? SmearingMode::Discrete : SmearingMode::Triangular;
      par.der = i % 3 ? DerivativesMode::Off : DerivativesMode::FiniteDifference;
      par.weight = mode % 2 ? 1. / 3 : 0.6;
      par.range = mode % 2 ? 2. : 1.;
      par.nt = 1 + i % 4, par.ne = 1 + i % 2, par.part = i % 5 == 0;
      const DensityType t = kTypes[1 + i / 3 % 7];
      const DensityParameters dp = par.make();
      auto when = LatticeUpdate::EveryTimestep;
      RectangularLattice<DensityOnLattice> lat(l, n, o, per, when);
      RectangularLattice<FourVector> old(l, n, o, per, when), now(l, n, o, per, when);
      RectangularLattice<std::array<FourVector, 4>> four(l, n, o, per, when);
      const double d[] = {l[0] / n[0], l[1] / n[1], l[2] / n[2]};
      const double V = d[0] * d[1] * d[2];
      std::vector<FourVector> before(n[0] * n[1] * n[2]);
      for (int stage = 0; stage < 3; stage++) {
        // move the particles; in the last stage some leave the lattice
        Set s = all[i];
        for (auto &p : s) {
          p.x += (stage - 1) * 0.9, p.y -= (stage - 1) * 0.4, p.z += stage * 1.1;
          if (per && stage < 2) {
            double *x[] = {&p.x, &p.y, &p.z};
            for (int k = 0; k < 3; k++)
              *x[k] = o[k] + std::fmod(std::fmod(*x[k] - o[k], l[k]) + l[k], l[k]);
          }
        }
        std::vector<Particles> ens(par.ne);
        for (size_t k = 0; k < s.size(); k++) ens[k % par.ne].insert(s[k].data());
        const std::string key = mc::fmt("cells mode %d stage %d %s type %d ", mode, stage,
                                        per ? "periodic" : "open", int(t)) +
                                par.str() + str(s);
        mc::cur(key);
        mc::state(key);
        mc::transition();
        mc::eval();
        const double dt = 0.25;
        update_lattice(&lat, &old, &now, &four, when, t, dp, ens, dt, false);
        // expected
        std::vector<FourVector> want(before.size());
        double charge = 0;
        bool all_in = true, tie = false;
        auto add = [&](int a, int b, int c, const FourVector &w) {
          if (!per && (a < 0 || b < 0 || c < 0 || a >= n[0] || b >= n[1] || c >= n[2]))
            return false;
          auto md = [](int x, int m) { return ((x % m) + m) % m; };
          want[md(a, n[0]) + n[0] * (md(b, n[1]) + n[1] * md(c, n[2]))] += w;
          return true;
        };
        for (auto &p : s) {
          const double f = kKinds[p.kind].of(t);
          if ((par.part && !p.participant) || f == 0) continue;
          charge += f / par.nt / par.ne;
          const double rel[] = {(p.x - o[0]) / d[0], (p.y - o[1]) / d[1], (p.z - o[2]) / d[2]};
          int k[3];
          for (int q = 0; q < 3; q++) {
            k[q] = int(std::floor(rel[q]));
            if (std::fabs(rel[q] - std::round(rel[q])) < 1e-9) tie = true;
            if (std::fabs(2 * rel[q] - std::round(2 * rel[q])) < 1e-9) tie = true;
          }
          const FourVector w0 = FourVector(1, p.v()) * (f / par.nt / par.ne / V);
          if (mode < 2) {
            const double small = (1 - par.weight) / 6;
            const bool in = add(k[0], k[1], k[2], w0 * par.weight);
            all_in &= in;
            if (!in) continue;
            for (int q = 0; q < 3; q++)
              for (int sgn : {-1, 1}) {
                int m[] = {k[0], k[1], k[2]};
                m[q] += sgn;
                // what would leave the lattice stays in the cell
                if (!add(m[0], m[1], m[2], w0 * small)) add(k[0], k[1], k[2], w0 * small);
              }
          } else {
            const int R = int(par.range) + 1;
            for (int a = -R; a <= R; a++)
              for (int b = -R; b <= R; b++)
                for (int c = -R; c <= R; c++) {
                  const int m[] = {k[0] + a, k[1] + b, k[2] + c};
                  double w = 1;
                  for (int q = 0; q < 3; q++)
                    w *= std::max(0., par.range - std::fabs(m[q] + 0.5 - rel[q])) /
                         (par.range * par.range);
                  if (w > 0) all_in &= add(m[0], m[1], m[2], w0 * w);
                }
          }
        }
        double total = 0;
        bool ok = true;
        int bad = -1;
        for (size_t q = 0; q < want.size(); q++) {
          total += lat[q].jmu_net()[0] * V;
          if (!same(lat[q].jmu_net(), want[q], 1e-9) && bad < 0) bad = q;
        }
        if (bad >= 0 && !tie)
          fail(key, mc::fmt("cell %d has ", bad) + mc::str(lat[bad].jmu_net()) + ", expected " +
                        mc::str(want[bad]));
        if (all_in && !mc::close_to(total, charge, 1e-9))
          fail(key, mc::fmt("the density sums up to %g, expected %g", total, charge));
        (void)ok;
        if (par.der == DerivativesMode::FiniteDifference && bad < 0) {
          auto idx = [&](int a, int b, int c) {
            auto md = [](int x, int m) { return ((x % m) + m) % m; };
            return md(a, n[0]) + n[0] * (md(b, n[1]) + n[1] * md(c, n[2]));
          };
          for (int a = 0; a < n[0]; a++)
            for (int b = 0; b < n[1]; b++)
              for (int c = 0; c < n[2]; c++) {
                const int q = idx(a, b, c);
                const auto dj = lat[q].djmu_dxnu();
                bool good = same(dj[0], (want[q] - before[q]) / dt, 1e-7);
                for (int k = 0; k < 3; k++) {
                  int lo[] = {a, b, c}, hi[] = {a, b, c};
                  double h = 2 * d[k];
                  lo[k]--, hi[k]++;
                  if (!per && lo[k] < 0) lo[k]++, h = d[k];
                  if (!per && hi[k] >= n[k]) hi[k]--, h = d[k];
                  good &= same(dj[k + 1], (want[idx(hi[0], hi[1], hi[2])] -
                                           want[idx(lo[0], lo[1], lo[2])]) / h, 1e-7);
                }
                if (!good) fail(key, "finite differences are wrong");
              }
        }
        for (size_t q = 0; q < want.size(); q++) before[q] = lat[q].jmu_net();
      }
      mc::trace();
    }
  }
}

void tensors() {
  std::vector<FourVector> ps;
  for (double m : {0.138, 0.938, 2.5})
    for (auto v : {ThreeVector(0, 0, 0), ThreeVector(0.4, -0.2, 0.1), ThreeVector(-1.7, 0.3, 0.9),
                   ThreeVector(0, 0, 5.), ThreeVector(0.2, 2.2, -3.)})
      ps.push_back(FourVector(std::sqrt(m * m + v.sqr()), v));
  const size_t n = ps.size();
  const double us[][3] = {{0, 0, 0}, {0.5, 0, 0}, {0.1, -0.6, 0.3}, {0, 0, -0.95}};
  const size_t N = mc::thorough() ? n * n * n * n : n * n * n;
  for (size_t i = 0; i < N; i++) {
    if (!mc::mine(job++) || mc::too_many()) continue;
    std::vector<FourVector> q = {ps[i % n], ps[i / n % n], ps[i / n / n % n]};
    if (mc::thorough()) q.push_back(ps[i / n / n / n % n]);
    EnergyMomentumTensor T;
    double M[4][4] = {{0}};
    const ParticleType &type = ParticleType::find(pdg::p);
    std::string key = "tensor of";
    for (size_t k = 0; k < q.size(); k++) {
      const double f = 0.25 + k;
      if (k == 0) {
        T.add_particle(q[k] * f);
      } else {
        ParticleData d{type};
        d.set_4momentum(q[k]);
        T.add_particle(d, f);
        T.add_particle(d, 0.);
      }
      for (int a = 0; a < 4; a++)
        for (int b = 0; b < 4; b++) M[a][b] += f * q[k][a] * q[k][b] / q[k][0];
      key += " " + mc::str(q[k]);
    }
    mc::eval();
    mc::transition();
    mc::state(key);
    const double scale = M[0][0];
    bool ok = true;
    for (int a = 0; a < 4; a++)
      for (int b = 0; b < 4; b++)
        ok &= mc::close_to(T[EnergyMomentumTensor::tmn_index(a, b)], M[a][b], 1e-12 * scale);
    if (!ok) fail(key, "components are wrong");
    const double trace = M[0][0] - M[1][1] - M[2][2] - M[3][3];
    // Landau frame
    const FourVector u = T.landau_frame_4velocity();
    if (!mc::close_to(u.sqr(), 1., 1e-6) || u[0] < 1 - 1e-9) fail(key, "velocity of the Landau frame");
    const EnergyMomentumTensor L = T.boosted(u);
    const double big = scale * u[0] * u[0];
    if (q.size() > 1 && !(q[0] == q[1] && q[1] == q[2]))
      for (int a = 1; a < 4; a++)
        if (std::fabs(L[a]) > 1e-7 * big)
          fail(key, mc::fmt("momentum density %g in the Landau frame", L[a]));
    if (L[0] < 0 || !mc::close_to(L[0] - L[4] - L[7] - L[9], trace, 1e-8 * big) ||
        std::min({L[4], L[7], L[9]}) < -1e-7 * big)
      fail(key, "energy density, pressure or trace in the Landau frame");
    // boosts (with lower index: the spatial part changes sign)
    for (auto &v : us) {
      const double g = 1 / std::sqrt(1 - v[0] * v[0] - v[1] * v[1] - v[2] * v[2]);
      const EnergyMomentumTensor B = T.boosted(FourVector(g, -g * v[0], -g * v[1], -g * v[2]));
      double W[4][4] = {{0}};
      for (size_t k = 0; k < q.size(); k++) {
        const FourVector p = q[k].lorentz_boost(ThreeVector(v[0], v[1], v[2]));
        // the density of particles is not invariant: weight with E/E'
        const double f = (0.25 + k) / q[k][0];
        for (int a = 0; a < 4; a++)
          for (int b = 0; b < 4; b++) W[a][b] += f * p[a] * p[b];
      }
      for (int a = 0; a < 4; a++)
        for (int b = 0; b < 4; b++)
          if (!mc::close_to(B[EnergyMomentumTensor::tmn_index(a, b)], W[a][b],
                            1e-9 * scale * g * g))
            fail(key, mc::fmt("component (%d,%d) boosted by (%g,%g,%g) is %g, expected %g", a, b,
                              v[0], v[1], v[2], B[EnergyMomentumTensor::tmn_index(a, b)],
                              W[a][b]));
    }
    // arithmetic
    EnergyMomentumTensor S = T + T * 3., D = S - T, H = S / 8.;
    EnergyMomentumTensor I = T;
    I += T, I -= S, I *= -2., I /= 4.;
    for (int a = 0; a < 10; a++)
      if (!mc::close_to(S[a], 4 * T[a], 1e-9 * scale) || !mc::close_to(D[a], 3 * T[a], 1e-9 * scale) ||
          !mc::close_to(H[a], T[a] / 2, 1e-9 * scale) || !mc::close_to(I[a], T[a], 1e-9 * scale))
        fail(key, "sums and multiples are wrong");
  }
  for (int a = -1; a <= 4; a++)
    for (int b = -1; b <= 4; b++) {
      bool thrown = false;
      int i = -1;
      try {
        i = EnergyMomentumTensor::tmn_index(a, b);
      } catch (const std::invalid_argument &) {
        thrown = true;
      }
      const bool good = a >= 0 && b >= 0 && a < 4 && b < 4;
      if (thrown == good || (good && (i < 0 || i > 9)))
        fail(mc::fmt("index %d %d", a, b), "wrong index of a component");
    }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  mc::load_shipped_particles();
  const auto all = sets();
  factors();
  at_points(all);
  on_lattices(all);
  coarse(all);
  tensors();
  mc::sample(mc::fmt("%zu sets of particles", all.size()));
  return mc::finish();
}
