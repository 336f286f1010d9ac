// C46: final states follow the documented distributions: every combination of
// random numbers on a grid is answered, which gives the distribution produced
// up to the grid's resolution; it is compared with the one written down here.
// clang-format off
#include "mc_rng.h"
#include "smash_params.h"
#include "smash/constants.h"
#include "smash/crosssections.h"
#include "smash/decayaction.h"
#include "smash/decaytype.h"
#include "smash/isoparticletype.h"
#include "smash/processbranch.h"
#include "smash/scatteraction.h"
// clang-format on

using namespace smash;

namespace {
uint64_t job = 0;
constexpr double kMN = 0.938;

ParticleData part(const ParticleType &t, double m, const ThreeVector &p, int id, double x) {
  ParticleData d{t, id};
  d.set_4momentum(m, p);
  d.set_4position(FourVector(0, x, 0, 0));
  d.set_formation_time(0.);
  return d;
}
double pcm(double s, double a, double b) {
  const double q = (s * s - (a + b) * (a + b)) * (s * s - (a - b) * (a - b));
  return q <= 0 ? 0 : std::sqrt(q) / (2 * s);
}

// ---- expected distributions (Cugnon et al. 1996, Agakishiev et al. 2014) ------
double bpp(double p) {
  if (p < 2) return 5.5 * std::pow(p, 8) / (7.7 + std::pow(p, 8));
  const double e = std::sqrt(p * p + kMN * kMN), s = 2 * kMN * (e + kMN);
  return std::min(7.6 + 0.66 * std::log(s), 5.334 + 0.67 * (p - 2));
}
double bnp(double p) {
  if (p < 0.225) return 0;
  if (p < 0.6) return 16.53 * (p - 0.225);
  if (p < 1.6) return -1.63 * p + 7.16;
  return bpp(p);
}
double plab(double s) { return std::sqrt(s * (s - 4 * kMN * kMN)) / (2 * kMN); }

struct Shape {
  enum { Iso, Exp, Pow } kind = Iso;
  double b = 0, backward = 0;  // slope; share of mirrored ones
};
/// Cumulative distribution of cos(theta).
double cdf(const Shape &sh, double c, double s, double m1, double m2, double m3, double m4) {
  if (sh.kind == Shape::Iso) return 0.5 * (1 + c);
  const double pi = pcm(s, m1, m2), pf = pcm(s, m3, m4);
  if (sh.kind == Shape::Exp) {
    const double k = 2 * sh.b * pi * pf;
    auto f = [&](double x) {
      return k < 1e-9 ? 0.5 * (1 + x)
                      : (std::exp(k * (x - 1)) - std::exp(-2 * k)) / (1 - std::exp(-2 * k));
    };
    return (1 - sh.backward) * f(c) + sh.backward * (1 - f(-c));
  }
  const double e1 = std::hypot(pi, m1), e3 = std::hypot(pf, m3);
  const double a = sh.b;
  auto t = [&](double x) {
    return std::fabs(m1 * m1 + m3 * m3 - 2 * e1 * e3 + 2 * pi * pf * x);
  };
  const double lo = t(1), hi = t(-1);
  auto f = [&](double x) {  // large |t| to small
    const double q = t(x) / lo, h = hi / lo;
    return std::fabs(a - 1) < 1e-6
               ? std::log(h / q) / std::log(h)
               : (std::pow(q, 1 - a) - std::pow(h, 1 - a)) / (1 - std::pow(h, 1 - a));
  };
  if (a >= 30) return c < -1 + 1e-9 ? sh.backward : c > 1 - 1e-9 ? 1 : sh.backward;
  return (1 - sh.backward) * f(c) + sh.backward * (1 - f(-c));
}

// ---- one final state ------------------------------------------------------------
struct Out {
  bool ok = false;
  std::string err;
  double c = 0, phi = 0, m3 = 0, m4 = 0;
  size_t used = 0;
};
struct Case {
  std::string name;
  std::function<std::unique_ptr<Action>()> make;
  bool elastic = false;
  std::function<Shape(const Out &)> shape;
  ThreeVector axis;   // direction of the first incoming one in the CM frame
  ThreeVector ex, ey;
  FourVector total;
  double s = 0, m1 = 0, m2 = 0;
};
Out run(const Case &k, const double *u, size_t n, bool count = false) {
  Out o;
  auto act = k.make();
  mc::rng_fast(u, n);
  mc::transition();
  act->generate_final_state();
  if (count) o.used = mc::rng_used_fast();
  const auto &out = act->outgoing_particles();
  if (out.size() != 2) {
    o.err = "not two outgoing particles";
    return o;
  }
  o.m3 = out[0].effective_mass(), o.m4 = out[1].effective_mass();
  const FourVector sum = out[0].momentum() + out[1].momentum();
  for (int i = 0; i < 4; i++)
    if (!(std::fabs(sum[i] - k.total[i]) < 1e-9 * (1 + k.total.x0())))
      o.err = mc::fmt("momentum is not conserved: component %d is %.12g instead of %.12g", i,
                      sum[i], k.total[i]);
  const FourVector q = out[0].momentum().lorentz_boost(k.total.velocity());
  const ThreeVector v = q.threevec();
  const double a = v.abs();
  if (!(a > 0) || !mc::close_to(a, pcm(k.s, o.m3, o.m4), 1e-7 * (1 + k.total.x0() / k.s)))
    o.err = mc::fmt("momentum in the center of mass is %.9g instead of %.9g", a,
                    pcm(k.s, o.m3, o.m4));
  o.c = (v * k.axis) / a;
  o.phi = std::atan2(v * k.ey, v * k.ex);
  o.ok = o.err.empty();
  return o;
}
double ks(std::vector<double> &f) {  // distance to the uniform distribution
  std::sort(f.begin(), f.end());
  double d = 0;
  const double n = f.size();
  for (size_t i = 0; i < f.size(); i++)
    d = std::max({d, std::fabs(f[i] - (i + 1) / n), std::fabs(f[i] - i / n)});
  return d;
}
/// largest |fraction below f - f|, also right for atoms
constexpr size_t kW = 12;

void check(Case &k) {
  const std::string key = k.name;
  mc::cur(key);
  mc::state(key);
  k.s = k.total.abs();
  // an orthogonal frame
  const ThreeVector h = std::fabs(k.axis.x3()) < 0.9 ? ThreeVector(0, 0, 1) : ThreeVector(1, 0, 0);
  k.ex = k.axis.cross_product(h);
  k.ex = k.ex / k.ex.abs();
  k.ey = k.axis.cross_product(k.ex);
  int done = 0;
  for (int b0 = 0; b0 < 6 && done < 2; b0++) {
    double base[kW];
    for (size_t i = 0; i < kW; i++) base[i] = std::fmod(0.137 + 0.61803398875 * (i * 7 + b0 * 3), 1.);
    if (b0 % 2) base[1] = 0.01 + 0.02 * b0;
    // two steps, since sampling adapts itself to the masses met
    for (int r = 0; r < 3; r++) run(k, base, kW);
    const Out o0 = run(k, base, kW, true);
    if (!o0.ok) {
      mc::viol(key, o0.err);
      return;
    }
    if (o0.used > 8) continue;  // too many rejections
    done++;
    std::vector<size_t> A, B, both;
    for (size_t i = 0; i < o0.used; i++) {
      bool mass = false, c = false, phi = false;
      for (double u : {0.0002, 0.03, 0.21, 0.42, 0.58, 0.77, 0.96, 0.9998}) {
        double w[kW];
        memcpy(w, base, sizeof w);
        w[i] = u;
        run(k, w, kW);
        const Out o = run(k, w, kW, true);
        if (!o.ok) {
          mc::viol(key, o.err);
          return;
        }
        mass |= std::fabs(o.m3 - o0.m3) > 1e-12 || std::fabs(o.m4 - o0.m4) > 1e-12 ||
                o.used != o0.used;
        c |= std::fabs(o.c - o0.c) > 1e-7;
        phi |= std::fabs(std::remainder(o.phi - o0.phi, 2 * M_PI)) > 1e-5 &&
               std::fabs(o.c) < 1 - 1e-9;
      }
      if (mass) continue;
      if (c) A.push_back(i);
      if (phi) B.push_back(i);
      if (c && phi) both.push_back(i);
    }
    const Shape sh = k.shape(o0);
    // cos(theta)
    std::vector<size_t> D = A;
    if (!both.empty()) {
      D = A;
      for (size_t i : B)
        if (std::find(D.begin(), D.end(), i) == D.end()) D.push_back(i);
    }
    const bool sharp = sh.kind == Shape::Pow && sh.b >= 30;
    if (D.empty() || D.size() > 4) {
      if (sharp && D.empty()) continue;
      mc::viol(key, mc::fmt("the direction depends on %d random numbers", int(D.size())));
      return;
    }
    const size_t n[] = {0, 4096, mc::thorough() ? 512u : 112u, mc::thorough() ? 80u : 30u,
                        mc::thorough() ? 24u : 14u};
    const size_t g = n[D.size()];
    size_t cells = 1;
    for (size_t i = 0; i < D.size(); i++) cells *= g;
    std::vector<double> f, az;
    f.reserve(cells);
    for (size_t x = 0; x < cells; x++) {
      double w[kW];
      memcpy(w, base, sizeof w);
      for (size_t i = 0, y = x; i < D.size(); i++, y /= g) w[D[i]] = (y % g + 0.5) / g;
      const Out o = run(k, w, kW);
      if (!o.ok) {
        mc::viol(key, o.err);
        return;
      }
      f.push_back(sharp ? o.c : cdf(k.shape(o), o.c, k.s, k.m1, k.m2, o.m3, o.m4));
      if (!both.empty()) az.push_back(0.5 + o.phi / (2 * M_PI));
    }
    mc::trace();
    mc::eval();
    const double tol = D.size() == 1 ? 3. / g : D.size() == 2 ? 2.2 / g : 3. / g;
    if (sharp) {
      size_t fw = 0, bw = 0;
      for (double c : f) fw += c > 1 - 1e-6, bw += c < -1 + 1e-6;
      if (fw + bw != f.size() || std::fabs(double(fw) / f.size() - 0.5) > tol)
        mc::viol(key, mc::fmt("of %d directions %d are forward and %d backward", int(f.size()),
                              int(fw), int(bw)));
    } else {
      const double d = ks(f);
      if (!(d < tol))
        mc::viol(key, mc::fmt("the distribution of cos(theta) deviates by %.4f (grid %d^%d, slope %g, "
                              "masses %g %g, first %g to %g)", d, int(g), int(D.size()), sh.b, o0.m3,
                              o0.m4, f.front(), f.back()));
    }
    // azimuth
    if (both.empty()) {
      if (sharp) continue;
      if (B.size() != 1) {
        mc::viol(key, mc::fmt("the azimuth depends on %d random numbers", int(B.size())));
        return;
      }
      for (int r = 0; r < 4; r++) {
        std::vector<double> v;
        double w[kW];
        memcpy(w, base, sizeof w);
        for (size_t i : A) w[i] = std::fmod(base[i] + 0.23 * r, 1.);
        for (int x = 0; x < 512; x++) {
          w[B[0]] = (x + 0.5) / 512;
          const Out o = run(k, w, kW);
          if (!o.ok) {
            mc::viol(key, o.err);
            return;
          }
          v.push_back(0.5 + o.phi / (2 * M_PI));
        }
        mc::eval();
        if (!(ks(v) < 3. / 512)) mc::viol(key, "the azimuth is not uniform");
      }
    } else {
      mc::eval();
      if (!(ks(az) < 3. / g)) mc::viol(key, "the azimuth is not uniform");
    }
  }
  if (!done) mc::extra("cases without a short sequence of random numbers", 1);
}

// ---- scatterings ------------------------------------------------------------------
void scatterings() {
  struct Pair {
    const char *a, *b;
  };
  const std::vector<Pair> el = {{"2212", "2212"},   {"2212", "2112"},  {"2112", "2212"},
                                {"2112", "2112"},   {"-2212", "-2112"}, {"-2212", "-2212"},
                                {"2212", "-2212"},  {"2212", "-2112"}, {"211", "2212"},
                                {"321", "211"},     {"3122", "2212"},  {"-321", "2112"},
                                {"211", "-211"}};
  std::vector<double> over = {0.002, 0.011, 0.03, 0.06, 0.09, 0.16, 0.3, 0.45,
                              0.6,   0.75,  1.,   1.6,  2.5,  4.,   7.,  15.};
  if (!mc::thorough()) over = {0.002, 0.017, 0.06, 0.16, 0.45, 0.75, 1.3, 2.5, 15.};
  struct In {
    const char *c, *d;  // outgoing
  };
  const std::vector<std::pair<Pair, In>> inel = {
      {{"2212", "2212"}, {"2214", "2212"}},     {{"2212", "2112"}, {"2114", "2212"}},
      {{"2112", "2112"}, {"1114", "2212"}},     {{"-2212", "-2212"}, {"-2214", "-2212"}},
      {{"2212", "-2212"}, {"2214", "-2212"}},   {{"2212", "2212"}, {"12212", "2212"}},
      {{"2212", "2112"}, {"2124", "2112"}},     {{"2212", "2212"}, {"2222", "2112"}},
      {{"2212", "2212"}, {"9902212", "2212"}},  {{"2212", "2212"}, {"2214", "2214"}},
      {{"2112", "2224"}, {"2212", "2212"}},     {{"2212", "2212"}, {"12212", "2214"}},
      {{"-321", "2212"}, {"3122", "111"}},      {{"211", "2112"}, {"3122", "321"}},
      {{"-2212", "-2212"}, {"-12212", "-2212"}}, {{"211", "2212"}, {"213", "2212"}}};
  const std::vector<FourVector> boosts = {FourVector(1, 0, 0, 0), FourVector(1, 0.3, -0.2, 0.6)};
  const std::vector<ThreeVector> dirs = {ThreeVector(0, 0, 1), ThreeVector(0.6, -0.64, 0.48),
                                         ThreeVector(0, 0, -1)};
  auto setup = [&](const Pair &pr, double excess, size_t fr, size_t di, double extra, Case &k,
                   ParticleData &x, ParticleData &y) {
    const ParticleType &ta = ParticleType::find(PdgCode(pr.a)),
                       &tb = ParticleType::find(PdgCode(pr.b));
    k.m1 = ta.mass(), k.m2 = tb.mass();
    const double s = std::max(k.m1 + k.m2, extra) + excess;
    const double q = pcm(s, k.m1, k.m2);
    k.axis = dirs[di] / dirs[di].abs();
    const ThreeVector beta = boosts[fr].threevec();
    x = part(ta, k.m1, k.axis * q, 0, 0.), y = part(tb, k.m2, k.axis * -q, 1, 1.);
    x.set_4momentum(x.momentum().lorentz_boost(-beta));
    y.set_4momentum(y.momentum().lorentz_boost(-beta));
    k.total = x.momentum() + y.momentum();
  };
  for (auto &pr : el)
    for (double e : over)
      for (size_t fr = 0; fr < boosts.size(); fr++)
        for (size_t di = 0; di < dirs.size(); di++)
          for (int iso = 0; iso < 2; iso++) {
            if (iso && (fr || di)) continue;
            if ((fr + di) % 2 && !mc::thorough()) continue;
            if (!mc::mine(job++) || mc::too_many()) continue;
            Case k;
            const ParticleType &ta = ParticleType::find(PdgCode(pr.a)),
                               &tb = ParticleType::find(PdgCode(pr.b));
            ParticleData x{ta}, y{tb};
            setup(pr, e, fr, di, 0, k, x, y);
            k.name = mc::fmt("elastic %s %s excess %g frame %d axis %d isotropic %d", pr.a, pr.b, e,
                             int(fr), int(di), iso);
            k.elastic = true;
            k.make = [=, &ta, &tb]() {
              auto a = std::make_unique<ScatterAction>(x, y, 0.3, iso == 1);
              a->add_collision(
                  std::make_unique<CollisionBranch>(ta, tb, 10., ProcessType::Elastic));
              return a;
            };
            const double s = k.total.abs();
            const bool nn = ta.is_nucleon() && tb.is_nucleon();
            const double q = pcm(s, k.m1, k.m2);
            const double p = plab(nn ? s * s : 4 * (q * q + kMN * kMN));
            const bool np = nn && ta.antiparticle_sign() == tb.antiparticle_sign() &&
                            ta.charge() != tb.charge();
            Shape sh;
            if (!iso) {
              sh.kind = Shape::Exp;
              sh.b = np ? bnp(p) : bpp(p);
              const double a = np && p >= 0.8 ? 0.64 / (p * p) : 1.;
              sh.backward = a / (1 + a);
            }
            k.shape = [=](const Out &) { return sh; };
            check(k);
          }
  for (auto &pi : inel)
    for (double e : {0.02, 0.2, 0.5, 1.1, 2.7, 9.})
      for (size_t fr = 0; fr < boosts.size(); fr++)
        for (size_t di = 0; di < dirs.size(); di++)
          for (int iso = 0; iso < 2; iso++) {
            if (iso && (fr || di)) continue;
            if ((fr + di) % 2 && !mc::thorough()) continue;
            if (!mc::mine(job++) || mc::too_many()) continue;
            const ParticleTypePtr tc = ParticleType::try_find(PdgCode(pi.second.c)),
                               td = ParticleType::try_find(PdgCode(pi.second.d));
            if (!tc || !td) continue;
            Case k;
            ParticleData x{ParticleType::find(PdgCode(pi.first.a))},
                y{ParticleType::find(PdgCode(pi.first.b))};
            const double floor = tc->min_mass_spectral() + td->min_mass_spectral();
            setup(pi.first, e, fr, di, floor, k, x, y);
            k.name = mc::fmt("%s %s -> %s %s excess %g frame %d axis %d isotropic %d", pi.first.a,
                             pi.first.b, pi.second.c, pi.second.d, e, int(fr), int(di), iso);
            k.make = [=]() {
              auto a = std::make_unique<ScatterAction>(x, y, 0.3, iso == 1);
              a->add_collision(
                  std::make_unique<CollisionBranch>(*tc, *td, 10., ProcessType::TwoToTwo));
              return a;
            };
            const bool nn = x.type().is_nucleon() && y.type().is_nucleon();
            const double s = k.total.abs();
            const ParticleType &c = *tc, &d = *td;
            k.shape = [=, &c, &d](const Out &o) {
              Shape sh;
              if (iso || !nn || !d.is_nucleon()) return sh;
              if (c.pdgcode().is_Delta() && c.antiparticle_sign() == d.antiparticle_sign()) {
                sh.kind = Shape::Exp, sh.b = bpp(plab(s * s)), sh.backward = 0.5;
              } else if (c.is_Nstar() || c.is_Deltastar()) {
                const double m = o.m3;
                sh.kind = Shape::Pow, sh.backward = 0.5;
                sh.b = 1.46434 + 5.80311 * m - 6.89358 * m * m + 1.94302 * m * m * m;
              }
              return sh;
            };
            check(k);
          }
}

// ---- decays: isotropic in the rest frame -------------------------------------------
void decays() {
  struct D {
    const char *a, *b, *c;
    double m;
    int L;
  };
  for (const D &d : std::vector<D>{{"2224", "2212", "211", 1.25, 1},
                                   {"113", "211", "-211", 0.77, 1},
                                   {"12212", "2214", "111", 1.5, 1},
                                   {"12212", "2212", "9000221", 1.6, 0},
                                   {"2124", "2212", "113", 1.8, 0},
                                   {"313", "321", "-211", 0.9, 1}})
    for (int fr = 0; fr < 3; fr++) {
      if (!mc::mine(job++) || mc::too_many()) continue;
      const ParticleType &a = ParticleType::find(PdgCode(d.a)), &b = ParticleType::find(PdgCode(d.b)),
                         &c = ParticleType::find(PdgCode(d.c));
      const ThreeVector p = fr == 0 ? ThreeVector() : fr == 1 ? ThreeVector(0, 0, 1.3)
                                                              : ThreeVector(-0.4, 0.9, 0.2);
      Case k;
      k.name = mc::fmt("decay %s -> %s %s mass %g frame %d", d.a, d.b, d.c, d.m, fr);
      const ParticleData x = part(a, d.m, p, 0, 0.);
      k.total = x.momentum();
      k.axis = ThreeVector(0, 0, 1);
      std::shared_ptr<DecayType> t;
      if (b.is_stable() && c.is_stable())
        t = std::make_shared<TwoBodyDecayStable>(ParticleTypePtrList{&b, &c}, d.L);
      else
        t = std::make_shared<TwoBodyDecaySemistable>(ParticleTypePtrList{&b, &c}, d.L);
      k.make = [=]() {
        auto act = std::make_unique<DecayAction>(x, 0.3);
        act->add_decay(std::make_unique<DecayBranch>(*t, 0.1));
        return act;
      };
      k.shape = [](const Out &) { return Shape(); };
      check(k);
    }
}

// ---- masses ---------------------------------------------------------------------------
double blatt(double p, int L) {
  const double x = p * 1. / hbarc, y = x * x;  // R = 1 fm
  switch (L) {
    case 0: return 1;
    case 1: return y / (1 + y);
    case 2: return y * y / (9 + 3 * y + y * y);
    case 3: return y * y * y / (225 + 45 * y + 6 * y * y + y * y * y);
  }
  return 0;
}
void compare(const std::string &key, std::vector<double> v, double lo, double hi,
             const std::function<double(double)> &dens, double tol) {
  // cumulative of the density on a fine mesh
  const int n = 4000;
  std::vector<double> cum(n + 1, 0.), xs(n + 1);
  for (int i = 0; i <= n; i++) xs[i] = lo + (hi - lo) * i / n;
  for (int i = 0; i < n; i++)
    cum[i + 1] = cum[i] + dens(0.5 * (xs[i] + xs[i + 1])) * (xs[i + 1] - xs[i]);
  std::vector<double> f;
  for (double x : v) {
    if (!(x >= lo - 1e-12 && x <= hi + 1e-12)) {
      mc::viol(key, mc::fmt("%.9g is outside of %.9g to %.9g", x, lo, hi));
      return;
    }
    const double y = std::min(std::max((x - lo) / (hi - lo) * n, 0.), n - 1e-9);
    const int i = int(y);
    f.push_back((cum[i] + (y - i) * (cum[i + 1] - cum[i])) / cum[n]);
  }
  mc::eval();
  const double d = f.empty() ? 1 : ks(f);
  if (!(d < tol)) mc::viol(key, mc::fmt("the distribution deviates by %.4f (%d values)", d, int(f.size())));
}
void masses() {
  const size_t fine = mc::thorough() ? 900 : 150, g = fine;
  for (const char *name : {"2214", "12212", "2124", "113", "9000221", "313", "223"})
    for (double ms : {0.138, 0.938})
      for (double e : {0.05, 0.3, 0.8, 2.5})
        for (int L : {0, 1, 2}) {
          if (!mc::mine(job++) || mc::too_many()) continue;
          const ParticleType &t = ParticleType::find(PdgCode(name));
          const double s = t.min_mass_spectral() + ms + e;
          const std::string key = mc::fmt("mass of %s with %g at %g, L = %d", name, ms, s, L);
          mc::cur(key);
          mc::state(key);
          std::vector<double> v;
          bool rare = false;
          for (int pass = 0; pass < 3 && !rare; pass++) {  // the first adapts the maximum
            // the first with few random numbers, to leave out those with many rejections
            const size_t g = pass ? fine : 30;
            rare = pass == 1 && v.size() < 0.04 * 30 * 30;
            if (rare) break;
            v.clear();
            for (size_t i = 0; i < g; i++)
              for (size_t j = 0; j < g; j++) {
                const double u[] = {(i + 0.5) / g, (j + 0.5) / g};
                mc::rng_fast(u, 2);
                mc::transition();
                const double m = t.sample_resonance_mass(ms, s, L);
                if (mc::rng_used_fast() == 2) v.push_back(m);
              }
          }
          mc::trace();
          if (rare || v.size() < g) {
            mc::extra("mass distributions with few accepted", 1);
            continue;
          }
          const double tol = std::max(0.004, 2.5 * double(g) / v.size());
          if (getenv("C46_SHOW")) printf("%s accepted %zu tol %.4f\n", key.c_str(), v.size(), tol);
          compare(key, v, t.min_mass_spectral(), s - ms,
                  [&](double m) {
                    const double p = pcm(s, ms, m);
                    return t.spectral_function(m) * p * blatt(p, L);
                  },
                  tol);
        }
}

// ---- phase space ------------------------------------------------------------------------
void phase_space() {
  const std::vector<std::vector<double>> sets = {
      {0.138, 0.138, 0.138}, {0.938, 0.138, 0.138}, {0.138, 0.938, 0.138}, {0.138, 0.138, 0.938},
      {0.938, 0.938, 0.138}, {0.138, 0.494, 0.938}, {1.876, 0.938, 0.138}};
  const size_t g = mc::thorough() ? 700 : 260;
  for (auto &m : sets)
    for (double e : {0.004, 0.15, 0.6, 2., 8.}) {
      if (!mc::mine(job++) || mc::too_many()) continue;
      const double s = m[0] + m[1] + m[2] + e;
      const std::string key = mc::fmt("phase space of (%g,%g,%g) at %g", m[0], m[1], m[2], s);
      mc::cur(key);
      mc::state(key);
      std::vector<FourVector> p;
      std::vector<double> m12, m01;
      // which random numbers decide about the invariant masses
      for (size_t i = 0; i < g; i++)
        for (size_t j = 0; j < g; j++) {
          const double u[] = {(i + 0.5) / g, (j + 0.5) / g, 0.3, 0.6, 0.2, 0.45};
          mc::rng_fast(u, 6);
          mc::transition();
          Action::sample_manybody_phasespace_impl(s, m, p);
          FourVector sum;
          for (size_t q = 0; q < 3; q++) {
            sum += p[q];
            if (!mc::close_to(p[q].sqr(), m[q] * m[q], 1e-8 * s * s)) {
              mc::viol(key, mc::fmt("particle %d has mass^2 %.9g", int(q), p[q].sqr()));
              return;
            }
          }
          for (int q = 0; q < 4; q++)
            if (!mc::close_to(sum[q], q ? 0 : s, 1e-9 * s)) {
              mc::viol(key, mc::fmt("total momentum component %d is %.12g", q, sum[q]));
              return;
            }
          if (mc::rng_used_fast() == 6) m01.push_back((p[0] + p[1]).abs());
        }
      mc::trace();
      if (m01.size() < g) {
        mc::viol(key, "hardly any is accepted");
        continue;
      }
      compare(key, m01, m[0] + m[1], s - m[2],
              [&](double x) { return pcm(s, x, m[2]) * pcm(x, m[0], m[1]); },
              std::max(0.008, 2.5 * double(g) / m01.size()));
      // directions: of the third, and of the first in the frame of the pair
      const double axes[3][3] = {{0, 0, 1}, {0, 1, 0}, {1, 0, 0}};
      const size_t h = mc::thorough() ? 34 : 16;
      std::vector<double> f[6];
      for (size_t x = 0; x < h * h * h * h; x++) {
        double u[6] = {0.5, 0.001};
        for (size_t i = 0, y = x; i < 4; i++, y /= h) u[2 + i] = (y % h + 0.5) / h;
        mc::rng_fast(u, 6);
        mc::transition();
        Action::sample_manybody_phasespace_impl(s, m, p);
        const FourVector pair = p[0] + p[1], a = p[0].lorentz_boost(pair.velocity());
        for (int i = 0; i < 3; i++) {
          const ThreeVector ax(axes[i][0], axes[i][1], axes[i][2]);
          f[i].push_back(0.5 + 0.5 * (p[2].threevec() * ax) / p[2].threevec().abs());
          f[3 + i].push_back(0.5 + 0.5 * (a.threevec() * ax) / a.threevec().abs());
        }
      }
      // and not correlated
      double cor = 0;
      for (size_t i = 0; i < f[0].size(); i++) cor += (f[0][i] - 0.5) * (f[3][i] - 0.5);
      if (!(std::fabs(cor / f[0].size()) < 0.01))
        mc::viol(key, mc::fmt("the directions are correlated: %g", cor / f[0].size()));
      for (int i = 0; i < 6; i++) {
        mc::eval();
        const double d = ks(f[i]);
        if (!(d < 2.2 / h))
          mc::viol(key, mc::fmt("directions are not isotropic (%d): deviation %.4f", i, d));
      }
    }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  ParticleType::create_type_list(
      "π 0.138 7.7e-9 - 111 211\nη 0.548 1.31e-6 - 221\nσ 0.8 0.4 + 9000221\n"
      "ρ 0.776 0.149 - 113 213\nω 0.783 8.49e-3 - 223\n"
      "K 0.494 0 - 311 321\nK*(892) 0.892 0.05 - 313 323\n"
      "N 0.938 0 + 2112 2212\nN(1440) 1.44 0.35 + 12112 12212\n"
      "N(1520) 1.515 0.11 - 1214 2124\nN(2600) 2.6 0.65 - 9902112 9902212\n"
      "Δ 1.232 0.117 + 1114 2114 2214 2224\nΔ(1620) 1.61 0.13 - 1112 1212 2122 2222\n"
      "Λ 1.116 2.5e-15 + 3122\n");
  DecayModes::load_decaymodes(
      "σ\n1 0 π π\n\nρ\n1 1 π π\n\nω\n0.9 1 π ρ\n0.1 1 π⁺ π⁻\n\n"
      "K*(892)\n1 1 K π\n\nN(1440)\n0.6 1 N π\n0.24 1 Δ π\n0.16 0 N σ\n\n"
      "N(1520)\n0.65 2 N π\n0.25 0 Δ π\n0.1 0 N ρ\n\nN(2600)\n1 0 N π\n\n"
      "Δ\n1 1 N π\n\nΔ(1620)\n1 0 N π\n\n");
  scatterings();
  decays();
  masses();
  phase_space();
  return mc::finish();
}
