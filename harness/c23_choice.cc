// C23: a process is chosen with a probability proportional to its weight: for
// lists of channels the whole range of the random number is mapped out.
// clang-format off
#include "mc_rng.h"
#include "smash_params.h"
#include "smash/crosssections.h"
#include "smash/decayaction.h"
#include "smash/decaytype.h"
#include "smash/isoparticletype.h"
#include "smash/sha256.h"
#include "smash/parametrizations.h"
#include "smash/processbranch.h"
#include "smash/scatteraction.h"
#include "smash/scatteractionsfinderparameters.h"
// clang-format on

using namespace smash;

namespace {
uint64_t job = 0;
ParticleData part(const ParticleType &t, double m, const ThreeVector &p, int id, double x) {
  ParticleData d{t, id};
  d.set_4momentum(m, p);
  d.set_4position(FourVector(0, x, 0, 0));
  d.set_formation_time(0.);
  return d;
}
struct Outcome {
  std::string name;
  double partial = 0, total = 0;
};
/// Length of the set of u for which each outcome results, by bisection.
/// `num` is the index of the draw that is varied.
std::map<std::string, double> measure(const std::function<Outcome(double)> &f, int n,
                                      std::map<std::string, double> *partial) {
  std::map<std::string, double> len;
  std::vector<double> us = {0.};
  for (int i = 1; i < n; i++) us.push_back(double(i) / n);
  us.push_back(1. - 1. / (1ull << 53));
  auto get = [&](double u) {
    const Outcome o = f(u);
    (*partial)[o.name] = o.partial;
    return o.name;
  };
  std::string a = get(us[0]);
  std::function<void(double, const std::string &, double, const std::string &)> rec =
      [&](double lo, const std::string &sa, double hi, const std::string &sb) {
        if (sa == sb) {
          len[sa] += hi - lo;
          return;
        }
        if (hi - lo < 1e-13) {
          len[sa] += 0.5 * (hi - lo), len[sb] += 0.5 * (hi - lo);
          return;
        }
        const double mid = 0.5 * (lo + hi);
        const std::string m = get(mid);
        rec(lo, sa, mid, m);
        rec(mid, m, hi, sb);
      };
  for (size_t i = 0; i + 1 < us.size(); i++) {
    const std::string b = get(us[i + 1]);
    rec(us[i], a, us[i + 1], b);
    a = b;
  }
  len[a] += 1. / (1ull << 53);
  return len;
}
void compare(const std::string &key, const std::vector<std::pair<std::string, double>> &want,
             const std::map<std::string, double> &len) {
  double tot = 0;
  std::map<std::string, double> w;
  for (auto &x : want)
    if (x.second > 0) w[x.first] += x.second, tot += x.second;
  mc::eval();
  for (auto &x : w) {
    const auto it = len.find(x.first);
    const double got = it == len.end() ? 0 : it->second, exp = x.second / tot;
    if (!(std::fabs(got - exp) < 1e-10))
      mc::viol(key, mc::fmt("channel %s is chosen with probability %.12g, expected %.12g",
                            x.first.c_str(), got, exp));
  }
  for (auto &x : len)
    if (!w.count(x.first))
      mc::viol(key, "channel " + x.first + " is chosen although it has no weight");
}

std::string outname(const Action &a) {
  std::string n = std::to_string(int(a.get_type()));
  for (auto &p : a.outgoing_particles()) n += " " + p.pdgcode().string();
  return n;
}

const std::vector<double> kW = {0., 1e-9, 0.3, 1., 7.5, 210.};

void scatterings() {
  const ParticleType &p = ParticleType::find(pdg::p), &n = ParticleType::find(pdg::n);
  const ParticleType &D = ParticleType::find(PdgCode("2224"));
  const ParticleType &N1440 = ParticleType::find(PdgCode("12212"));
  struct Ch {
    ParticleTypePtr a, b;
    ProcessType t;
  };
  const std::vector<Ch> chs = {{&p, &p, ProcessType::Elastic},
                               {&D, &n, ProcessType::TwoToTwo},
                               {&p, &N1440, ProcessType::TwoToTwo},
                               {&p, &p, ProcessType::TwoToTwo}};
  const size_t nw = kW.size();
  for (size_t code = 1; code < nw * nw * nw * nw; code++) {
    if (!mc::mine(job++) || mc::too_many()) continue;
    std::vector<double> w;
    for (size_t i = 0, c = code; i < 4; i++, c /= nw) w.push_back(kW[c % nw]);
    for (int order = 0; order < 2; order++) {
      const double fa = order ? 0.4 : 1., fb = order ? 0.25 : 1.;
      ParticleData x = part(p, p.mass(), ThreeVector(0, 0, 2.2), 0, 0.),
                   y = part(p, p.mass(), ThreeVector(0.1, 0, -2.1), 1, 1.);
      if (order) x.set_formation_time(2.), y.set_formation_time(3.);
      if (order) x.set_cross_section_scaling_factor(fa), y.set_cross_section_scaling_factor(fb);
      std::vector<std::pair<std::string, double>> want;
      double tot = 0;
      for (int i = 0; i < 4; i++) {
        const Ch &c = chs[order ? 3 - i : i];
        want.push_back({mc::fmt("%d ", int(c.t)) + c.a->pdgcode().string() + " " +
                            c.b->pdgcode().string(), w[i]});
        tot += w[i];
      }
      const std::string key = mc::fmt("scatter weights (%g,%g,%g,%g) order %d", w[0], w[1], w[2],
                                      w[3], order);
      mc::cur(key);
      mc::state(key);
      std::map<std::string, double> partial;
      auto f = [&](double u) {
        ScatterAction act(x, y, 0.3);
        CollisionBranchList list;
        for (int i = 0; i < 4; i++) {
          const Ch &c = chs[order ? 3 - i : i];
          auto br = std::make_unique<CollisionBranch>(*c.a, *c.b, w[i], c.t);
          if (i < 2)
            act.add_collision(std::move(br));
          else
            list.push_back(std::move(br));
        }
        act.add_collisions(std::move(list));
        const double us[] = {u};
        mc::rng_fast(us, 1);
        mc::transition();
        act.generate_final_state();
        Outcome o;
        o.name = outname(act), o.partial = act.get_partial_weight(),
        o.total = act.get_total_weight();
        if (!mc::rel_close(o.total, tot * fa * fb, 1e-12))
          mc::viol(key, mc::fmt("the total weight is %g, expected %g", o.total, tot * fa * fb));
        return o;
      };
      const auto len = measure(f, 24, &partial);
      compare(key, want, len);
      std::map<std::string, std::set<double>> allowed;
      for (auto &x : want) allowed[x.first].insert(x.second * fa * fb);
      for (auto &x : partial) {
        bool ok = false;
        for (double a : allowed[x.first]) ok |= mc::rel_close(a, x.second, 1e-12);
        if (!ok)
          mc::viol(key, mc::fmt("partial weight %g of channel %s", x.second, x.first.c_str()));
      }
      mc::trace();
    }
  }
}

void decays() {
  const ParticleType &N = ParticleType::find(PdgCode("12212"));
  const ParticleType &p = ParticleType::find(pdg::p), &n = ParticleType::find(pdg::n);
  const ParticleType &pi0 = ParticleType::find(pdg::pi_z), &pip = ParticleType::find(pdg::pi_p);
  TwoBodyDecayStable d1({&p, &pi0}, 1), d2({&n, &pip}, 1), d3({&n, &pip}, 0);
  ThreeBodyDecay d4({&p, &pi0, &pi0}, 0);
  const DecayType *types[] = {&d1, &d2, &d3, &d4};
  const size_t nw = kW.size();
  for (size_t code = 1; code < nw * nw * nw * nw; code++) {
    if (!mc::mine(job++) || mc::too_many()) continue;
    std::vector<double> w;
    for (size_t i = 0, c = code; i < 4; i++, c /= nw) w.push_back(kW[c % nw]);
    const std::string key = mc::fmt("decay weights (%g,%g,%g,%g)", w[0], w[1], w[2], w[3]);
    mc::cur(key);
    mc::state(key);
    std::vector<std::pair<std::string, double>> want;
    double tot = 0;
    for (int i = 0; i < 4; i++) {
      std::string nm = "5";
      for (auto t : types[i]->particle_types()) nm += " " + t->pdgcode().string();
      want.push_back({nm, w[i]});
      tot += w[i];
    }
    std::map<std::string, double> partial;
    auto f = [&](double u) {
      DecayAction act(part(N, 1.5, ThreeVector(0.3, 0, -0.2), 4, 0.), 1.);
      DecayBranchList list;
      for (int i = 0; i < 4; i++) {
        auto br = std::make_unique<DecayBranch>(*types[i], w[i]);
        if (i < 1)
          act.add_decay(std::move(br));
        else
          list.push_back(std::move(br));
      }
      act.add_decays(std::move(list));
      const double us[] = {u};
      mc::rng_fast(us, 1);
      mc::transition();
      act.generate_final_state();
      Outcome o;
      o.name = outname(act), o.partial = act.get_partial_weight();
      if (!mc::rel_close(act.get_total_weight(), tot, 1e-12))
        mc::viol(key, mc::fmt("the total width is %g, expected %g", act.get_total_weight(), tot));
      return o;
    };
    const auto len = measure(f, 24, &partial);
    compare(key, want, len);
    mc::trace();
  }
}

/// real channel lists, also rescaled to a parametrized total
void real() {
  const char *names[] = {"2212", "2112", "-2212", "211", "-211", "111", "321", "-321", "3122",
                         "2224", "113", "-3122"};
  const char *totals[] = {"BottomUp", "TopDown", "TopDownMeasured"};
  for (auto tt : totals) {
    auto cfg = mc::config(std::string("Collision_Term: {Total_Cross_Section_Strategy: ") + tt +
                          ", Pseudoresonance: \"LargestFromUnstable\"}\n");
    mc::ParamOptions po;
    auto par = mc::params(po);
    const ScatterActionsFinderParameters fp(cfg, par);
    cfg.clear();
    const bool top = std::string(tt) != "BottomUp";
    for (auto na : names)
      for (auto nb : names)
        for (double over = 0.01; over < (mc::thorough() ? 4.5 : 3.); over *= mc::thorough() ? 1.13 : 1.5) {
          if (!mc::mine(job++) || mc::too_many()) continue;
          const ParticleType &ta = ParticleType::find(PdgCode(na)),
                             &tb = ParticleType::find(PdgCode(nb));
          const double s = ta.mass() + tb.mass() + over;
          const double q = std::sqrt((s * s - std::pow(ta.mass() + tb.mass(), 2)) *
                                     (s * s - std::pow(ta.mass() - tb.mass(), 2))) / (2 * s);
          const ParticleData x = part(ta, ta.mass(), ThreeVector(0, 0, q), 0, 0.),
                             y = part(tb, tb.mass(), ThreeVector(0, 0, -q), 1, 0.5);
          const std::string key = mc::fmt("real %s %s + %s %.4g", tt, na, nb, s);
          mc::cur(key);
          const bool has = parametrization_exists(x.pdgcode(), y.pdgcode());
          const bool use = std::string(tt) == "TopDown" || (top && has);
          auto make = [&]() {
            auto act = std::make_unique<ScatterAction>(x, y, 0.2, false, 1., -1., use);
            if (use) act->set_parametrized_total_cross_section(fp);
            act->add_all_scatterings(fp);
            return act;
          };
          auto first = make();
          if (first->collision_channels().empty()) continue;
          mc::state(key);
          std::vector<std::pair<std::string, double>> want;
          double tot = 0;
          for (auto &c : first->collision_channels()) {
            std::string nm = mc::fmt("%d", int(c->get_type()));
            for (auto &o : c->particle_list()) nm += " " + o.pdgcode().string();
            want.push_back({nm, c->weight()});
            tot += c->weight();
          }
          if (!mc::rel_close(tot, first->get_total_weight(), 1e-9, 1e-5))
            mc::viol(key, mc::fmt("channels add up to %.12g, total %.12g", tot,
                                  first->get_total_weight()));
          auto f = [&](double u) {
            auto act = make();
            const double us[] = {u};
            mc::rng_fast(us, 1);
            mc::transition();
            act->generate_final_state();
            Outcome o;
            o.name = outname(*act), o.partial = act->get_partial_weight();
            return o;
          };
          std::map<std::string, double> partial;
          // map out short lists, and the ends of all
          if (want.size() <= 3 || mc::thorough()) {
            if (tot > 1e-5) compare(key, want, measure(f, 8, &partial));
          } else {
            double acc = 0;
            for (size_t i = 0; i < want.size() && tot > 1e-5; i++) {
              const double a = acc / tot, b = (acc + want[i].second) / tot;
              acc += want[i].second;
              if (b - a < 1e-9) continue;
              mc::eval();
              const Outcome o = f(0.5 * (a + b));
              if (o.name != want[i].first || !mc::rel_close(o.partial, want[i].second, 1e-12))
                mc::viol(key, "chosen " + o.name + " in the middle of the interval of " +
                                  want[i].first);
            }
          }
          for (double u : {0., mc::kMaxU, 1. - 1e-16, 1. - 1e-15}) f(u);
          mc::trace();
        }
  }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  ParticleType::create_type_list(
      "π 0.138 7.7e-9 - 111 211\nη 0.548 1.31e-6 - 221\nσ 0.8 0.4 + 9000221\n"
      "ρ 0.776 0.149 - 113 213\nω 0.783 8.49e-3 - 223\n"
      "K 0.494 0 - 311 321\nK*(892) 0.892 0.05 - 313 323\n"
      "N 0.938 0 + 2112 2212\nN(1440) 1.44 0.35 + 12112 12212\n"
      "N(1520) 1.515 0.11 - 1214 2124\nΔ 1.232 0.117 + 1114 2114 2214 2224\n"
      "Λ 1.116 2.5e-15 + 3122\nΣ 1.189 8.9e-6 + 3112 3212 3222\n"
      "Λ(1405) 1.405 0.0505 - 13122\n");
  DecayModes::load_decaymodes(
      "σ\n1 0 π π\n\nρ\n1 1 π π\n\nω\n0.9 1 π ρ\n0.1 1 π⁺ π⁻\n\n"
      "K*(892)\n1 1 K π\n\nN(1440)\n0.6 1 N π\n0.24 1 Δ π\n0.16 0 N σ\n\n"
      "N(1520)\n0.65 2 N π\n0.25 0 Δ π\n0.1 0 N ρ\n\nΔ\n1 1 N π\n\n"
      "Λ(1405)\n1 0 Σ π\n\n");
  {
    sha256::Context ctx;
    ctx.update(std::string("x"));
    mc::cur("tabulating spectral integrals");
    fflush(stdout);  // prints a progress message
    const int keep = dup(1), null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    IsoParticleType::tabulate_integrals(ctx.finalize(), "");
    fflush(stdout);
    dup2(keep, 1);
    close(keep), close(null);
  }
  scatterings();
  decays();
  real();
  return mc::finish();
}
