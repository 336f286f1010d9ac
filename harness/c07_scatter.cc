// C07: every 2->n channel offered for a grid of pairs, energies and collision
// settings is physically possible, the channel weights add up to the total,
// do not depend on the order of the pair, and carrying out any of them with
// enumerated random answers conserves four-momentum and charges.
#include <algorithm>
#include <cmath>

#include "mc_rng.h"
#include "smash/isoparticletype.h"
#include "smash/kinematics.h"
#include "smash/parametrizations.h"
#include "smash/processbranch.h"
#include "smash/scatteraction.h"
#include "smash/scatteractionsfinderparameters.h"
#include "smash/sha256.h"
#include "smash_params.h"

using namespace smash;

namespace {
struct Charges {
  int b = 0, q = 0, s = 0, c = 0, bt = 0;
  void add(PdgCode k) {
    b += k.baryon_number();
    q += k.charge();
    s += k.strangeness();
    c += k.charmness();
    bt += k.bottomness();
  }
  bool operator==(const Charges &o) const {
    return b == o.b && q == o.q && s == o.s && c == o.c && bt == o.bt;
  }
  std::string str() const {
    return mc::fmt("(B=%d,Q=%d,S=%d,C=%d,b=%d)", b, q, s, c, bt);
  }
};

struct Setting {
  std::string name, yaml;
  mc::ParamOptions o;
  int totals;  // 0 bottom-up, 1 parametrized, 2 where measured
};

std::vector<Setting> settings() {
  std::vector<Setting> v;
  const std::string bu =
      "Collision_Term: {Total_Cross_Section_Strategy: \"BottomUp\"}\n";
  mc::ParamOptions o;
  v.push_back({"bottom-up", bu, o, 0});
  o.nnbar = NNbarTreatment::Resonances;
  v.push_back({"resonant NNbar", bu, o, 0});
  o.nnbar = NNbarTreatment::TwoToFive;
  o.crit = CollisionCriterion::Stochastic;
  o.multi.set();
  o.two_to_two.reset(IncludedReactions::PiDeuteron_to_pidprime);
  o.two_to_two.reset(IncludedReactions::NDeuteron_to_Ndprime);
  v.push_back({"stochastic multi", bu, o, 0});
  o = mc::ParamOptions();
  v.push_back({"top-down",
               "Collision_Term: {Total_Cross_Section_Strategy: \"TopDown\", "
               "Pseudoresonance: \"Largest\"}\n",
               o, 1});
  v.push_back({"top-down measured",
               "Collision_Term: {Total_Cross_Section_Strategy: "
               "\"TopDownMeasured\", Pseudoresonance: \"Closest\"}\n",
               o, 2});
  o.scale_xs = 0.5;
  v.push_back({"scaled, additional elastic",
               "Collision_Term: {Total_Cross_Section_Strategy: \"BottomUp\", "
               "Additional_Elastic_Cross_Section: 3.0, Use_AQM: false}\n",
               o, 0});
  return v;
}

std::string chname(const CollisionBranch &br) {
  std::vector<std::string> n;
  for (auto p : br.particle_types())
    n.push_back(p->pdgcode().string());
  std::sort(n.begin(), n.end());
  std::string s = std::to_string(static_cast<int>(br.get_type())) + ":";
  for (auto &x : n)
    s += x + " ";
  return s;
}

using Weights = std::map<std::string, double>;
bool same(const Weights &a, const Weights &b, std::string *what,
          double tol = 1e-7) {
  Weights all = a;
  all.insert(b.begin(), b.end());
  for (auto &e : all) {
    const double x = a.count(e.first) ? a.at(e.first) : 0.;
    const double y = b.count(e.first) ? b.at(e.first) : 0.;
    if (!mc::rel_close(x, y, tol, 1e-9)) {
      *what = mc::fmt("channel %s has weight %.12g and %.12g", e.first.c_str(),
                      x, y);
      return false;
    }
  }
  return true;
}

ParticleData make(const ParticleType &t, double m, ThreeVector p, int id,
                  double time) {
  ParticleData d(t, id);
  d.set_4momentum(m, p);
  d.set_4position(FourVector(time, 0.3 * id, -0.2 * id, 0.7));
  d.set_formation_time(time - 1.);
  d.set_cross_section_scaling_factor(1.);
  d.set_history(1, 3, ProcessType::Elastic, time - 1., {});
  return d;
}

/// two particles with given invariant mass of the pair
std::pair<ParticleData, ParticleData> pair_at(const ParticleType &a, double ma,
                                              const ParticleType &b, double mb,
                                              double srts, ThreeVector dir,
                                              ThreeVector boost) {
  const double p = pCM(srts, ma, mb);
  const ThreeVector n = dir * (p / dir.abs());
  ParticleData x = make(a, ma, n, 0, 5.), y = make(b, mb, -n, 1, 5.);
  x.boost_momentum(boost);
  y.boost_momentum(boost);
  return {x, y};
}

std::unique_ptr<ScatterAction> offer(const ParticleData &x,
                                     const ParticleData &y, const Setting &s,
                                     const ScatterActionsFinderParameters &fp,
                                     bool *param) {
  const bool par =
      s.totals == 1 ||
      (s.totals == 2 && parametrization_exists(x.pdgcode(), y.pdgcode()));
  auto act = std::make_unique<ScatterAction>(
      x, y, 0.25, false, 1.0, -1.0, par, SpinInteractionType::Off);
  if (par)
    act->set_parametrized_total_cross_section(fp);
  act->add_all_scatterings(fp);
  *param = par;
  return act;
}

Weights weights(ScatterAction &act) {
  Weights w;
  for (auto &c : act.collision_channels())
    w[chname(*c)] += c->weight();
  return w;
}

/// carry out one channel
void perform(const std::string &where, const ParticleData &x,
             const ParticleData &y, const CollisionBranch &br,
             const std::vector<double> &script, int salt, bool isotropic) {
  const std::string name =
      where + " -> " + chname(br) +
      mc::fmt("u=(%g,%g,%g) salt=%d iso=%d p=%s %s", script[0], script[1],
              script[2], salt, isotropic, mc::str(x.momentum()).c_str(),
              mc::str(y.momentum()).c_str());
  mc::cur(name);
  Particles parts;
  const ParticleData a = parts.insert(x), b = parts.insert(y);
  ParticleData by = make(x.type(), x.effective_mass(), ThreeVector(0, 0, 0.1),
                         2, 5.);
  by = parts.insert(by);
  ScatterAction act(a, b, 0.25, isotropic, 1.0, -1.0, false,
                    SpinInteractionType::Off);
  act.add_collision(std::make_unique<CollisionBranch>(
      br.particle_types(), 1., br.get_type()));
  mc::rng_script_u(script, mc::filler(salt));
  std::vector<ParticleData> moved;
  for (auto &p : parts) {
    if (p.id() == by.id())
      continue;
    p.set_4position(p.position() + FourVector(0.25, p.velocity() * 0.25));
    moved.push_back(p);
  }
  act.update_incoming(parts);
  try {
    act.generate_final_state();
    if (!act.is_valid(parts)) {
      mc::viol(name, "the scattering is not valid for its own particles");
      return;
    }
    act.perform(&parts, 99);
  } catch (const std::exception &e) {
    mc::viol(name, std::string("the scattering failed: ") + e.what());
    return;
  }
  mc::transition();
  FourVector pin, pout;
  Charges cin, cout;
  ThreeVector mid;
  for (auto &p : moved) {
    pin += p.momentum();
    cin.add(p.pdgcode());
    mid += p.position().threevec() * 0.5;
  }
  ParticleList out;
  bool found = false;
  for (auto &p : parts) {
    if (p.id() == by.id()) {
      found = p.momentum() == by.momentum() && p.position() == by.position();
      continue;
    }
    pout += p.momentum();
    cout.add(p.pdgcode());
    out.push_back(p);
  }
  const bool elastic = br.get_type() == ProcessType::Elastic;
  if (!found || out.size() != (elastic ? 2 : br.particle_types().size())) {
    mc::viol(name, mc::fmt("the list contains %zu products or another particle "
                           "was touched", out.size()));
    return;
  }
  const double e = std::max(1., pin.x0());
  const FourVector d = pin - pout;
  for (int k = 0; k < 4; k++)
    if (!(std::fabs(d[k]) < 1e-6 * e)) {
      mc::viol(name, "four-momentum changes by " + mc::str(d));
      return;
    }
  if (!(cin == cout)) {
    mc::viol(name, "charges change from " + cin.str() + " to " + cout.str());
    return;
  }
  std::multiset<std::string> want, got;
  if (elastic)
    for (auto &p : moved)
      want.insert(p.pdgcode().string());
  else
    for (auto p : br.particle_types())
      want.insert(p->pdgcode().string());
  size_t i = 0;
  for (auto &p : out) {
    got.insert(p.pdgcode().string());
    const double mass = p.effective_mass();
    const double off = p.momentum().sqr() - mass * mass;
    if (!(std::fabs(off) < 1e-6 * e * e)) {
      mc::viol(name, mc::fmt("product %s is off shell by %g",
                             p.pdgcode().string().c_str(), off));
      return;
    }
    if (!elastic && br.particle_types().size() > 1 &&
        !(p.type().is_stable()
              ? std::fabs(mass - p.type().mass()) < 1e-6 * e
              : mass > p.type().min_mass_kinematic() - 1e-6)) {
      mc::viol(name, mc::fmt("product %s has mass %g",
                             p.pdgcode().string().c_str(), mass));
      return;
    }
    const auto h = p.get_history();
    if (h.id_process != 99 || h.process_type != br.get_type() ||
        h.collisions_per_particle < 1 || h.time_last_collision != 5.25) {
      mc::viol(name, "the history of product " + p.pdgcode().string() +
                         " does not show the scattering");
      return;
    }
    if (elastic) {
      const ParticleData &in = moved[i];
      if (p.id() != in.id() || p.pdgcode() != in.pdgcode() ||
          p.position() != in.position() ||
          p.formation_time() != in.formation_time() ||
          std::fabs(p.effective_mass() - in.effective_mass()) > 1e-6 * e) {
        mc::viol(name, "elastic scattering changes more than the momenta");
        return;
      }
    } else {
      if ((p.position().threevec() - mid).abs() > 1e-9 ||
          std::fabs(p.position().x0() - 5.25) > 1e-12) {
        mc::viol(name, "product created at " + mc::str(p.position()) +
                           " instead of " + mc::str(mid));
        return;
      }
      if (p.id() == moved[0].id() || p.id() == moved[1].id() ||
          std::fabs(p.formation_time() - 5.25) > 1e-12 ||
          p.xsec_scaling_factor() != 1.) {
        mc::viol(name, "product has an old id or is not formed");
        return;
      }
    }
    i++;
  }
  if (want != got) {
    mc::viol(name, "products are not those of the channel");
    return;
  }
  mc::trace();
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  std::string pt = mc::slurp(mc::repo() + "/input/particles.txt");
  std::string dt = mc::slurp(mc::repo() + "/input/decaymodes.txt");
  for (const char *l : {"#d ", "#t ", "#He3 ", "#H3L ", "#d' "}) {
    const size_t k = pt.find(std::string("\n") + l);
    if (k != std::string::npos)
      pt[k + 1] = ' ';
  }
  const bool dprime = pt.find("#d'") == std::string::npos;
  if (dprime)
    dt += "\nd'\n1. 1 N N\n";
  ParticleType::create_type_list(pt);
  DecayModes::load_decaymodes(dt);
  ParticleType::check_consistency();
  {
    sha256::Context ctx;
    ctx.update(std::string("x"));
    mc::cur("tabulating spectral integrals");
    // prints a progress message
    fflush(stdout);
    const int keep = dup(1), null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    IsoParticleType::tabulate_integrals(ctx.finalize(), "");
    fflush(stdout);
    dup2(keep, 1);
    close(keep), close(null);
  }
  std::vector<std::string> names = {
      "2212",  "2112",  "-2212",      "-2112", "211",  "111",   "-211",
      "321",   "311",   "-321",       "-311",  "3122", "3112",  "3212",
      "3222",  "-3122", "2224",       "2214",  "1114", "-2224", "12212",
      "-12112", "113",  "213",        "223",   "221",  "333",   "331",
      "313",   "-323",  "1000010020", "3312",  "3322", "3334",  "411",
      "-421",  "443",   "22212",      "9000221", "3114", "-3222",
      "1000010030", "1000020030"};
  if (dprime)
    names.push_back("1000010021");
  std::vector<ParticleTypePtr> types;
  for (auto &n : names) {
    auto p = ParticleType::try_find(PdgCode(n));
    if (p)
      types.push_back(p);
    else if (mc::G().shard == 0)
      mc::note("not in the table: " + n);
  }
  if (mc::thorough()) {
    for (auto &t : ParticleType::list_all())
      if (t.is_hadron() || t.pdgcode().is_nucleus())
        if (std::find(types.begin(), types.end(), &t) == types.end())
          types.push_back(&t);
  }
  const size_t nsel = names.size();
  std::vector<std::vector<double>> scripts = {
      {0., 0., 0.}, {2., 2., 2.}, {0., 2., 0.5}, {2., 0., 0.5}, {0.3, 0.6, 0.9}};
  const auto sets = settings();
  std::vector<std::unique_ptr<ScatterActionsFinderParameters>> fps;
  for (auto &s : sets) {
    auto cfg = mc::config(s.yaml);
    auto par = mc::params(s.o);
    fps.push_back(std::make_unique<ScatterActionsFinderParameters>(cfg, par));
    cfg.clear();
  }
  uint64_t job = 0;
  for (size_t ia = 0; ia < types.size(); ia++)
    for (size_t ib = ia; ib < types.size(); ib++) {
      if (!mc::mine(job++))
        continue;
      if (ia >= nsel && ib > ia && (ia + ib) % 5)
        continue;  // rare-rare pairs: every fifth
      const ParticleType &ta = *types[ia], &tb = *types[ib];
      const double ma = ta.mass(), mb = tb.mass();
      std::vector<double> over = {0.001, 0.05, 0.2, 0.5, 1., 2., 5.};
      if (!mc::thorough() && ia > 30)
        over = {0.05, 0.5, 2.};
      for (double ov : over) {
        const double srts = ma + mb + ov;
        for (size_t is = 0; is < sets.size(); is++) {
          const Setting &st = sets[is];
          const std::string where =
              ta.pdgcode().string() + " + " + tb.pdgcode().string() +
              mc::fmt(" at %.6g GeV, ", srts) + st.name;
          mc::cur(where);
          mc::state(where);
          auto pr = pair_at(ta, ma, tb, mb, srts, ThreeVector(0, 0, 1),
                            ThreeVector(0, 0, 0));
          std::unique_ptr<ScatterAction> act, swp, con, bst;
          bool par = false, par2 = false;
          try {
            act = offer(pr.first, pr.second, st, *fps[is], &par);
            swp = offer(pr.second, pr.first, st, *fps[is], &par2);
          } catch (const std::exception &e) {
            mc::viol(where, std::string("the channels cannot be listed: ") +
                                e.what());
            continue;
          }
          const Weights w = weights(*act);
          std::string what;
          if (!same(w, weights(*swp), &what))
            mc::viol(where + " order",
                     "swapping the two particles matters: " + what);
          // a boosted and rotated pair of the same invariant mass
          {
            auto pb = pair_at(ta, ma, tb, mb, srts, ThreeVector(0.4, -1, 0.2),
                              ThreeVector(0.2, 0.3, -0.6));
            bst = offer(pb.first, pb.second, st, *fps[is], &par2);
            Weights wb = weights(*bst);
            // threshold jumps within rounding are not judged
            bool ok = true;
            for (auto &e : w)
              ok &= mc::rel_close(e.second, wb[e.first], 1e-4, 1e-5);
            if (!ok && std::fabs(ov - 0.001) > 1e-9)
              mc::viol(where + " frame", "the weights depend on the frame");
          }
          // the shipped table lists only one of the two charge-conjugate
          // channels of neutral mesons into a strange pair
          const bool hidden =
              ta.is_meson() && tb.is_meson() && ta.strangeness() != 0 &&
              ta.strangeness() + tb.strangeness() == 0;
          if (!hidden && (ta.has_antiparticle() || tb.has_antiparticle())) {
            const ParticleType &ca =
                ta.has_antiparticle() ? *ta.get_antiparticle() : ta;
            const ParticleType &cb =
                tb.has_antiparticle() ? *tb.get_antiparticle() : tb;
            auto pc = pair_at(ca, ma, cb, mb, srts, ThreeVector(0, 0, 1),
                              ThreeVector(0, 0, 0));
            con = offer(pc.first, pc.second, st, *fps[is], &par2);
            Weights wc;
            for (auto &c : con->collision_channels()) {
              std::vector<std::string> n;
              for (auto p : c->particle_types())
                n.push_back((p->has_antiparticle() ? p->get_antiparticle() : p)
                                ->pdgcode()
                                .string());
              std::sort(n.begin(), n.end());
              std::string s =
                  std::to_string(static_cast<int>(c->get_type())) + ":";
              for (auto &x : n)
                s += x + " ";
              wc[s] += c->weight();
            }
            if (!same(w, wc, &what, 1e-4))
              mc::viol(where + " conjugate",
                       "the charge-conjugate pair differs: " + what);
          }
          // the channels
          double sum = 0;
          Charges in;
          in.add(ta.pdgcode());
          in.add(tb.pdgcode());
          for (auto &c : act->collision_channels()) {
            const double wt = c->weight();
            sum += wt;
            if (!(wt >= 0.) || !std::isfinite(wt))
              mc::viol(where + " -> " + chname(*c),
                       mc::fmt("offered with cross section %g mb", wt));
            Charges out;
            double thr = 0;
            for (auto p : c->particle_types()) {
              out.add(p->pdgcode());
              thr += p->min_mass_kinematic();
            }
            if (!(in == out))
              mc::viol(where + " -> " + chname(*c),
                       "charges change from " + in.str() + " to " + out.str());
            if (wt > 0 && thr > srts + 1e-9 &&
                c->get_type() != ProcessType::Elastic)
              mc::viol(where + " -> " + chname(*c),
                       mc::fmt("offered with %g mb below its threshold %g", wt,
                               thr));
          }
          if (!mc::rel_close(sum, act->cross_section(), 1e-9, 1e-9))
            mc::viol(where + " sum",
                     mc::fmt("the channels add up to %.15g, the total is %.15g",
                             sum, act->cross_section()));
          if (!mc::rel_close(sum, act->get_total_weight(), 1e-9, 1e-9))
            mc::viol(where + " reported total",
                     mc::fmt("the channels add up to %.15g, the reported total "
                             "is %.15g", sum, act->get_total_weight()));
          // execution
          size_t n = 0;
          for (auto &c : act->collision_channels()) {
            if (!(c->weight() > 1e-6))
              continue;
            // the same channel at the same energy need not be repeated in
            // every setting
            if (!mc::state(ta.pdgcode().string() + tb.pdgcode().string() +
                           mc::fmt("%.6g", srts) + chname(*c)))
              continue;
            n++;
            mc::extra("channels executed");
            for (int b = 0; b < 2; b++) {
              auto pb = pair_at(ta, ma, tb, mb, srts,
                                b ? ThreeVector(0.4, -1, 0.2)
                                  : ThreeVector(0, 0, 1),
                                b ? ThreeVector(0.2, 0.3, -0.6)
                                  : ThreeVector(0, 0, 0));
              for (size_t i = 0; i < scripts.size(); i++)
                perform(where, pb.first, pb.second, *c, scripts[i],
                        static_cast<int>(i + 1 + 10 * b), (i % 2) == 1);
            }
            if (mc::too_many())
              return mc::finish();
          }
          if (ov == 0.5)
            mc::sample(where + mc::fmt(": %zu channels, %zu executed, %g mb",
                                       act->collision_channels().size(), n,
                                       sum));
        }
      }
    }
  return mc::finish();
}
