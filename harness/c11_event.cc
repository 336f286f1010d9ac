// C11: whole events: what the output tells is one consistent history, conserved
// quantities are conserved at every time, seeds determine the course, and the
// division into steps does not matter for scatterings.
// clang-format off
#include "smash_common.h"
#include "smash/input_keys.h"
#include "smash/experiment.h"
#include "smash/boxmodus.h"
#include "smash/collidermodus.h"
#include "smash/listmodus.h"
#include "smash/spheremodus.h"
#include "approach.h"
#include "mc_rng.h"
// clang-format on
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
#include <filesystem>
#include <random>

using namespace smash;
namespace fs = std::filesystem;

namespace {
// ---- independent reader of the binary output --------------------------------
struct Rec {
  double v[9];  // t x y z m p0 px py pz
  int32_t pdg, id, charge, ncoll;
  double form, xsec;
  int32_t pid, ptype;
  double tlast;
  int32_t m1, m2, B, S;
  FourVector p() const { return {v[5], v[6], v[7], v[8]}; }
};
struct Block {
  char kind;
  int event = 0, ens = 0;
  uint32_t nin = 0, nout = 0, type = 0;
  double w = 0, pw = 0, b = 0;
  bool empty = false;
  std::vector<Rec> parts;
};
struct Reader {
  std::string s;
  size_t i = 0;
  bool bad = false;
  template <class T>
  T get() {
    T x{};
    if (i + sizeof x > s.size()) {
      bad = true;
      return x;
    }
    memcpy(&x, &s[i], sizeof x);
    i += sizeof x;
    return x;
  }
  Rec rec() {
    Rec r;
    for (double &d : r.v) d = get<double>();
    r.pdg = get<int32_t>(), r.id = get<int32_t>(), r.charge = get<int32_t>();
    r.ncoll = get<int32_t>(), r.form = get<double>(), r.xsec = get<double>();
    r.pid = get<int32_t>(), r.ptype = get<int32_t>(), r.tlast = get<double>();
    r.m1 = get<int32_t>(), r.m2 = get<int32_t>(), r.B = get<int32_t>();
    r.S = get<int32_t>();
    return r;
  }
};
bool parse(const std::string &file, std::vector<Block> &out) {
  Reader r;
  r.s = mc::slurp(file);
  r.i = 8;
  const uint32_t len = r.get<uint32_t>();
  r.i += len;
  while (r.i < r.s.size() && !r.bad) {
    Block b;
    b.kind = r.get<char>();
    uint32_t n = 0;
    if (b.kind == 'p') {
      b.event = r.get<int32_t>(), b.ens = r.get<int32_t>();
      n = r.get<uint32_t>();
    } else if (b.kind == 'i') {
      b.nin = r.get<uint32_t>(), b.nout = r.get<uint32_t>();
      r.get<double>(), b.w = r.get<double>(), b.pw = r.get<double>();
      b.type = r.get<uint32_t>();
      n = b.nin + b.nout;
    } else if (b.kind == 'f') {
      b.event = r.get<int32_t>(), b.ens = r.get<int32_t>();
      b.b = r.get<double>(), b.empty = r.get<char>();
    } else {
      return false;
    }
    for (uint32_t k = 0; k < n && !r.bad; k++) b.parts.push_back(r.rec());
    out.push_back(b);
  }
  return !r.bad;
}

// ---- configurations ---------------------------------------------------------
struct Opt {
  std::string modus = "List", scene, steps = "Fixed", crit = "Covariant";
  double dt = 0.5, t_end = 6., out = 1.5;
  int ens = 1, test = 1;
  bool predict = false;  // elastic scatterings follow the model
  bool grid = true, elastic = false, forced = true, multi = false;
  bool decay_initial = true, to_one = true;
  double length = -1;
  std::string coll, modi, general;
  int64_t seed = 1;
  int nevents = 1;
  std::string str() const {
    return mc::fmt("%s %s steps %s dt %g end %g out %g %s ens %d test %d grid %d "
                   "elastic %d forced %d multi %d decini %d 2to1 %d L %g %s %s",
                   modus.c_str(), scene.c_str(), steps.c_str(), dt, t_end, out,
                   crit.c_str(), ens, test, grid, elastic, forced, multi,
                   decay_initial, to_one, length, coll.c_str(), modi.c_str());
  }
};
std::string dir() { return mc::G().scratch; }
const char *yn(bool b) { return b ? "True" : "False"; }
std::string yaml(const Opt &o) {
  std::string y = "General:\n  Modus: " + o.modus +
                  mc::fmt("\n  End_Time: %.17g\n  Randomseed: %lld\n  Nevents: %d\n"
                          "  Time_Step_Mode: %s\n  Ensembles: %d\n"
                          "  Testparticles: %d\n  Use_Grid: %s\n",
                          o.t_end, static_cast<long long>(o.seed), o.nevents,
                          o.steps == "None" ? "\"None\"" : o.steps.c_str(),
                          o.ens, o.test, yn(o.grid));
  if (o.steps == "Fixed") y += mc::fmt("  Delta_Time: %.17g\n", o.dt);
  y += o.general;
  y += "Collision_Term:\n  Strings: False\n  Collision_Criterion: " + o.crit +
       "\n  Force_Decays_At_End: " + yn(o.forced) +
       "\n  Decay_Initial_Particles: " + yn(o.decay_initial) +
       "\n  Two_to_One: " + yn(o.to_one) +
       "\n  NNbar_Treatment: \"" + (o.multi ? "two to five" : o.elastic ? "no annihilation" : "resonances") + "\"\n"
       "  Total_Cross_Section_Strategy: BottomUp\n";
  if (o.elastic)
    y += "  Included_2to2: [Elastic]\n  Elastic_Cross_Section: 40.0\n"
         "  Elastic_NN_Cutoff_Sqrts: 0.1\n";
  if (o.multi)
    y += "  Multi_Particle_Reactions: [All]\n  Included_2to2: [Elastic, NN_to_NR, "
         "NN_to_DR, KN_to_KN, KN_to_KDelta, Strangeness_exchange, NNbar, "
         "PiDeuteron_to_NN]\n";
  if (o.crit == "Stochastic") y += "  Only_Warn_For_High_Probability: True\n";
  y += o.coll;
  y += mc::fmt("Output:\n  Output_Interval: %.17g\n", o.out) +
       "  Collisions:\n    Format: [\"Oscar2013_bin\"]\n    Extended: True\n"
       "    Print_Start_End: True\n"
       "  Particles:\n    Format: [\"Oscar2013_bin\"]\n    Extended: True\n"
       "    Only_Final: \"No\"\n";
  y += "Modi:\n";
  if (o.modus == "List" || o.modus == "ListBox") {
    y += "  " + o.modus + ":\n    File_Directory: " + dir() +
         "\n    Filename: list.dat\n";
    if (o.modus == "ListBox") y += mc::fmt("    Length: %g\n", o.length);
  } else {
    y += o.modi;
  }
  return y;
}

// ---- scenes of the list modi ------------------------------------------------
struct P {
  const char *pdg;
  double t, x, y, z, px, py, pz, m;
};
using Scene = std::vector<P>;
std::map<std::string, Scene> scenes() {
  std::map<std::string, Scene> s;
  s["headon"] = {{"2212", 0, 0, 0, -1, 0, 0, 1.2, -1},
                 {"2112", 0, 0.2, 0, 1, 0, 0, -1.2, -1}};
  s["cradle"] = {{"2212", 0, 0, 0, -1.5, 0, 0, 0.8, -1},
                 {"2112", 0, 0.1, 0, 0, 0, 0, 0, -1},
                 {"2212", 0, 0, 0.1, 1.2, 0, 0, 0, -1},
                 {"2112", 0, -0.1, 0, 2.4, 0, 0, 0, -1}};
  s["delta"] = {{"211", 0, 0, 0, -1.2, 0, 0, 0.3, -1},
                {"2212", 0, 0, 0.1, 0, 0, 0, 0, -1},
                {"2112", 0, 0, -0.3, 1.5, 0, 0, -0.2, -1}};
  s["decays"] = {{"113", 0, 0, 0, 0, 0.1, 0, 0, 0.776},
                 {"2224", 0, 1, 0, 0, 0, 0.2, 0, 1.232},
                 {"12112", 0, 0, 1, 0, 0, 0, -0.3, 1.5},
                 {"2112", 0, 1, 1, 0, 0, 0, 0, -1}};
  s["pairs"] = {{"2212", 0, -5, 0, -1, 0, 0, 1, -1},
                {"2212", 0, -5, 0, 1, 0, 0, -1, -1},
                {"2212", 0, 5, 0, -1, 0, 0, 1, -1},
                {"2212", 0, 5, 0, 1, 0, 0, -1, -1}};
  s["times"] = {{"2212", 0, 0, 0, -1, 0, 0, 1.2, -1},
                {"2112", 1.25, 0.2, 0, 1, 0, 0, -1.2, -1},
                {"-211", 0.7, 0, 0.1, 0.5, 0, 0.1, -0.4, -1}};
  s["early"] = {{"2212", -2.3, 0, 0, -1, 0, 0, 1.2, -1},
                {"-211", -2.3, 0, 0.1, 0.5, 0, 0.1, -0.4, -1}};
  s["annihilation"] = {{"2212", 0, 0, 0, -0.5, 0, 0, 0.3, -1},
                       {"-2212", 0, 0, 0.1, 0.5, 0, 0, -0.3, -1}};
  s["strange"] = {{"-321", 0, 0, 0, -1, 0, 0, 0.5, -1},
                  {"2212", 0, 0, 0.1, 0.5, 0, 0, -0.3, -1},
                  {"3122", 0, 0.3, 0, 1.5, 0, 0, -0.3, -1},
                  {"111", 0, 0.3, 0.2, 2.0, 0, 0, -0.5, -1}};
  s["light"] = {{"1000010020", 0, 0, 0, -1, 0, 0, 0.5, -1},
                {"211", 0, 0, 0.1, 0.5, 0, 0, -0.3, -1},
                {"2212", 0, 0.2, 0.1, 0.9, 0, 0, -0.5, -1}};
  s["one"] = {{"2224", 0, 0, 0, 0, 0.3, 0, 0, 1.232}};
  s["mesons"] = {{"211", 0, 0, 0, -.5, 0, 0, 0.3, -1},
                 {"-211", 0, 0, 0.1, 0.5, 0, 0, -0.3, -1},
                 {"111", 0, 0.1, 0.1, 0.0, 0, 0.2, 0, -1}};
  Scene c;
  for (int i = 0; i < 8; i++)
    c.push_back({i % 2 ? "2212" : "2112", 0, (i & 1) * 1.5, (i >> 1 & 1) * 1.5,
                 (i >> 2) * 1.5, 0.5 - 0.9 * (i & 1), 0.4 - 0.7 * (i >> 1 & 1),
                 0.6 - 1.1 * (i >> 2) + 0.03 * i, -1});
  s["cluster"] = c;
  return s;
}
void write_scene(const Scene &s, int copies) {
  std::ofstream f(dir() + "/list.dat");
  f << "#!OSCAR2013 particle_lists t x y z mass p0 px py pz pdg ID charge\n"
       "# units\n# SMASH\n";
  for (int e = 0; e < copies; e++) {
    f << "# event " << e << " out " << s.size() << "\n";
    int id = 0;
    for (auto &p : s) {
      const ParticleType &t = ParticleType::find(PdgCode(p.pdg));
      const double m = p.m < 0 ? t.mass() : p.m;
      f << mc::fmt("%.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %s %d "
                   "%d\n", p.t, p.x, p.y, p.z, m,
                   std::sqrt(m * m + p.px * p.px + p.py * p.py + p.pz * p.pz),
                   p.px, p.py, p.pz, p.pdg, id++, t.charge());
    }
    f << "# event " << e << " end 0\n";
  }
}

// ---- the driver ---------------------------------------------------------------
struct Result {
  std::string error;          // exception
  std::string coll, part;     // output files
  std::vector<std::string> wrong;  // found while running
};
/// particles added and removed from outside when part `part` starts
struct Op {
  int part;
  Scene add;
  std::vector<int> remove;  // positions in the list of particles
};
using Ops = std::vector<Op>;

template <class Modus>
Result drive(const Opt &o, const std::vector<double> *script, int parts,
             bool whole, const Ops &ops) {
  Result res;
  for (const char *f : {"collisions_oscar2013_extended.bin",
                        "particles_oscar2013_extended.bin"}) {
    fs::remove(dir() + "/" + f);
    fs::remove(dir() + "/" + f + ".unfinished");
  }
  Configuration c = mc::config(yaml(o));
  try {
    Experiment<Modus> e(c, dir());
    c.clear();
    if (whole) {
      e.run();
    } else {
      e.initialize_new_event();
      std::vector<QuantumNumbers> q0;
      for (auto &p : *e.all_ensembles()) q0.push_back(QuantumNumbers(p));
      if (script) mc::rng_script_u(*script, mc::filler(3));
      double t0 = 0;
      for (auto &ps : *e.all_ensembles())
        if (ps.size()) t0 = ps.front().position().x0();
      for (int k = 1; k <= parts; k++) {
        const double t = k == parts ? o.t_end : t0 + (o.t_end - t0) * k / parts;
        ParticleList add, remove;
        for (auto &op : ops) {
          if (op.part != k) continue;
          for (auto &x : op.add) {
            ParticleData d{ParticleType::find(PdgCode(x.pdg))};
            d.set_4position({x.t, x.x, x.y, x.z});
            d.set_4momentum(x.m < 0 ? d.pole_mass() : x.m,
                            ThreeVector(x.px, x.py, x.pz));
            add.push_back(d);
          }
          const ParticleList now = e.first_ensemble()->copy_to_vector();
          for (int i : op.remove)
            if (i < int(now.size())) remove.push_back(now[i]);
        }
        if (add.empty() && remove.empty()) {
          e.run_time_evolution(t);
        } else {
          // what has to be conserved from here on
          const auto none = QuantumNumbers();
          q0[0] = q0[0] - (none - QuantumNumbers(add)) - QuantumNumbers(remove);
          e.run_time_evolution(t, std::move(add), std::move(remove));
        }
        mc::transition();
        int n = 0;
        for (auto &ps : *e.all_ensembles()) {
          const QuantumNumbers q(ps);
          const std::string dev = q0[n].report_deviations(q);
          if (!dev.empty())
            res.wrong.push_back(mc::fmt("ensemble %d at %g: ", n, t) + dev);
          double tt = smash_NaN<double>;
          for (auto &p : ps) {
            if (std::isnan(tt)) tt = p.position().x0();
            if (p.position().x0() != tt || tt < t - 1e-9 ||
                (o.steps == "Fixed" && tt > t + o.dt + 1e-9) ||
                (k == parts && std::fabs(tt - o.t_end) > 1e-9))
              res.wrong.push_back(mc::fmt("a particle is at time %.17g when the "
                                          "system was evolved to %.17g",
                                          p.position().x0(), t));
          }
          n++;
        }
      }
      e.do_final_interactions();
      if (o.forced)
        for (auto &ps : *e.all_ensembles())
          for (auto &p : ps)
            if (o.to_one && !p.type().is_stable())
              res.wrong.push_back("an unstable particle is left: " +
                                  p.type().name());
      e.final_output();
    }
  } catch (const std::exception &x) {
    res.error = x.what();
    if (res.error.empty()) res.error = "exception";
  }
  c.clear();
  res.coll = mc::slurp(dir() + "/collisions_oscar2013_extended.bin");
  res.part = mc::slurp(dir() + "/particles_oscar2013_extended.bin");
  return res;
}
Result drive(const Opt &o, const std::vector<double> *script, int parts,
             bool whole = false, const Ops &ops = {}) {
  if (o.modus == "List") return drive<ListModus>(o, script, parts, whole, ops);
  if (o.modus == "ListBox")
    return drive<ListBoxModus>(o, script, parts, whole, ops);
  if (o.modus == "Box") return drive<BoxModus>(o, script, parts, whole, ops);
  if (o.modus == "Sphere") return drive<SphereModus>(o, script, parts, whole, ops);
  return drive<ColliderModus>(o, script, parts, whole, ops);
}

// ---- the history told by the output -----------------------------------------
struct Sum {
  FourVector p;
  int q = 0, b = 0, s = 0, c = 0, bt = 0;
  void add(const Rec &r, int sign) {
    p += r.p() * sign;
    const PdgCode code = PdgCode::from_decimal(r.pdg);
    q += sign * r.charge, b += sign * r.B, s += sign * r.S;
    c += sign * code.charmness(), bt += sign * code.bottomness();
  }
};
bool same_place(const Opt &o, const Rec &r, const FourVector &x, double tol) {
  for (int i = 1; i < 4; i++) {
    double d = std::fabs(r.v[i] - x[i]);
    if (o.length > 0) d = std::fabs(d - o.length * std::round(d / o.length));
    if (!(d < tol)) return false;
  }
  return true;
}
/// position of a particle of the model at time t
FourVector at(const Rec &r, double t) {
  const double dt = t - r.v[0];
  return {t, r.v[1] + r.v[6] / r.v[5] * dt, r.v[2] + r.v[7] / r.v[5] * dt,
          r.v[3] + r.v[8] / r.v[5] * dt};
}
std::string show(const Rec &r) {
  return mc::fmt("%d (id %d) at (%g %g %g %g)", r.pdg, r.id, r.v[0], r.v[1],
                 r.v[2], r.v[3]);
}
struct Tally {
  size_t predicted = 0, interactions = 0, decays = 0, walls = 0, multi = 0;
};

constexpr double kElastic = 40.;
V4 mom(const Rec &r) { return {r.v[5], {r.v[6], r.v[7], r.v[8]}}; }
/// Which pair of the given particles scatters next (all cross sections 40 mb)?
struct Next {
  double t = 1e300;
  int a = -1, b = -1;
  bool unclear = false;  // within rounding errors of another course
};
Next next_scattering(const Opt &o, const std::map<int, Rec> &live, double now) {
  Next n;
  for (auto i = live.begin(); i != live.end(); ++i)
    for (auto j = live.begin(); j != i; ++j) {
      const Rec &a = i->second, &b = j->second;
      if (a.pid > 0 && a.pid == b.pid) continue;  // just collided
      const FourVector xa = at(a, now), xb = at(b, now);
      const auto q = approach(mom(a), mom(b), v4(xa), v4(xb), mom(a), mom(b),
                              o.crit == "Covariant");
      if (!q.time_defined) continue;
      const double t = now + q.time, lim = kElastic / (10. * M_PI);
      if (t < now - 1e-9 || t > o.t_end + 1e-9) continue;
      // initially not yet formed
      if (a.form > t + 1e-9 || b.form > t + 1e-9) continue;
      if (q.d2 > lim * (1 + 1e-7)) continue;
      const bool fuzzy = std::fabs(q.d2 - lim) < lim * 1e-7 ||
                         std::fabs(t - o.t_end) < 1e-8 ||
                         std::fabs(a.form - t) < 1e-8 ||
                         std::fabs(b.form - t) < 1e-8 ||
                         std::fabs(q.time) < 1e-8;
      if (std::fabs(t - n.t) < 1e-8) n.unclear = true;
      if (t < n.t) {
        if (t < n.t - 1e-8) n.unclear = false;
        n.t = t, n.a = i->first, n.b = j->first;
        n.unclear |= fuzzy;
      }
    }
  return n;
}

/// Replays the collision file of one-ensemble runs; compares particle blocks.
std::string replay(const Opt &o, Tally &tally, bool frozen = false) {
  std::vector<Block> col, par;
  if (!parse(dir() + "/collisions_oscar2013_extended.bin", col))
    return "the collision file cannot be read";
  if (!parse(dir() + "/particles_oscar2013_extended.bin", par))
    return "the particle file cannot be read";
  // the particle blocks in order
  size_t ip = 0;
  std::map<int, Rec> live;
  std::set<int> used;
  double now = 0;
  int event = 0;
  uint32_t serial = 0;
  bool started = false, predict = o.predict;
  auto block_matches = [&](const Block &b, double t) -> std::string {
    if (b.parts.size() != live.size())
      return mc::fmt("a list of %d particles at %g instead of %d",
                     int(b.parts.size()), t, int(live.size()));
    for (auto &r : b.parts) {
      auto it = live.find(r.id);
      if (it == live.end()) return "a particle that does not exist: " + show(r);
      const Rec &m = it->second;
      if (r.pdg != m.pdg) return "wrong species: " + show(r);
      if (memcmp(&r.v[4], &m.v[4], 5 * 8) != 0)
        return "momentum changed between interactions: " + show(r);
      if (r.pid != m.pid || r.ptype != m.ptype || r.ncoll != m.ncoll ||
          r.m1 != m.m1 || r.m2 != m.m2 || r.form != m.form)
        return "history changed between interactions: " + show(r);
      if (!frozen && std::fabs(r.v[0] - t) > 1e-9)
        return mc::fmt("time %.17g instead of %.17g: ", r.v[0], t) + show(r);
      if (!frozen && !same_place(o, r, at(m, r.v[0]), 1e-7))
        return "not on its straight path: " + show(r) + " from " + show(m);
      for (int k = 1; o.length > 0 && k < 4; k++)
        if (r.v[k] < -1e-6 || r.v[k] > o.length + 1e-6)
          return "outside of the box: " + show(r);
    }
    return "";
  };
  // the lists at output times (multiples of the interval) before a given time
  std::vector<double> outs;
  size_t ko = 0;
  auto outputs_before = [&](double t) -> std::string {
    for (; ko < outs.size() && outs[ko] < t - 1e-12; ko++, ip++) {
      if (ip >= par.size() || par[ip].kind != 'p')
        return mc::fmt("no particle list at %g", outs[ko]);
      const std::string err = block_matches(par[ip], outs[ko]);
      if (!err.empty()) return mc::fmt("particle list at %g: ", outs[ko]) + err;
    }
    return "";
  };
  for (size_t i = 0; i < col.size(); i++) {
    const Block &b = col[i];
    if (b.kind == 'p' && !started) {
      live.clear();
      used.clear();
      serial = 0;
      started = true;
      now = -1e300;
      for (auto &r : b.parts) {
        if (!live.emplace(r.id, r).second) return "an id occurs twice";
        used.insert(r.id);
        now = std::max(now, r.v[0]);
      }
      outs.clear();
      ko = 0;
      for (int k = int(std::floor(now / o.out)) - 1; k * o.out < o.t_end - 1e-9; k++)
        if (k * o.out > now + 1e-9) outs.push_back(k * o.out);
      if (b.event != event) return "wrong event number";
      // the particle file has the same block
      if (ip >= par.size() || par[ip].kind != 'p' ||
          par[ip].parts.size() != b.parts.size())
        return "the particle file has no block for the event start";
      for (size_t k = 0; k < b.parts.size(); k++)
        if (memcmp(par[ip].parts[k].v, b.parts[k].v, 72) != 0 ||
            par[ip].parts[k].id != b.parts[k].id)
          return "initial particles differ";
      ip++;
    } else if (b.kind == 'i') {
      if (!started) return "an interaction outside of an event";
      serial++;
      tally.interactions++;
      tally.decays += b.type == 5;
      tally.walls += b.type == 6;
      tally.multi += b.nin > 2;
      double t = -1e300;
      for (size_t k = 0; k < b.parts.size(); k++) t = std::max(t, b.parts[k].v[0]);
      if (t < now - 1e-9)
        return mc::fmt("interaction %d at %.17g after one at %.17g", int(serial), t, now);
      if (t > o.t_end + 1e-9) return mc::fmt("interaction at %g after the end", t);
      std::string err = outputs_before(t);
      if (!err.empty()) return err;
      if (predict) {
        const Next n = next_scattering(o, live, now);
        if (n.unclear) {
          predict = false;
        } else if (b.nin != 2 || std::fabs(n.t - t) > 1e-7 ||
                   std::set<int>{n.a, n.b} !=
                       std::set<int>{b.parts[0].id, b.parts[1].id}) {
          return mc::fmt("interaction %d at %.9g of ", int(serial), t) +
                 show(b.parts[0]) +
                 mc::fmt(", but next are %d and %d at %.9g", n.a, n.b, n.t);
        }
        tally.predicted++;
      }
      now = std::max(now, t);
      Sum sum;
      std::set<int> in_ids;
      for (size_t k = 0; k < b.parts.size(); k++) {
        const Rec &r = b.parts[k];
        const bool in = k < b.nin;
        sum.add(r, in ? 1 : -1);
        if (std::fabs(r.v[0] - t) > 1e-9)
          return mc::fmt("interaction %d: particles at times %.17g and %.17g",
                         int(serial), r.v[0], t);
        if (in) {
          auto it = live.find(r.id);
          if (it == live.end())
            return mc::fmt("interaction %d with a particle that does not exist: ",
                           int(serial)) + show(r);
          const Rec &m = it->second;
          if (r.pdg != m.pdg || (!frozen && memcmp(&r.v[4], &m.v[4], 40) != 0))
            return mc::fmt("interaction %d: incoming particle changed: ", int(serial)) + show(r);
          if (r.pid != m.pid || r.ncoll != m.ncoll || r.form != m.form)
            return mc::fmt("interaction %d: outdated history: ", int(serial)) + show(r);
          if (!frozen && !same_place(o, r, at(m, r.v[0]), 1e-7))
            return mc::fmt("interaction %d: incoming particle not on its path: ",
                           int(serial)) + show(r) + " from " + show(m);
          if (!in_ids.insert(r.id).second) return "a particle interacts with itself";
        }
      }
      for (auto id : in_ids) live.erase(id);
      for (size_t k = b.nin; k < b.parts.size(); k++) {
        const Rec &r = b.parts[k];
        const bool keeps = b.type == 1 || b.type == 6;
        if (keeps ? !in_ids.count(r.id) : !used.insert(r.id).second)
          return mc::fmt("interaction %d (type %d): bad id of ", int(serial), int(b.type)) + show(r);
        if (b.type != 6 && r.pid != static_cast<int>(serial))
          return mc::fmt("interaction %d: origin %d recorded in ", int(serial), r.pid) + show(r);
        if (b.type != 6 && b.type != 1 && r.ptype != static_cast<int>(b.type))
          return mc::fmt("interaction %d: type %d recorded for type %d in ",
                         int(serial), r.ptype, int(b.type)) + show(r);
        if (b.type != 6 && b.type != 5 && b.type != 90 && r.tlast != r.v[0])
          return "time of last collision is not set: " + show(r);
        if (!live.emplace(r.id, r).second) return "an id occurs twice";
      }
      double e = 0;
      for (size_t k = 0; k < b.nin; k++) e += b.parts[k].v[5];
      if (b.type == 90) continue;  // from outside: changes what there is
      for (int k = 0; k < 4; k++)
        if (!(std::fabs(sum.p[k]) < 1e-6 * (1 + e)))
          return mc::fmt("interaction %d (type %d) changes the momentum by %s",
                         int(serial), int(b.type), mc::str(sum.p).c_str());
      if (sum.q || sum.b || sum.s || sum.c || sum.bt)
        if (!(b.type == 5 && !sum.q && !sum.b))
          return mc::fmt("interaction %d (type %d) changes charges", int(serial), int(b.type));
    } else if (b.kind == 'p') {
      // end of the event
      if (predict) {
        const Next n = next_scattering(o, live, now);
        if (n.a >= 0 && !n.unclear)
          return mc::fmt("%d and %d should have scattered at %.9g", n.a, n.b, n.t);
      }
      std::string err = outputs_before(o.t_end - 1e-9);
      if (!err.empty()) return err;
      err = block_matches(b, o.t_end);
      if (!err.empty()) return "final list: " + err;
      if (ip >= par.size() || par[ip].kind != 'p') return "no final particle list";
      if (par[ip].parts.size() != b.parts.size()) return "final particle lists differ";
      for (size_t k = 0; k < b.parts.size(); k++)
        if (memcmp(par[ip].parts[k].v, b.parts[k].v, 72) != 0 ||
            par[ip].parts[k].id != b.parts[k].id)
          return "final particle lists differ";
      ip++;
    } else {
      if (ip >= par.size() || par[ip].kind != 'f') return "more particle lists than expected";
      if (par[ip].event != event || b.event != event) return "wrong event number";
      ip++;
      started = false;
      event++;
    }
  }
  if (ip != par.size()) return "more particle lists than expected";
  if (event != o.nevents) return mc::fmt("%d events instead of %d", event, o.nevents);
  return "";
}

uint64_t job = 0;
Tally total;

std::string show(const Ops &ops) {
  std::string r;
  for (auto &op : ops) {
    r += mc::fmt(" part %d add", op.part);
    for (auto &x : op.add) r += std::string(" ") + x.pdg;
    r += " remove";
    for (int i : op.remove) r += mc::fmt(" #%d", i);
  }
  return r;
}
void check(const Opt &o, const std::vector<double> *script, int parts,
           bool whole = false, const Ops &ops = {}) {
  std::string what = o.str() + mc::fmt(" parts %d seed %d events %d", parts,
                                       int(o.seed), o.nevents) + show(ops);
  if (script) {
    what += " random";
    for (double u : *script) what += mc::fmt(" %g", u);
  }
  mc::cur(what);
  mc::trace();
  Result r = drive(o, script, parts, whole, ops);
  mc::eval();
  if (!r.error.empty()) {
    mc::viol("event " + what, "exception: " + r.error);
    return;
  }
  for (auto &w : r.wrong) {
    mc::viol("event " + what, w);
    return;
  }
  Tally t;
  if (o.ens == 1) {
    const std::string err = replay(o, t, o.modi.find("frozen") != std::string::npos);
    if (!err.empty()) mc::viol("history " + what, err);
    mc::state(r.coll);
  }
  total.predicted += t.predicted;
  total.interactions += t.interactions, total.decays += t.decays;
  total.walls += t.walls, total.multi += t.multi;
}

// E: elastic scatterings: the next one is what straight paths and the
// collision criterion say, whatever the division into time steps
void time_steps() {
  const auto sc = scenes();
  struct Way {
    const char *steps;
    double dt;
    bool grid;
    int parts;
    double out = 10.;
  };
  const std::vector<Way> ways = {
      {"None", 1, true, 1},    {"None", 1, false, 3},    {"Fixed", 0.05, true, 1},
      {"Fixed", 0.05, false, 2}, {"Fixed", 0.31, true, 3}, {"Fixed", 0.31, false, 1},
      {"Fixed", 1.5, true, 2}, {"Fixed", 1.5, false, 1}, {"Fixed", 7., true, 1},
      // outputs within time steps
      {"Fixed", 7., false, 1, 0.4}, {"Fixed", 0.31, true, 1, 0.11}, {"None", 1, true, 1, 0.7}};
  std::vector<std::pair<std::string, Scene>> all;
  for (auto &s : sc) {
    bool decays = false;
    for (auto &p : s.second)
      decays |= !ParticleType::find(PdgCode(p.pdg)).is_stable();
    if (!decays) all.push_back(s);
  }
  // small lattices of moving nucleons and pions
  const char *kind[] = {"2212", "211", "2112", "-211"};
  const int n = mc::thorough() ? 1024 : 128;
  for (int a = 0; a < n; a++) {
    Scene s;
    for (int i = 0; i < 5; i++) {
      const int d = a >> (2 * i) & 3, q = (a * 7 + i * 3) % 5;
      s.push_back({kind[d], i == 4 ? 0.4 * (a % 3) : 0.,
                   0.9 * (i & 1) + 0.05 * q, 0.8 * (i >> 1 & 1) + 0.03 * i,
                   1.1 * (i >> 2) - 0.04 * q, 0.7 - 1.3 * (i & 1) + 0.1 * d,
                   0.5 - 1.1 * (i >> 1 & 1) - 0.05 * q, 0.3 - 0.8 * (i >> 2), -1});
    }
    all.push_back({mc::fmt("lattice%d", a), s});
  }
  for (auto &s : all)
    for (const char *crit : {"Covariant", "Geometric"})
      for (int64_t seed : {5, 6}) {
        if (!mc::mine(job++) || mc::too_many()) continue;
        for (auto &w : ways) {
          Opt o;
          o.scene = s.first, o.crit = crit, o.steps = w.steps, o.dt = w.dt;
          o.grid = w.grid, o.seed = seed, o.t_end = 6., o.out = w.out;
          o.elastic = true, o.to_one = false, o.decay_initial = false;
          o.forced = false, o.predict = true;
          write_scene(s.second, 1);
          check(o, nullptr, w.parts);
        }
      }
}

// F: particles added and removed between the parts of an evolution
void library() {
  const auto sc = scenes();
  const std::vector<Scene> adds = {
      {},
      {{"211", 0, 3, 0, 0, 0.2, 0, 0, -1}},
      {{"2212", 0, 0, 2, 0, 0, -0.4, 0, -1}, {"-321", 0, 0, -3, 0, 0, 0.5, 0, -1}},
      {{"2224", 1.7, 0, 2, 2, 0, 0, 0.1, 1.232}}};
  const std::vector<std::vector<int>> removes = {{}, {0}, {1}, {0, 1}, {0, 1, 2, 3, 4}};
  for (auto name : {"headon", "delta", "decays", "times", "early", "one", "mesons"})
    for (const char *steps : {"Fixed", "None"})
      for (int first = 1; first <= 3; first++)
        for (size_t a = 0; a < adds.size(); a++)
          for (size_t r = 0; r < removes.size(); r++)
            for (int second = 0; second < 4; second++) {
              if (second && second <= first) continue;
              if (!mc::mine(job++) || mc::too_many()) continue;
              Opt o;
              o.scene = name, o.steps = steps;
              o.out = 1.1;
              Ops ops = {{first, adds[a], removes[r]}};
              if (second)
                ops.push_back({second, adds[(a + 1) % adds.size()],
                               removes[(r + 2) % removes.size()]});
              write_scene(sc.at(name), 1);
              const std::vector<double> script = {0.3, 0.6};
              check(o, &script, 3, false, ops);
            }
}

// B, C: whole runs of every modus; the seed determines them
void whole_runs() {
  std::vector<Opt> opts;
  auto add = [&](const char *modus, const std::string &modi) {
    Opt o;
    o.modus = modus, o.modi = modi;
    o.dt = 0.25, o.t_end = 5., o.out = 1.;
    opts.push_back(o);
    return &opts.back();
  };
  for (const char *ic : {"thermal momenta", "peaked momenta"})
    for (const char *crit : {"Covariant", "Stochastic"}) {
      Opt *o = add("Box", std::string("  Box:\n    Length: 6.0\n    Temperature: 0.2\n"
                   "    Start_Time: 0.0\n    Initial_Condition: \"") + ic +
                   "\"\n    Init_Multiplicities: {211: 4, -211: 3, 2212: 2, "
                   "-2212: 1, 2224: 1, 3122: 1, 321: 1}\n");
      o->length = 6.;
      o->crit = crit;
      o->dt = 0.05;
    }
  for (const char *ic : {"thermal momenta", "IC_ES", "IC_1M", "IC_Massive"})
    for (const char *steps : {"Fixed", "None"}) {
      Opt *o = add("Sphere", std::string("  Sphere:\n    Radius: 2.0\n    Temperature: 0.2\n"
                   "    Start_Time: 0.0\n    Initial_Condition: \"") + ic +
                   "\"\n    Init_Multiplicities: {211: 5, -211: 3, 2212: 3, "
                   "-2212: 1, 2224: 1, 3122: 1, -321: 1}\n");
      o->steps = steps;
    }
  for (const char *fermi : {"off", "on", "frozen"})
    for (const char *e : {"0.4", "1.5"})
      for (const char *steps : {"Fixed", "None"}) {
        Opt *o = add("Collider", std::string("  Collider:\n    Projectile: {Particles: "
                     "{2212: 2, 2112: 2}}\n    Target: {Particles: {2212: 6, 2112: 6}}\n"
                     "    E_Kin: ") + e + "\n    Impact: {Value: 0.7}\n    Fermi_Motion: \"" +
                     fermi + "\"\n");
        o->steps = steps, o->t_end = 12.;
        o->out = 2.;
      }
  for (int k = 0; k < 3; k++) {
    Opt *o = add("Box", "  Box:\n    Length: 6.0\n    Temperature: 0.2\n    Start_Time: 0.0\n"
                 "    Initial_Condition: \"thermal momenta\"\n    Init_Multiplicities: "
                 "{211: 2, -211: 2, 2212: 1, 2224: 1}\n");
    o->length = 6., o->dt = 0.05;
    o->ens = k == 1 ? 1 : 2 + k / 2, o->test = k == 1 ? 3 : 1;
    o->crit = k == 2 ? "Stochastic" : "Covariant";
  }
  const int seeds = mc::thorough() ? 40 : 4;
  for (auto o : opts)
    for (int s = 1; s <= seeds; s++) {
      if (!mc::mine(job++) || mc::too_many()) continue;
      o.seed = s == 4 ? 6523485620345234LL : s;
      o.nevents = 2;
      o.forced = s % 2;
      // The sampling of resonance masses adapts its maxima during a run, so
      // that only the elastic runs repeat within one process.
      if (s % 2 == 0) o.elastic = true, o.to_one = false;
      const std::string what = o.str() + mc::fmt(" seed %d", s);
      check(o, nullptr, 1, true);
      const std::string c1 = mc::slurp(dir() + "/collisions_oscar2013_extended.bin"),
                        p1 = mc::slurp(dir() + "/particles_oscar2013_extended.bin");
      if (!o.elastic) continue;
      Result r = drive(o, nullptr, 1, true);
      mc::eval();
      if (r.coll != c1 || r.part != p1)
        mc::viol("seed " + what, "the same seed gives different output");
      // events one by one
      std::vector<Block> both;
      parse(dir() + "/collisions_oscar2013_extended.bin", both);
      size_t i = 0;
      int64_t seed = o.seed;
      for (int ev = 0; ev < 2; ev++) {
        Opt one = o;
        one.nevents = 1, one.seed = seed;
        drive(one, nullptr, 1, true);
        mc::eval();
        std::vector<Block> single;
        parse(dir() + "/collisions_oscar2013_extended.bin", single);
        for (size_t k = 0; k < single.size(); k++, i++) {
          bool same = i < both.size() && both[i].kind == single[k].kind &&
                      both[i].parts.size() == single[k].parts.size() &&
                      both[i].type == single[k].type;
          for (size_t m = 0; same && m < single[k].parts.size(); m++)
            same = memcmp(both[i].parts[m].v, single[k].parts[m].v, 72) == 0 &&
                   both[i].parts[m].pdg == single[k].parts[m].pdg;
          if (!same) {
            mc::viol("seed " + what,
                     mc::fmt("event %d is not reproduced from its own seed", ev));
            break;
          }
        }
        std::mt19937_64 engine(static_cast<uint64_t>(seed));
        seed = std::abs(static_cast<int64_t>(engine()));
      }
    }
}

// A: scenes x options x random answers
void scenes_and_answers() {
  const auto sc = scenes();
  const std::vector<double> al = {0., 0.37, 0.81, mc::kMaxU};
  std::vector<Opt> opts;
  for (const char *steps : {"Fixed", "None"})
    for (const char *crit : {"Covariant", "Geometric", "Stochastic"})
      for (double dt : {0.1, 0.7}) {
        if (std::string(steps) == "None" && (dt != 0.1 || std::string(crit) == "Stochastic")) continue;
        Opt o;
        o.steps = steps, o.crit = crit, o.dt = dt;
        if (o.crit == "Stochastic") o.test = 1;
        opts.push_back(o);
        o.forced = false;
        o.out = 0.4;
        o.t_end = 3.3;
        if (dt == 0.7) {
          o.grid = o.crit == "Stochastic";
          o.decay_initial = false;
          o.to_one = o.crit != "Geometric";
        }
        opts.push_back(o);
      }
  Opt m;
  m.crit = "Stochastic", m.multi = true, m.dt = 0.1, m.t_end = 2.;
  opts.push_back(m);
  for (const char *crit : {"Covariant", "Stochastic"}) {
    Opt b;
    b.modus = "ListBox", b.length = 6., b.dt = 0.1, b.t_end = 8., b.crit = crit;
    opts.push_back(b);
    b.dt = 0.6, b.out = 0.13;
    if (b.crit == "Covariant") b.grid = false, opts.push_back(b);
  }
  const int k = mc::thorough() ? 5 : 3;
  for (auto &s : sc)
    for (auto o : opts) {
      o.scene = s.first;
      Scene scene = s.second;
      if (o.modus == "ListBox") {
        bool neg = false;
        for (auto &p : scene) {
          p.x = std::fmod(p.x + 6, 6), p.y = std::fmod(p.y + 6, 6), p.z = std::fmod(p.z + 6, 6);
          neg |= p.t != 0;
        }
        if (neg) continue;
      }
      int n = 1;
      for (int i = 0; i < k; i++) n *= int(al.size());
      for (int a = 0; a < n; a++) {
        if (!mc::mine(job++) || mc::too_many()) continue;
        std::vector<double> script;
        for (int i = 0, x = a; i < k; i++, x /= int(al.size()))
          script.push_back(al[x % al.size()]);
        write_scene(scene, 1);
        check(o, &script, 1 + a % 3);
      }
    }
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  ParticleType::create_type_list(
      "π 0.138 7.7e-9 - 111 211\nη 0.548 1.31e-6 - 221\nσ 0.8 0.4 + 9000221\n"
      "ρ 0.776 0.149 - 113 213\nω 0.783 8.49e-3 - 223\nη' 0.958 1.96e-4 - 331\n"
      "K 0.494 0 - 311 321\nK*(892) 0.892 0.05 - 313 323\n"
      "N 0.938 0 + 2112 2212\nN(1440) 1.44 0.35 + 12112 12212\n"
      "N(1520) 1.515 0.11 - 1214 2124\nΔ 1.232 0.117 + 1114 2114 2214 2224\n"
      "Λ 1.116 2.5e-15 + 3122\nΣ 1.189 8.9e-6 + 3112 3212 3222\n"
      "Λ(1405) 1.405 0.0505 - 13122\nh₁(1170) 1.17 0.36 + 10223\n"
      "d 1.8756 0 + 1000010020\nt 2.8089 0 + 1000010030\n"
      "He3 2.8084 0 + 1000020030\nH3L 2.9912 0 + 1010010030\n");
  DecayModes::load_decaymodes(
      "σ\n1 0 π π\n\nρ\n1 1 π π\n\nω\n0.9 1 π ρ\n0.1 1 π⁺ π⁻\n\n"
      "K*(892)\n1 1 K π\n\nN(1440)\n0.6 1 N π\n0.24 1 Δ π\n0.16 0 N σ\n\n"
      "N(1520)\n0.65 2 N π\n0.25 0 Δ π\n0.1 0 N ρ\n\nΔ\n1 1 N π\n\n"
      "Λ(1405)\n1 0 Σ π\n\nh₁(1170)\n1 0 π ρ\n\n"
      "η\n0.4 0 π⁺ π⁻ π⁰\n0.6 0 π⁰ π⁰ π⁰\n\nη'\n0.43 0 π⁺ π⁻ η\n0.22 0 π⁰ π⁰ η\n0.35 1 π⁺ π⁻ ω\n");
  {
    sha256::Context ctx;
    ctx.update(std::string("x"));
    mc::cur("tabulating spectral integrals");
    fflush(stdout);  // prints a progress message
    const int keep = dup(1), null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    IsoParticleType::tabulate_integrals(ctx.finalize(), "");
    fflush(stdout);
    dup2(keep, 1);
    close(keep), close(null);
  }
  time_steps();
  library();
  whole_runs();
  scenes_and_answers();
  mc::extra("scatterings_predicted", total.predicted);
  mc::extra("interactions", total.interactions);
  mc::extra("decays", total.decays);
  mc::extra("wall_crossings", total.walls);
  mc::extra("multi_particle", total.multi);
  return mc::finish();
}
