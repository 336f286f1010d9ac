// Helpers shared by harnesses: loading particle tables, building particles.
#pragma once
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

#include "mc.h"
#include "smash/configuration.h"
#include "smash/decaymodes.h"
#include "smash/logging.h"
#include "smash/particledata.h"
#include "smash/particles.h"
#include "smash/particletype.h"
#include "smash/pdgcode.h"

namespace mc {
inline std::string repo() {
  const char *r = getenv("VERIF_REPO");
  return r ? r : "/repo";
}
inline std::string slurp(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
inline void quiet_logging() {
  smash::set_default_loglevel(einhard::OFF);
  for (auto &l : smash::logg)
    l.setVerbosity(einhard::OFF);
}
inline void load_shipped_particles() {
  smash::ParticleType::create_type_list(slurp(repo() + "/input/particles.txt"));
}
inline void load_shipped_tables() {
  load_shipped_particles();
  smash::DecayModes::load_decaymodes(slurp(repo() + "/input/decaymodes.txt"));
  smash::ParticleType::check_consistency();
}
/// The shipped tables without the species heavier than the given mass
inline void load_light_tables(double max_mass) {
  auto strip = [](std::string w) {  // no bars of antiparticles, no charges
    for (const std::string m : {"\xcc\x85", "\u207a", "\u207b", "\u2070"})
      for (size_t i; (i = w.find(m)) != std::string::npos;)
        w.erase(i, m.size());
    return w;
  };
  std::vector<std::string> out;
  std::string particles, decays, block;
  std::istringstream p(slurp(repo() + "/input/particles.txt"));
  for (std::string l; std::getline(p, l);) {
    std::istringstream w(l);
    std::string name;
    double mass;
    if (!(w >> name >> mass)) continue;
    if (mass > max_mass && name[0] != '#')
      out.push_back(strip(name));
    else
      particles += l + "\n";
  }
  auto heavy = [&](const std::string &name) {
    for (auto &o : out)
      if (o == strip(name)) return true;
    return false;
  };
  std::istringstream d(slurp(repo() + "/input/decaymodes.txt"));
  bool skip = false;
  for (std::string l; std::getline(d, l);) {
    l = l.substr(0, l.find('#'));
    std::istringstream w(l);
    std::string a, b;
    if (!(w >> a)) continue;
    if (!(w >> b)) {
      skip = heavy(a);
      if (!skip) decays += "\n" + a + "\n";
      continue;
    }
    bool ok = !skip;
    for (std::string n; w >> n;) ok = ok && !heavy(n);
    if (ok) decays += l + "\n";
  }
  smash::ParticleType::create_type_list(particles);
  smash::DecayModes::load_decaymodes(decays);
  smash::ParticleType::check_consistency();
}
inline smash::Configuration config(const std::string &yaml) {
  return smash::Configuration(yaml.c_str(),
                              smash::Configuration::InitializeFromYAMLString);
}
inline smash::PdgCode pdg(const char *s) { return smash::PdgCode(s); }
inline smash::ParticleData particle(smash::PdgCode p, double mass, double px,
                                    double py, double pz, double t = 0,
                                    double x = 0, double y = 0, double z = 0,
                                    int id = -1) {
  smash::ParticleData d(smash::ParticleType::find(p), id);
  d.set_4momentum(mass, px, py, pz);
  d.set_4position(smash::FourVector(t, x, y, z));
  return d;
}
inline std::string str(const smash::FourVector &v) {
  return fmt("(%.17g,%.17g,%.17g,%.17g)", v.x0(), v.x1(), v.x2(), v.x3());
}
inline std::string str(const smash::ThreeVector &v) {
  return fmt("(%.17g,%.17g,%.17g)", v.x1(), v.x2(), v.x3());
}
}  // namespace mc
