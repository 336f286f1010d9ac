// Particle outputs of SMASH as used by the output checks.
#pragma once
// clang-format off
#include "smash_params.h"
#include "smash/action.h"
#include "smash/binaryoutput.h"
#include "smash/clock.h"
#include "smash/density.h"
#include "smash/icoutput.h"
#include "smash/oscaroutput.h"
#include "smash/outputparameters.h"
#include "smash/thermodynamicoutput.h"
// clang-format on
#include <filesystem>

namespace mc {
/// An action with given content.
class FixedAction : public smash::Action {
 public:
  FixedAction(const smash::ParticleList &in, const smash::ParticleList &out,
              double t, smash::ProcessType type, double total, double partial)
      : smash::Action(in, out, t, type), total_(total), partial_(partial) {}
  double get_total_weight() const override { return total_; }
  double get_partial_weight() const override { return partial_; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &o) const override { o << "fixed"; }

 private:
  double total_, partial_;
};

struct OutSpec {
  std::string format, content;
  bool extended = false, startend = false;
  smash::OutputOnlyFinal only_final = smash::OutputOnlyFinal::Yes;
  std::vector<std::string> quantities;
  std::string str() const {
    std::string s = format + " " + content + (extended ? " extended" : "") +
                    (startend ? " start/end" : "") +
                    (only_final == smash::OutputOnlyFinal::Yes  ? ""
                     : only_final == smash::OutputOnlyFinal::No ? " all times"
                                                         : " if not empty");
    for (auto &q : quantities)
      s += " " + q;
    return s;
  }
};

inline std::unique_ptr<smash::OutputInterface> make_output(
    const OutSpec &s, const std::string &dir) {
  smash::OutputParameters p;
  p.part_extended = p.coll_extended = p.dil_extended = p.photons_extended =
      p.ic_extended = s.extended;
  p.coll_printstartend = s.startend;
  p.part_only_final = s.only_final;
  for (const char *c : {"Particles", "Collisions", "Dileptons", "Photons",
                        "Initial_Conditions"})
    p.quantities[c] = s.quantities;
  if (s.format == "vHLLE")
    return std::make_unique<smash::ICOutput>(dir, "SMASH_IC_For_vHLLE", p);
  if (s.format == "Thermodynamics") {
    p.td_rho_eckart = p.td_tmn = p.td_tmn_landau = p.td_v_landau = p.td_jQBS =
        true;
    p.td_dens_type = smash::DensityType::Hadron;
    return std::make_unique<smash::ThermodynamicOutput>(dir, s.content, p);
  }
  if (s.format == "Binary" || s.format == "Oscar2013_bin")
    return smash::create_binary_output(s.format, s.content, dir, p);
  return smash::create_oscar_output(s.format, s.content, dir, p);
}
/// Name of the finished file as documented.
inline std::string file_name(const OutSpec &s) {
  if (s.format == "vHLLE")
    return "SMASH_IC_For_vHLLE.dat";
  if (s.format == "Thermodynamics")
    return "thermodynamics.dat";
  const bool bin = s.format == "Binary" || s.format == "Oscar2013_bin";
  std::string n = s.content;
  if (bin) {
    if (n == "Particles")
      n = "particles";
    if (n == "Collisions")
      n = "collisions";
    if (n == "Initial_Conditions")
      n = "SMASH_IC";
    using D = smash::OutputDefaultQuantities;
    const bool custom = s.format == "Binary" && !s.quantities.empty();
    const auto q = custom ? s.quantities
                   : s.extended ? D::oscar2013extended
                                : D::oscar2013;
    n += q == D::oscar2013           ? "_oscar2013"
         : q == D::oscar2013extended ? "_oscar2013_extended"
                                     : "_custom";
    return n + ".bin";
  }
  if (n == "Particles")
    n = "particle_lists";
  if (n == "Collisions")
    n = "full_event_history";
  if (n == "Initial_Conditions")
    n = "SMASH_IC";
  return n + (s.format == "ASCII"       ? ".dat"
              : s.format == "Oscar1999" ? ".oscar1999"
                                        : ".oscar");
}

inline smash::EventInfo event_info(double b = 1.25, bool empty = false) {
  return {b, 10., 2., 1., 0., 1., 1, 1, empty, false};
}
}  // namespace mc
