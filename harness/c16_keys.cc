// C16: exactly the documented keys are accepted, with their documented
// defaults and values.
// clang-format off
#include "smash_common.h"
#include "smash/input_keys.h"
#include "smash/stringify.h"
#include "yaml-cpp/yaml.h"
// clang-format on
#include <filesystem>
#include <memory>

#include "known_keys.h"

using namespace smash;
using Is = Configuration::Is;

namespace {
using Labels = std::vector<std::string>;
Labels cut_labels(const std::string &s) {
  Labels l;
  std::stringstream st(s);
  std::string x;
  while (std::getline(st, x, '|')) l.push_back(x);
  return l;
}
std::string lab(const Labels &l) {
  std::string s;
  for (auto &x : l) s += (s.empty() ? "" : "|") + x;
  return s;
}
std::string dq(const std::string &s) { return "\"" + s + "\""; }
/// flow-style YAML with one key
std::string yaml(const Labels &l, const std::string &value) {
  std::string s;
  for (auto &x : l) s += "{" + dq(x) + ": ";
  s += value;
  for (size_t i = 0; i < l.size(); i++) s += "}";
  return s;
}
struct Conf {
  Configuration c;
  explicit Conf(const std::string &y)
      : c(y.c_str(), Configuration::InitializeFromYAMLString) {}
  ~Conf() { c.clear(); }
};
Is validate(const std::string &y, bool full = true) {
  Conf f(y);
  mc::transition();
  return f.c.validate(full);
}
const char *name(Is i) {
  return i == Is::Valid ? "valid" : i == Is::Invalid ? "invalid" : "deprecated";
}
const std::set<std::string> kMaps = {
    "Modi|Collider|Projectile|Particles", "Modi|Collider|Target|Particles",
    "Modi|Sphere|Init_Multiplicities", "Modi|Box|Init_Multiplicities",
    "Output|Rivet|Weights|Select_Dummy"};

template <class T>
std::string show(const T &v) {
  if constexpr (std::is_same_v<T, bool>)
    return v ? "true" : "false";
  else if constexpr (std::is_same_v<T, std::string>)
    return v;
  else if constexpr (std::is_integral_v<T>)
    return std::to_string(v);
  else if constexpr (std::is_floating_point_v<T>)
    return mc::fmt("%.17g", v);
  else if constexpr (std::is_enum_v<T>) {
    if constexpr (has_to_string_v<T>)
      return smash::to_string(v);
    else
      return "?";
  } else if constexpr (std::is_same_v<T, PdgCode>)
    return v.string();
  else if constexpr (std::is_same_v<T, ReactionsBitSet> ||
                     std::is_same_v<T, MultiParticleReactionsBitSet> ||
                     std::is_same_v<T, FluidizableProcessesBitSet>)
    return v.to_string();
  else if constexpr (std::is_same_v<T, std::pair<double, double>>)
    return mc::fmt("%g,%g", v.first, v.second);
  else if constexpr (std::is_same_v<T, std::map<PdgCode, int>>) {
    std::string s;
    for (auto &x : v) s += x.first.string() + ":" + std::to_string(x.second) + ",";
    return s;
  } else if constexpr (std::is_same_v<T, std::map<std::string, std::string>>) {
    std::string s;
    for (auto &x : v) s += x.first + ":" + x.second + ",";
    return s;
  } else {
    std::string s;
    for (auto &x : v) s += show(x) + ",";
    return s;
  }
}

/// documented values of the choices
template <class T>
std::vector<std::pair<std::string, T>> choices() {
  return {};
}
#define CHOICES(T, ...)                                 \
  template <>                                           \
  std::vector<std::pair<std::string, T>> choices<T>() { \
    return {__VA_ARGS__};                               \
  }
#define P(s, v) std::make_pair(std::string(s), v)
CHOICES(CalculationFrame, P("center of velocity", CalculationFrame::CenterOfVelocity),
        P("center of mass", CalculationFrame::CenterOfMass),
        P("fixed target", CalculationFrame::FixedTarget))
CHOICES(FermiMotion, P("off", FermiMotion::Off), P("on", FermiMotion::On),
        P("frozen", FermiMotion::Frozen))
CHOICES(DensityType, P("hadron", DensityType::Hadron), P("baryon", DensityType::Baryon),
        P("baryonic isospin", DensityType::BaryonicIsospin), P("pion", DensityType::Pion),
        P("total isospin", DensityType::Isospin3_tot), P("none", DensityType::None))
CHOICES(ExpansionMode, P("NoExpansion", ExpansionMode::NoExpansion),
        P("MasslessFRW", ExpansionMode::MasslessFRW), P("MassiveFRW", ExpansionMode::MassiveFRW),
        P("Exponential", ExpansionMode::Exponential))
CHOICES(DerivativesMode, P("Covariant Gaussian", DerivativesMode::CovariantGaussian),
        P("Finite difference", DerivativesMode::FiniteDifference), P("Off", DerivativesMode::Off))
CHOICES(FieldDerivativesMode, P("Chain Rule", FieldDerivativesMode::ChainRule),
        P("Direct", FieldDerivativesMode::Direct))
CHOICES(SmearingMode, P("Covariant Gaussian", SmearingMode::CovariantGaussian),
        P("Discrete", SmearingMode::Discrete), P("Triangular", SmearingMode::Triangular))
CHOICES(TimeStepMode, P("None", TimeStepMode::None), P("Fixed", TimeStepMode::Fixed))
CHOICES(BoxInitialCondition, P("thermal momenta", BoxInitialCondition::ThermalMomentaBoltzmann),
        P("thermal momenta quantum", BoxInitialCondition::ThermalMomentaQuantum),
        P("peaked momenta", BoxInitialCondition::PeakedMomenta))
CHOICES(SphereInitialCondition, P("thermal momenta", SphereInitialCondition::ThermalMomentaBoltzmann),
        P("thermal momenta quantum", SphereInitialCondition::ThermalMomentaQuantum),
        P("IC_ES", SphereInitialCondition::IC_ES), P("IC_1M", SphereInitialCondition::IC_1M),
        P("IC_2M", SphereInitialCondition::IC_2M), P("IC_Massive", SphereInitialCondition::IC_Massive))
CHOICES(NNbarTreatment, P("no annihilation", NNbarTreatment::NoAnnihilation),
        P("resonances", NNbarTreatment::Resonances), P("two to five", NNbarTreatment::TwoToFive),
        P("strings", NNbarTreatment::Strings))
CHOICES(Sampling, P("quadratic", Sampling::Quadratic), P("custom", Sampling::Custom),
        P("uniform", Sampling::Uniform))
CHOICES(ThermalizationAlgorithm, P("mode sampling", ThermalizationAlgorithm::ModeSampling),
        P("biased BF", ThermalizationAlgorithm::BiasedBF),
        P("unbiased BF", ThermalizationAlgorithm::UnbiasedBF))
CHOICES(CollisionCriterion, P("Geometric", CollisionCriterion::Geometric),
        P("Stochastic", CollisionCriterion::Stochastic), P("Covariant", CollisionCriterion::Covariant))
CHOICES(SpinInteractionType, P("On", SpinInteractionType::On), P("Off", SpinInteractionType::Off))
CHOICES(TotalCrossSectionStrategy, P("BottomUp", TotalCrossSectionStrategy::BottomUp),
        P("TopDown", TotalCrossSectionStrategy::TopDown),
        P("TopDownMeasured", TotalCrossSectionStrategy::TopDownMeasured))
CHOICES(PseudoResonance, P("None", PseudoResonance::None), P("Largest", PseudoResonance::Largest),
        P("Closest", PseudoResonance::Closest),
        P("LargestFromUnstable", PseudoResonance::LargestFromUnstable),
        P("ClosestFromUnstable", PseudoResonance::ClosestFromUnstable))
CHOICES(FluidizationType, P("Constant_Tau", FluidizationType::ConstantTau),
        P("Dynamic", FluidizationType::Dynamic))
CHOICES(OutputOnlyFinal, P("Yes", OutputOnlyFinal::Yes), P("No", OutputOnlyFinal::No),
        P("IfNotEmpty", OutputOnlyFinal::IfNotEmpty))
CHOICES(einhard::LogLevel, P("ALL", einhard::ALL), P("TRACE", einhard::TRACE),
        P("DEBUG", einhard::DEBUG), P("INFO", einhard::INFO), P("WARN", einhard::WARN),
        P("ERROR", einhard::ERROR), P("FATAL", einhard::FATAL), P("OFF", einhard::OFF))

template <class T>
std::vector<std::pair<std::string, int>> bits() {
  return {};
}
template <>
std::vector<std::pair<std::string, int>> bits<ReactionsBitSet>() {
  using R = IncludedReactions;
  return {{"Elastic", R::Elastic}, {"NN_to_NR", R::NN_to_NR}, {"NN_to_DR", R::NN_to_DR},
          {"KN_to_KN", R::KN_to_KN}, {"KN_to_KDelta", R::KN_to_KDelta},
          {"Strangeness_exchange", R::Strangeness_exchange}, {"NNbar", R::NNbar},
          {"PiDeuteron_to_NN", R::PiDeuteron_to_NN},
          {"PiDeuteron_to_pidprime", R::PiDeuteron_to_pidprime},
          {"NDeuteron_to_Ndprime", R::NDeuteron_to_Ndprime}};
}
template <>
std::vector<std::pair<std::string, int>> bits<MultiParticleReactionsBitSet>() {
  using R = IncludedMultiParticleReactions;
  return {{"Meson_3to1", R::Meson_3to1}, {"Deuteron_3to2", R::Deuteron_3to2},
          {"NNbar_5to2", R::NNbar_5to2}, {"A3_Nuclei_4to2", R::A3_Nuclei_4to2}};
}
template <>
std::vector<std::pair<std::string, int>> bits<FluidizableProcessesBitSet>() {
  using R = IncludedFluidizableProcesses;
  return {{"Elastic", R::From_Elastic}, {"Decay", R::From_Decay}, {"Inelastic", R::From_Inelastic},
          {"SoftString", R::From_SoftString}, {"HardString", R::From_HardString}};
}

std::vector<std::string> pool() {
  std::vector<std::string> v;
  auto add = [&](auto c) {
    for (auto &x : c) v.push_back(x.first);
  };
  add(choices<CalculationFrame>());
  add(choices<FermiMotion>());
  add(choices<DensityType>());
  add(choices<ExpansionMode>());
  add(choices<DerivativesMode>());
  add(choices<FieldDerivativesMode>());
  add(choices<SmearingMode>());
  add(choices<TimeStepMode>());
  add(choices<BoxInitialCondition>());
  add(choices<SphereInitialCondition>());
  add(choices<NNbarTreatment>());
  add(choices<Sampling>());
  add(choices<ThermalizationAlgorithm>());
  add(choices<CollisionCriterion>());
  add(choices<SpinInteractionType>());
  add(choices<TotalCrossSectionStrategy>());
  add(choices<PseudoResonance>());
  add(choices<FluidizationType>());
  add(choices<OutputOnlyFinal>());
  add(choices<einhard::LogLevel>());
  for (const char *s : {"", "geometric", "nonsense", "[]", "3"}) v.push_back(s);
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

/// takes the key from a configuration with this value; returns text or error
template <class T>
std::pair<bool, std::string> take(const Key<T> &key, const std::string &value) {
  Conf f(yaml(key.labels(), value));
  mc::transition();
  mc::eval();
  try {
    if constexpr (std::is_same_v<T, RestFrameDensityDerivativesMode>) {
      return {true, "?"};
    } else {
      const T a = f.c.read(key);
      const T b = f.c.take(key);
      if (show(a) != show(b)) return {true, "read " + show(a) + " take " + show(b)};
      return {true, show(a)};
    }
  } catch (const std::exception &e) {
    return {false, e.what()};
  }
}

const std::vector<std::string> &all_pool() {
  static const auto p = pool();
  return p;
}

template <class T>
void values(const Key<T> &key) {
  const std::string l = lab(key.labels());
  auto expect = [&](const std::string &v, bool ok, const std::string &text) {
    mc::cur(l + " = " + v);
    auto r = take(key, v);
    mc::state(l + v);
    if (r.first != ok)
      mc::viol("value " + l + " = " + v, ok ? "rejected: " + r.second : "accepted as " + r.second);
    else if (ok && r.second != text)
      mc::viol("value " + l + " = " + v, "taken as " + r.second + " instead of " + text);
  };
  if constexpr (std::is_same_v<T, RestFrameDensityDerivativesMode>) {
    return;
  } else if constexpr (std::is_same_v<T, bool>) {
    for (const char *v : {"true", "True", "yes", "on"}) expect(v, true, "true");
    for (const char *v : {"false", "False", "no", "off"}) expect(v, true, "false");
    for (const char *v : {"2", "maybe", "[true]", "1.0"}) expect(v, false, "");
  } else if constexpr (std::is_same_v<T, int> || std::is_same_v<T, int64_t>) {
    for (const char *v : {"0", "1", "17", "-1", "2147483647"})
      expect(v, true, v);
    for (const char *v : {"1.5", "abc", "[1]", "1e3x"}) expect(v, false, "");
  } else if constexpr (std::is_same_v<T, double>) {
    for (const char *v : {"0", "1", "0.5", "-2.25", "1e3", "0.1"})
      expect(v, true, show(atof(v)));
    for (const char *v : {"abc", "[1]", "1.5x"}) expect(v, false, "");
  } else if constexpr (std::is_same_v<T, std::string>) {
    for (const char *v : {"abc", "two words", "7"}) expect(dq(v), true, v);
    for (const char *v : {"[a]"}) expect(v, false, "");
  } else if constexpr (std::is_same_v<T, std::array<int, 3>>) {
    expect("[1, -2, 3]", true, "1,-2,3,");
    for (const char *v : {"[1, 2]", "[1, 2, 3, 4]", "1", "[1, 2, x]", "[1 2 3]", "[1, 2.5, 3]", "[]"})
      expect(v, false, "");
  } else if constexpr (std::is_same_v<T, std::array<double, 2>> ||
                       std::is_same_v<T, std::pair<double, double>>) {
    expect("[1.5, -2]", true, std::is_same_v<T, std::array<double, 2>> ? "1.5,-2," : "1.5,-2");
    for (const char *v : {"[1]", "[1, 2, 3]", "1", "[1, x]", "[1 2]", "[]"}) expect(v, false, "");
  } else if constexpr (std::is_same_v<T, std::array<double, 3>>) {
    expect("[1.5, -2, 0.25]", true, "1.5,-2,0.25,");
    for (const char *v : {"[1, 2]", "[1, 2, 3, 4]", "1", "[1, 2, x]", "[1 2 3]", "[]"})
      expect(v, false, "");
  } else if constexpr (std::is_same_v<T, std::vector<double>>) {
    expect("[1.5, -2, 0.25]", true, "1.5,-2,0.25,");
    expect("[3]", true, "3,");
    for (const char *v : {"1", "[1, x]", "[1 2]"}) expect(v, false, "");
  } else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
    expect("[\"a\", \"b c\"]", true, "a,b c,");
    for (const char *v : {"a"}) expect(v, false, "");
  } else if constexpr (std::is_same_v<T, std::set<ThermodynamicQuantity>>) {
    const char *q[] = {"rho_eckart", "tmn", "tmn_landau", "landau_velocity", "j_QBS"};
    for (int m = 1; m < 32; m++) {
      std::string v;
      std::set<T> dummy;
      T want;
      const ThermodynamicQuantity e[] = {
          ThermodynamicQuantity::EckartDensity, ThermodynamicQuantity::Tmn,
          ThermodynamicQuantity::TmnLandau, ThermodynamicQuantity::LandauVelocity,
          ThermodynamicQuantity::j_QBS};
      for (int i = 4; i >= 0; i--)
        if (m >> i & 1) {
          v += (v.empty() ? "[" : ", ") + std::string(q[i]);
          want.insert(e[i]);
        }
      expect(v + "]", true, show(want));
    }
    for (const char *v : {"[pressure]", "tmn"}) expect(v, false, "");
  } else if constexpr (std::is_same_v<T, std::map<PdgCode, int>>) {
    expect("{2212: 79, 2112: 118}", true, "2112:118,2212:79,");
    expect("{-211: 1}", true, "-211:1,");
    for (const char *v : {"{2212: many}", "[2212]"}) expect(v, false, "");
  } else if constexpr (std::is_same_v<T, std::map<std::string, std::string>>) {
    expect("{b: c, a: d}", true, "a:d,b:c,");
  } else if constexpr (std::is_same_v<T, PdgCode>) {
    for (const char *v : {"2212", "-211", "113"}) expect(v, true, v);
    for (const char *v : {"abcx", "[1]"}) expect(v, false, "");
  } else if constexpr (std::is_enum_v<T>) {
    const auto ch = choices<T>();
    for (auto &s : all_pool()) {
      const T *want = nullptr;
      for (auto &c : ch)
        if (c.first == s) want = &c.second;
      expect(dq(s), want != nullptr, s);
      if (!want) continue;
      Conf f(yaml(key.labels(), dq(s)));
      if (f.c.take(key) != *want) mc::viol("value " + l + " = " + s, "is another choice");
      if (f.c.has_value(key)) mc::viol("value " + l + " = " + s, "still there after taking");
      f.c.set_value(key, *want);
      if (f.c.read(key) != *want) mc::viol("value " + l + " = " + s, "does not survive being set");
    }
  } else {
    const auto bs = bits<T>();
    for (int m = 0; m < (1 << bs.size()); m++) {
      T want;
      std::string v = "[";
      for (size_t i = 0; i < bs.size(); i++)
        if (m >> i & 1) {
          v += (v == "[" ? "" : ", ") + bs[i].first;
          want.set(bs[i].second);
        }
      expect(v + "]", true, want.to_string());
      if (m % 37 == 1) {
        Conf f(yaml(key.labels(), "[All]"));
        f.c.set_value(key, want);
        if (f.c.read(key) != want) mc::viol("value " + l + " = " + v, "does not survive being set");
      }
    }
    T all;
    all.set();
    expect("[All]", true, all.to_string());
    expect("[All, " + bs[0].first + "]", true, all.to_string());
    for (const char *v : {"[nonsense]", "All", "[elastic]"}) expect(v, false, "");
  }
}

template <class T>
void default_value(const Key<T> &key, const KnownKey &k) {
  Conf f("{Nothing: 1}");
  std::string got;
  mc::cur(std::string("default of ") + k.labels);
  mc::transition();
  mc::eval();
  if constexpr (std::is_same_v<T, RestFrameDensityDerivativesMode>) {
    return;
  } else {
    try {
      const std::string a = show(f.c.read(key)), b = show(f.c.take(key)), c = show(f.c.take(key));
      got = "=" + a;
      if (a != b || b != c) got = "differs between read and take";
    } catch (const std::invalid_argument &) {
      got = key.has_dependent_default() ? "DEP" : "REQ";
    } catch (const std::bad_optional_access &) {
      got = "DEP";
    }
  }
  const std::string want = k.def;
  if (want != "-" && got != want)
    mc::viol(std::string("default of ") + k.labels, got + " instead of " + want);
}
}  // namespace

int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::quiet_logging();
  std::map<std::string, const KnownKey *> known;
  for (auto &k : kKnownKeys) known[k.labels] = &k;
  std::set<std::string> maps, all;
  std::vector<std::string> sample;
  for (auto &kv : InputKeys::list)
    std::visit(
        [&](auto &&r) {
          using U = typename std::decay_t<decltype(r.get())>::type;
          const std::string l = lab(r.get().labels());
          all.insert(l);
          if (std::is_same_v<U, std::map<PdgCode, int>> ||
              std::is_same_v<U, std::map<std::string, std::string>>)
            maps.insert(l);
        },
        kv);
  uint64_t idx = 0;
  auto check = [&](const std::string &what, const std::string &y, Is full, Is first) {
    if (!mc::mine(idx++)) return;
    mc::cur(what + " " + y);
    mc::trace();
    mc::state(y);
    const Is f = validate(y), g = validate(y, false);
    mc::eval();
    if (f != full)
      mc::viol(what + " " + y, mc::fmt("%s instead of %s", name(f), name(full)));
    if (g != first)
      mc::viol(what + " " + y, mc::fmt("%s instead of %s at the first problem", name(g), name(first)));
  };
  auto status = [&](const std::string &labels) {
    auto it = known.find(labels);
    if (it == known.end()) return all.count(labels) ? Is::Valid : Is::Invalid;
    return std::string(it->second->status) == "removed"      ? Is::Invalid
           : std::string(it->second->status) == "deprecated" ? Is::Deprecated
                                                             : Is::Valid;
  };
  auto under_map = [&](const Labels &l) {
    for (auto &m : maps) {
      const Labels x = cut_labels(m);
      if (l.size() >= x.size() && std::equal(x.begin(), x.end(), l.begin())) return true;
    }
    return false;
  };
  // A, B: single keys
  std::set<std::string> done;
  auto single = [&](const Labels &l, const std::string &what, const std::string &v = "1") {
    if (under_map(l)) return;  // members of a map are values
    const std::string j = lab(l);
    if (!done.insert(j + v).second) return;
    const Is s = status(j);
    check(what, yaml(l, v), s, s);
  };
  for (auto &k : kKnownKeys) {
    if (!all.count(k.labels)) {
      mc::viol(std::string("key ") + k.labels, "is not known any more");
      continue;
    }
    const Labels l = cut_labels(k.labels);
    if (maps.count(k.labels)) {
      check("map key", yaml(l, "{2212: 1}"), status(k.labels), status(k.labels));
      check("map key", yaml(l, "{2212: 1, 2112: 2, -211: 3}"), status(k.labels), status(k.labels));
      check("map key", yaml(l, "{}"), Is::Valid, Is::Valid);
    } else {
      for (const char *v : {"1", "text", "[1, 2]", "~"}) single(l, "key", v);
      Labels e = l;
      e.push_back("Sub");
      single(e, "key with a further label");
      e = l;
      e.push_back(l.back());
      single(e, "key with a further label");
    }
    for (size_t n = 1; n < l.size(); n++) {
      single(Labels(l.begin(), l.begin() + n), "section without content");
      single(Labels(l.begin(), l.begin() + n), "section without content", "~");
      single(Labels(l.begin() + n, l.end()), "key without its section");
    }
    for (size_t i = 0; i < l.size(); i++) {
      Labels e = l;
      e.erase(e.begin() + i);
      if (!e.empty()) single(e, "key with a missing label");
      for (size_t c = 0; c < l[i].size(); c++) {
        e = l;
        e[i].erase(c, 1);
        if (!e[i].empty()) single(e, "mistyped key");
        e = l;
        e[i][c] = std::isupper(e[i][c]) ? std::tolower(e[i][c]) : std::toupper(e[i][c]);
        single(e, "mistyped key");
        e = l;
        e[i].insert(c, 1, e[i][c]);
        single(e, "mistyped key");
      }
      for (const char *a : {"s", "_", " "}) {
        e = l;
        e[i] += a;
        single(e, "mistyped key");
      }
    }
    sample.push_back(k.labels);
  }
  // C: pairs (also unknown ones, two in the same section, with maps)
  std::vector<Labels> some;
  for (size_t i = 0; i < sample.size(); i++)
    some.push_back(cut_labels(sample[i]));
  for (const char *u : {"Unknown", "General|Unknown", "Modi|Box|Unknown", "Output|Particles|Unknown",
                        "Logging|Unknown", "Version"})
    some.push_back(cut_labels(u));
  auto combine = [&](const std::vector<Labels> &ls) {
    // block-style YAML keeping the order of first appearance
    struct N {
      std::vector<std::pair<std::string, N>> sub;
    };
    N root;
    bool ok = true;
    for (auto &l : ls) {
      N *n = &root;
      for (size_t i = 0; i < l.size(); i++) {
        N *next = nullptr;
        for (auto &s : n->sub)
          if (s.first == l[i]) next = &s.second;
        if (!next) {
          n->sub.push_back({l[i], {}});
          next = &n->sub.back().second;
        } else if (i + 1 == l.size()) {
          ok = false;
        }
        n = next;
      }
      if (!n->sub.empty()) ok = false;
    }
    std::string y;
    std::vector<Labels> leaves;
    std::function<void(const N &, int, Labels)> out = [&](const N &n, int d, Labels at) {
      for (auto &s : n.sub) {
        y += std::string(2 * d, ' ') + dq(s.first) + ":";
        Labels l = at;
        l.push_back(s.first);
        if (s.second.sub.empty()) {
          y += maps.count(lab(l)) ? " {2212: 1, 2112: 2}\n" : " 1\n";
          leaves.push_back(l);
        } else {
          if (maps.count(lab(l)) ) ok = false;
          y += "\n";
          out(s.second, d + 1, l);
        }
      }
    };
    out(root, 0, {});
    if (!ok || leaves.size() != ls.size()) return;
    Is full = Is::Valid, first = Is::Valid;
    for (auto &l : leaves) {
      const Is s = status(lab(l));
      if (first == Is::Valid) first = s;
      if (s == Is::Invalid || (s == Is::Deprecated && full == Is::Valid)) full = s;
    }
    check("keys", y, full, first);
  };
  for (auto &a : some)
    for (auto &b : some) {
      if (a == b) continue;
      combine({a, b});
      if (mc::thorough())
        for (auto &c : some)
          if (c != a && c != b && (status(lab(c)) != Is::Valid || maps.count(lab(c))))
            combine({a, b, c});
    }
  // D, E: defaults and values
  for (auto &kv : InputKeys::list)
    std::visit(
        [&](auto &&r) {
          const auto &key = r.get();
          if (!mc::mine(idx++)) return;
          const std::string l = lab(key.labels());
          auto it = known.find(l);
          if (it == known.end()) return;
          values(key);
          default_value(key, *it->second);
        },
        kv);
  // F: what is shipped is valid
  for (auto &e : std::filesystem::recursive_directory_iterator(mc::repo() + "/input"))
    if (e.path().extension() == ".yaml")
      check("shipped", mc::slurp(e.path().string()), Is::Valid, Is::Valid);
  check("empty", "", Is::Valid, Is::Valid);
  mc::sample("General|Nevents = 1.5 rejected; General|Nevent invalid; pairs of keys");
  return mc::finish();
}
